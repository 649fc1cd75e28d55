//! The recording element type: N values, encoded by themselves.
use enum_like::EnumLike;
use std::cell::Cell;

thread_local! {
    static BAD: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
    static DECODES: Cell<u64> = const { Cell::new(0) };
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct E<const N: usize>(pub usize);

// Decoding records any number that does not encode a value (the trait only requires decoding of
// valid numbers, so a caller must never pass another).
unsafe impl<const N: usize> EnumLike for E<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        DECODES.with(|d| d.set(d.get() + 1));
        if x >= N {
            BAD.with(|b| b.set(Some((x, N))));
        }
        E(x)
    }
}

/// The last invalid decode since the last call, if any: (number, variants).
pub fn take_bad() -> Option<(usize, usize)> {
    BAD.with(|b| b.replace(None))
}
pub fn decodes() -> u64 {
    DECODES.with(|d| d.get())
}
