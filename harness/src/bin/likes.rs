//! values() and the packed wrappers.
use enum_like::{EnumLike, EnumValues, PackedU16, PackedU8};
use enum_like_derive::EnumLike;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use vt::dynvec::Rec;
use vt::elem::E;
use vt::engine::*;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
enum Unit {
    A,
    B,
    C,
    D = 40,
    F,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
enum Data {
    One(bool),
    Nothing,
    Two { x: Unit, y: Option<bool> },
    Empty,
    Arr([Unit; 2]),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
struct Pair {
    a: Unit,
    b: (bool, Option<Unit>),
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, EnumLike)]
struct Gen<T>(T, Option<T>);

/// Its own order and equality disagree with the encoding: 0 is the largest, all are "equal" to
/// values of the same parity.
#[derive(Copy, Clone, Debug)]
struct Odd<const N: usize>(usize);
impl<const N: usize> PartialEq for Odd<N> {
    fn eq(&self, o: &Self) -> bool {
        self.0 % 2 == o.0 % 2
    }
}
impl<const N: usize> Eq for Odd<N> {}
impl<const N: usize> PartialOrd for Odd<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for Odd<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        (o.0 % 2).cmp(&(self.0 % 2))
    }
}
impl<const N: usize> Hash for Odd<N> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 % 2).hash(h)
    }
}
unsafe impl<const N: usize> EnumLike for Odd<N> {
    const NUM_VARIANTS: usize = N;
    fn to_discr(self) -> usize {
        self.0
    }
    fn from_discr(x: usize) -> Self {
        assert!(x < N, "decoding {} of {}", x, N);
        Odd(x)
    }
}

macro_rules! types {
    ($f:ident, $src:ident, $cx:ident; $($t:ty),* $(,)?) => {{
        let n = [$(std::mem::size_of::<$t>()),*].len();
        let i = $src.below(n);
        let mut k = 0usize;
        $( { if k == i { $cx.log(|| stringify!($t).to_string()); return $f::<$t>($src, $cx); } k += 1; } )*
        let _ = k;
        unreachable!()
    }};
}

fn p21(src: &mut Src, cx: &mut Cx) -> Case {
    types!(values, src, cx;
        E<3>, E<0>, E<1>, E<2>, E<7>, E<64>, E<1000>, E<70000>, E<{ 1 << (usize::BITS / 2 + 1) }>, E<{ usize::MAX - 1 }>, E<{ usize::MAX }>,
        (), bool, Option<()>, Option<bool>, Result<bool, Option<()>>, (bool, bool, Option<bool>), [bool; 5], [Option<bool>; 3],
        Unit, Data, Pair, Gen<Unit>, Option<Data>, Result<Pair, Data>, ([Unit; 3], Data))
}

/// The list is known by index only: value i decodes from i and encodes to i.
fn values<T: EnumLike + Debug + PartialEq>(src: &mut Src, cx: &mut Cx) -> Case {
    let max = T::NUM_VARIANTS;
    let is = |x: Option<T>, want: Option<usize>| -> bool {
        match (x, want) {
            (None, None) => true,
            (Some(x), Some(w)) => x.to_discr() == w && x == T::from_discr(w),
            _ => false,
        }
    };
    let mut it = T::values();
    let mut cur = 0usize;
    let mut n = 0;
    let arg = |src: &mut Src, left: usize, cur: usize| -> usize {
        match src.weighted(&[5, 3, 2, 2]) {
            0 => src.below(5),
            1 => src.edgy(left.max(1), &[0, 1, left, left.saturating_sub(1), left / 2]),
            2 => left.saturating_add(src.below(4)),
            _ => usize::MAX - src.edgy(max, &[0, 1, 2, cur, left, max]),
        }
    };
    let mut skipped = false;
    while n < 60 && src.more(8) {
        n += 1;
        let left = max - cur;
        let h = it.size_hint();
        if h != (left, Some(left)) || it.len() != left {
            return Err(format!("size_hint() is {:?} and len() {} with {} of {} left", h, it.len(), left, max));
        }
        match src.weighted(&[6, 5, 1, 1]) {
            0 => {
                let x = it.next();
                cx.log(|| format!("next() -> {:?}", x));
                let w = if cur < max { Some(cur) } else { None };
                if !is(x, w) {
                    return Err(format!("next() gives {:?} where value {:?} of {} is due", x, w, max));
                }
                cur += w.is_some() as usize;
            }
            1 => {
                let k = arg(src, left, cur);
                let x = it.nth(k);
                cx.log(|| format!("nth({}) -> {:?}", k, x));
                let w = cur.checked_add(k).filter(|&i| i < max);
                if !is(x, w) {
                    return Err(format!("nth({}) after {} of {} values gives {:?} where {:?} is due", k, cur, max, x, w));
                }
                skipped |= w.is_some();
                cur = w.map_or(max, |w| w + 1);
            }
            2 => {
                let c = it;
                let _ = it.size_hint();
                it = c.clone();
            }
            _ => {
                // a whole pass through a copy
                let c = it;
                let k = arg(src, left, cur);
                match src.below(6) {
                    0 => {
                        if c.count() != left {
                            return Err(format!("count() is {} with {} left", c.count(), left));
                        }
                    }
                    1 => {
                        let x = c.last();
                        if !is(x, if left > 0 { Some(max - 1) } else { None }) {
                            return Err(format!("last() is {:?} with {} of {} left", x, left, max));
                        }
                    }
                    2 => {
                        cx.log(|| format!("skip({})", k));
                        let v: Vec<usize> = c.skip(k).take(300).map(|x| x.to_discr()).collect();
                        let w: Vec<usize> = match cur.checked_add(k) {
                            Some(s) if s < max => (s..max).take(300).collect(),
                            _ => vec![],
                        };
                        if v != w {
                            return Err(format!("skip({}) after {} of {} values gives {:?} instead of {:?}", k, cur, max, v, w));
                        }
                    }
                    3 => {
                        let k = k.max(1);
                        cx.log(|| format!("step_by({})", k));
                        let v: Vec<usize> = c.step_by(k).take(300).map(|x| x.to_discr()).collect();
                        let w: Vec<usize> = (cur..max).step_by(k).take(300).collect();
                        if v != w {
                            return Err(format!("step_by({}) after {} of {} values gives {:?} instead of {:?}", k, cur, max, v, w));
                        }
                    }
                    4 => {
                        let v: Vec<usize> = c.take(1200).map(|x| x.to_discr()).collect();
                        if v != (cur..max).take(1200).collect::<Vec<_>>() {
                            return Err(format!("looping on after {} of {} values gives {:?}", cur, max, v));
                        }
                    }
                    _ => {
                        if left <= 70000 {
                            let s = c.fold(0usize, |a, x| a.wrapping_mul(31).wrapping_add(x.to_discr()));
                            if s != (cur..max).fold(0usize, |a, x| a.wrapping_mul(31).wrapping_add(x)) {
                                return Err(format!("fold() after {} of {} values sees something else", cur, max));
                            }
                            let l = c.clone().max_by_key(|x| x.to_discr());
                            if !is(l, if left > 0 { Some(max - 1) } else { None }) {
                                return Err(format!("max is {:?}", l));
                            }
                        }
                    }
                }
            }
        }
    }
    let left = max - cur;
    if it.size_hint() != (left, Some(left)) || it.len() != left || it.count() != left {
        return Err(format!("size_hint() is {:?}, count() {} with {} of {} left", it.size_hint(), it.count(), left, max));
    }
    if left < 2000 && src.chance(1, 2) {
        for i in cur..max {
            let x = it.next();
            if !is(x, Some(i)) {
                return Err(format!("next() gives {:?} where value {} of {} is due", x, i, max));
            }
        }
        for _ in 0..3 {
            if it.next().is_some() || it.nth(0).is_some() || it.len() != 0 {
                return Err("a value after the end".to_string());
            }
        }
    }
    cx.nontrivial = n >= 2 && (skipped || max > 2);
    Ok(())
}

fn p22(src: &mut Src, cx: &mut Cx) -> Case {
    if src.chance(1, 2) {
        types!(packed8, src, cx;
            E<3>, E<1>, E<2>, E<128>, E<129>, E<255>, E<256>, Odd<5>, Odd<200>, Odd<256>, (), bool, Option<bool>, [bool; 8],
            Unit, Data, Pair, Option<Data>, Gen<Option<bool>>, (Unit, Unit, Unit))
    } else {
        types!(packed16, src, cx;
            E<3>, E<1>, E<256>, E<257>, E<32768>, E<32769>, E<65535>, E<65536>, Odd<5>, Odd<300>, Odd<65536>, (), bool, [bool; 16],
            Unit, Data, (Unit, Pair, Data), [Unit; 6], Gen<Data>)
    }
}

macro_rules! packed {
    ($name:ident, $w:ident, $size:expr) => {
        fn $name<T: EnumLike + Debug + Ord + Hash>(src: &mut Src, cx: &mut Cx) -> Case {
            let n = T::NUM_VARIANTS;
            cx.log(|| format!("{}, {} values", stringify!($w), n));
            if std::mem::size_of::<$w<T>>() != $size {
                return Err(format!("the wrapper takes {} bytes", std::mem::size_of::<$w<T>>()));
            }
            let all = src.chance(1, 40);
            let mut xs = vec![];
            if all {
                xs.extend(0..n);
            } else {
                for _ in 0..src.range(1, 12) {
                    xs.push(src.edgy(n - 1, &[0, n - 1, n / 2, 1, 127, 128, 255, 256, 32767, 32768]));
                }
            }
            cx.log(|| format!("values {:?}", &xs[..xs.len().min(20)]));
            cx.nontrivial = xs.len() >= 2;
            let mut prev: Option<(usize, $w<T>)> = None;
            for &i in &xs {
                let v = T::from_discr(i);
                let p = $w::new(v);
                let q = p;
                let g = p.get();
                if g.to_discr() != i {
                    return Err(format!("packing value {} ({:?}) and taking it out gives {:?}", i, v, g));
                }
                if q.clone().get().to_discr() != i {
                    return Err(format!("a copy of packed value {} holds {:?}", i, q.get()));
                }
                if let Some((j, o)) = prev {
                    let (h1, h2) = (hash(&o), hash(&p));
                    let want = j.cmp(&i);
                    if (o == p) != (i == j) || (o != p) == (i == j) {
                        return Err(format!("packed values {} and {} compare equal: {}", j, i, o == p));
                    }
                    if o.cmp(&p) != want || o.partial_cmp(&p) != Some(want) || (o < p) != (j < i) || (o >= p) != (j >= i) {
                        return Err(format!("packed values {} and {} compare as {:?}", j, i, o.cmp(&p)));
                    }
                    if (h1 == h2) != (i == j) {
                        return Err(format!("packed values {} and {} hash alike: {}", j, i, h1 == h2));
                    }
                }
                prev = Some((i, p));
            }
            Ok(())
        }
    };
}
fn hash<T: Hash>(x: &T) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}
packed!(packed8, PackedU8, 1);
packed!(packed16, PackedU16, 2);

fn main() {
    vt::engine::main(&[("P21", p21), ("P22", p22)]);
}
