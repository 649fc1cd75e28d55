//! An allocator that makes memory errors observable.
//!
//! Fresh memory is filled with a chosen byte (so what an operation does with memory nobody wrote
//! depends on that byte, and two runs with different bytes disagree), every block is surrounded by
//! guard bytes that are verified when it is freed or moved, growing always moves, and freed memory
//! is overwritten.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, Ordering::Relaxed};

pub struct Guard;
static FILL: AtomicU8 = AtomicU8::new(0xA5);
static BROKEN: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
const PAD: usize = 32;

/// The byte fresh memory is filled with from now on.
pub fn set_fill(b: u8) {
    FILL.store(b, Relaxed);
}
/// How many blocks were found with damaged guard bytes so far.
pub fn broken() -> u64 {
    BROKEN.load(Relaxed)
}
/// Bytes handed out and not given back.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// How many times memory was asked for.
pub fn calls() -> u64 {
    CALLS.load(Relaxed)
}

fn pad(l: Layout) -> usize {
    PAD.max(l.align())
}
fn outer(l: Layout) -> Layout {
    match l.size().checked_add(2 * pad(l)) {
        Some(s) => Layout::from_size_align(s, l.align()).unwrap_or(Layout::new::<[u8; 1 << (usize::BITS / 8 * 5)]>()),
        None => Layout::new::<[u8; 1 << (usize::BITS / 8 * 5)]>(),
    }
}

unsafe fn verify(p: *mut u8, l: Layout) {
    let n = pad(l);
    let base = p.sub(n);
    let b = *base;
    let ok = |q: *mut u8| (0..n).all(|i| *q.add(i) == b);
    if !ok(base) || !ok(p.add(l.size())) {
        BROKEN.fetch_add(1, Relaxed);
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = outer(l);
        let n = pad(l);
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        LIVE.fetch_add(l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        let b = FILL.load(Relaxed);
        // big blocks: their beginning and end only (a reservation may be huge)
        if l.size() <= 1 << 20 {
            std::ptr::write_bytes(p.add(n), b, l.size());
        } else {
            std::ptr::write_bytes(p.add(n), b, 1 << 16);
            std::ptr::write_bytes(p.add(n + l.size() - (1 << 16)), b, 1 << 16);
        }
        // never the same as what the guards of a neighbouring run hold
        std::ptr::write_bytes(p, !b, n);
        std::ptr::write_bytes(p.add(n + l.size()), !b, n);
        p.add(n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let o = outer(l);
        let n = pad(l);
        let p = System.alloc_zeroed(o);
        if p.is_null() {
            return p;
        }
        LIVE.fetch_add(l.size() as i64, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        let b = FILL.load(Relaxed);
        std::ptr::write_bytes(p, !b, n);
        std::ptr::write_bytes(p.add(n + l.size()), !b, n);
        p.add(n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        verify(p, l);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        let n = pad(l);
        std::ptr::write_bytes(p, 0xDD ^ FILL.load(Relaxed), l.size().min(1 << 16));
        System.dealloc(p.sub(n), outer(l));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let nl = match Layout::from_size_align(size, l.align()) {
            Ok(x) => x,
            Err(_) => return std::ptr::null_mut(),
        };
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(size));
            self.dealloc(p, l);
        }
        q
    }
}
