//! P14, and parts of other properties, at every element width of every storage.
use std::any::Any;
use std::hash::Hasher;
use std::sync::OnceLock;
use vt::dynvec::width_of;
use vt::engine::*;

trait V {
    fn len(&self) -> usize;
    fn get(&self, i: usize) -> Option<u64>;
    fn set(&mut self, i: usize, x: u64);
    fn push(&mut self, x: u64);
    fn pop(&mut self) -> Option<u64>;
    fn swap(&mut self, i: usize, j: usize);
    fn resize(&mut self, n: usize, x: u64);
    fn truncate(&mut self, n: usize);
    fn extend(&mut self, xs: &[u64]);
    fn insert(&mut self, i: usize, x: u64);
    fn to_vec(&self) -> Vec<u64>;
    fn remove(&mut self, i: usize) -> u64;
    fn swap_remove(&mut self, i: usize) -> u64;
    fn any(&self, x: u64) -> bool;
    fn all(&self, x: u64) -> bool;
    fn append(&mut self, o: &mut dyn V);
    fn split_off(&mut self, at: usize) -> Box<dyn V>;
    fn copy(&self) -> Box<dyn V>;
    fn shrink(&mut self);
    fn reserve(&mut self, n: usize);
    fn capacity(&self) -> usize;
    fn blocks(&self) -> usize;
    fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool);
    fn for_each(&mut self, f: &mut dyn FnMut(u64) -> u64);
    fn backward(&self) -> Vec<u64>;
    fn same(&self, o: &dyn V) -> bool;
    fn hash(&self, h: &mut dyn Hasher);
    fn any_mut(&mut self) -> &mut dyn Any;
    fn any_ref(&self) -> &dyn Any;
}
#[derive(Clone, Copy)]
struct F {
    storage: &'static str,
    block: usize,
    n: usize,
    new: fn() -> Box<dyn V>,
    elem: fn(u64, usize) -> Box<dyn V>,
    slice: fn(&[u64]) -> Box<dyn V>,
}
macro_rules! st {
    ($m:ident, $p:ident, $bits:expr, [$($w:expr),*]) => {
        mod $m {
            use super::{Any, Hasher, F, V};
            use std::hash::Hash;
            use enum_vec::$p::EnumVec;
            use vt::elem::E;
            struct W<const N: usize>(EnumVec<E<N>>);
            impl<const N: usize> V for W<N> {
                fn len(&self) -> usize { self.0.len() }
                fn get(&self, i: usize) -> Option<u64> { self.0.get(i).map(|x| x.0 as u64) }
                fn set(&mut self, i: usize, x: u64) { self.0.set(i, E(x as usize)) }
                fn push(&mut self, x: u64) { self.0.push(E(x as usize)) }
                fn pop(&mut self) -> Option<u64> { self.0.pop().map(|x| x.0 as u64) }
                fn swap(&mut self, i: usize, j: usize) { self.0.swap(i, j) }
                fn resize(&mut self, n: usize, x: u64) { self.0.resize(n, E(x as usize)) }
                fn truncate(&mut self, n: usize) { self.0.truncate(n) }
                fn extend(&mut self, xs: &[u64]) { self.0.extend(xs.iter().map(|&x| E(x as usize))) }
                fn insert(&mut self, i: usize, x: u64) { self.0.insert(i, E(x as usize)) }
                fn to_vec(&self) -> Vec<u64> { self.0.to_vec().into_iter().map(|x| x.0 as u64).collect() }
                fn remove(&mut self, i: usize) -> u64 { self.0.remove(i).0 as u64 }
                fn swap_remove(&mut self, i: usize) -> u64 { self.0.swap_remove(i).0 as u64 }
                fn any(&self, x: u64) -> bool { self.0.any(E(x as usize)) }
                fn all(&self, x: u64) -> bool { self.0.all(E(x as usize)) }
                fn append(&mut self, o: &mut dyn V) { self.0.append(&mut o.any_mut().downcast_mut::<W<N>>().unwrap().0) }
                fn split_off(&mut self, at: usize) -> Box<dyn V> { Box::new(W(self.0.split_off(at))) }
                fn copy(&self) -> Box<dyn V> { Box::new(W(self.0.clone())) }
                fn shrink(&mut self) { self.0.shrink_to_fit() }
                fn reserve(&mut self, n: usize) { self.0.reserve(n) }
                fn capacity(&self) -> usize { self.0.capacity() }
                fn blocks(&self) -> usize { self.0.storage().len() }
                fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool) { self.0.retain(|x| f(x.0 as u64)) }
                fn for_each(&mut self, f: &mut dyn FnMut(u64) -> u64) { self.0.for_each(|x| *x = E(f(x.0 as u64) as usize)) }
                fn backward(&self) -> Vec<u64> { self.0.iter().rev().map(|x| x.0 as u64).collect() }
                fn same(&self, o: &dyn V) -> bool { self.0 == o.any_ref().downcast_ref::<W<N>>().unwrap().0 }
                fn hash(&self, mut h: &mut dyn Hasher) { self.0.hash(&mut h) }
                fn any_mut(&mut self) -> &mut dyn Any { self }
                fn any_ref(&self) -> &dyn Any { self }
            }
            fn elem<const N: usize>(x: u64, n: usize) -> Box<dyn V> { Box::new(W::<N>(EnumVec::from_elem(E(x as usize), n))) }
            fn slice<const N: usize>(x: &[u64]) -> Box<dyn V> {
                let t: Vec<E<N>> = x.iter().map(|&x| E(x as usize)).collect();
                Box::new(W::<N>(EnumVec::from_slice(&t)))
            }
            fn new<const N: usize>() -> Box<dyn V> { Box::new(W::<N>(EnumVec::new())) }
            const fn full(w: u32) -> usize { if w >= usize::BITS { usize::MAX } else { 1 << w } }
            const fn half(w: u32) -> usize { if w == 1 || w > usize::BITS { 2 } else { (1 << (w - 1)) + 1 } }
            pub fn all(v: &mut Vec<F>) {
                $(if $w <= usize::BITS {
                    v.push(F { storage: stringify!($p), block: $bits, n: full($w), new: new::<{ full($w) }>, elem: elem::<{ full($w) }>, slice: slice::<{ full($w) }> });
                    v.push(F { storage: stringify!($p), block: $bits, n: half($w), new: new::<{ half($w) }>, elem: elem::<{ half($w) }>, slice: slice::<{ half($w) }> });
                })*
            }
        }
    };
}
st!(s8, vec_u8, 8, [1, 2, 3, 4, 5, 6, 7, 8]);
st!(s16, vec_u16, 16, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]);
st!(s32, vec_u32, 32, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]);
st!(sm, smallvec_u32, 32, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32]);
st!(s64, vec_u64, 64, [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32,
    33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64
]);
st!(s128, vec_u128, 128, [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32,
    33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64
]);

fn all() -> &'static [F] {
    static R: OnceLock<Vec<F>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = vec![];
        s8::all(&mut v);
        s16::all(&mut v);
        s32::all(&mut v);
        sm::all(&mut v);
        s64::all(&mut v);
        s128::all(&mut v);
        v
    })
}

fn value(src: &mut Src, n: usize) -> u64 {
    let w = width_of(n);
    let m = (n - 1) as u64;
    match src.weighted(&[2, 3, 2, 2, 3]) {
        0 => 0,
        1 => m,
        2 => (1u64 << src.below(w)).min(m),
        3 => (m ^ (1u64 << src.below(w))).min(m),
        _ => src.upto(m),
    }
}

fn check(v: &dyn V, m: &[u64], what: impl Fn() -> String) -> Case {
    if v.len() != m.len() {
        return Err(format!("{}: length {} instead of {}", what(), v.len(), m.len()));
    }
    for (i, &x) in m.iter().enumerate() {
        if v.get(i) != Some(x) {
            return Err(format!("{}: position {} of {} reads {:?} instead of {}", what(), i, m.len(), v.get(i), x));
        }
    }
    Ok(())
}

fn p14(src: &mut Src, cx: &mut Cx) -> Case {
    let f = all()[src.below(all().len())];
    let w = width_of(f.n);
    let k = f.block / w;
    cx.label(f.storage);
    cx.log(|| format!("{}, {} values, {} bits, {} per block", f.storage, f.n, w, k));
    let mut v = (f.new)();
    let mut m: Vec<u64> = vec![];
    if src.chance(1, 10) {
        // every position of a few blocks x every bit pattern of interest x two backgrounds
        cx.label("sweep");
        let len = 2 * k + 1;
        let mut pats: Vec<u64> = vec![0, (f.n - 1) as u64, (f.n / 2) as u64];
        for b in 0..w {
            pats.push((1u64 << b).min((f.n - 1) as u64));
        }
        if f.n <= 64 {
            pats = (0..f.n as u64).collect();
        }
        let first = src.below(len);
        for bg in [0, (f.n - 1) as u64] {
            v.truncate(0);
            v.resize(len, bg);
            m = vec![bg; len];
            check(&*v, &m, || format!("filled with {}", bg))?;
            for d in 0..len.min(40) {
                let i = (first + d * 7) % len;
                for &x in &pats {
                    v.set(i, x);
                    if v.get(i) != Some(x) {
                        return Err(format!("{} set at {} of {} reads {:?}", x, i, len, v.get(i)));
                    }
                    for j in [i.wrapping_sub(1), i + 1, i.wrapping_sub(k), i + k] {
                        if j < len && v.get(j) != Some(bg) {
                            return Err(format!("setting {} at {} of {} changed position {} to {:?}", x, i, len, j, v.get(j)));
                        }
                    }
                }
                v.set(i, bg);
                check(&*v, &m, || format!("after storing all patterns at {}", i))?;
            }
        }
        cx.log(|| format!("sweep over {} positions x {} patterns", len.min(40), pats.len()));
        cx.nontrivial = true;
        return Ok(());
    }
    dict::units(k, w);
    let cap = (5 * k + 4).clamp(24, 330).max(src.extra_cap());
    let mut sets = 0;
    let mut n = 0;
    let e = |src: &mut Src, max: usize| src.edgy(max, &[0, max, k - 1, k, k + 1, 2 * k, max / 2, max / k * k]);
    while n < 60 && src.more(12) {
        n += 1;
        let room = cap.saturating_sub(m.len());
        match src.weighted(&[4, 8, 2, 2, 2, 1, 2, 1]) {
            0 => {
                let x = value(src, f.n);
                cx.log(|| format!("push({})", x));
                v.push(x);
                m.push(x);
            }
            1 if !m.is_empty() => {
                let i = e(src, m.len() - 1);
                let x = value(src, f.n);
                cx.log(|| format!("set({}, {})", i, x));
                v.set(i, x);
                m[i] = x;
                sets += 1;
            }
            2 if !m.is_empty() => {
                let (i, j) = (e(src, m.len() - 1), e(src, m.len() - 1));
                cx.log(|| format!("swap({}, {})", i, j));
                v.swap(i, j);
                m.swap(i, j);
                sets += 1;
            }
            3 => {
                let x = value(src, f.n);
                let by = e(src, room);
                cx.log(|| format!("resize({}, {})", m.len() + by, x));
                v.resize(m.len() + by, x);
                m.resize(m.len() + by, x);
            }
            4 => {
                let by = e(src, room);
                let s = src.upto(0xffff);
                let xs: Vec<u64> = (0..by)
                    .map(|i| {
                        let r = mix(s, i as u64);
                        match r % 4 {
                            0 => 0,
                            1 => f.n as u64 - 1,
                            _ => mix(r, 1) % f.n as u64,
                        }
                    })
                    .collect();
                cx.log(|| format!("extend({:?})", &xs[..xs.len().min(20)]));
                v.extend(&xs);
                m.extend(xs);
            }
            5 => {
                let t = e(src, m.len());
                cx.log(|| format!("truncate({})", t));
                v.truncate(t);
                m.truncate(t);
            }
            6 if !m.is_empty() => {
                let a = v.pop();
                let b = m.pop();
                cx.log(|| format!("pop() -> {:?}", a));
                if a != b {
                    return Err(format!("pop() gives {:?} instead of {:?}", a, b));
                }
            }
            _ => {
                let i = e(src, m.len());
                let x = value(src, f.n);
                cx.log(|| format!("insert({}, {})", i, x));
                v.insert(i, x);
                m.insert(i, x);
                sets += 1;
            }
        }
        check(&*v, &m, || format!("after step {}", n))?;
    }
    if v.to_vec() != m {
        return Err("to_vec() differs from the elements".to_string());
    }
    cx.nontrivial = sets > 0 && m.len() > 1;
    Ok(())
}

/// The calls of a history, and how often each property's histories use them.
#[derive(Copy, Clone, PartialEq, Debug)]
enum C {
    New, Elem, Slice, Push, Set, Swap, Resize, Extend, Trunc, Pop, Insert, Remove, SwapRemove, Append, Split, Copy, Shrink, Reserve, Retain, ForEach, Exchange, Rebuild,
}
use C::*;
const CALLS: [C; 22] = [New, Elem, Slice, Push, Set, Swap, Resize, Extend, Trunc, Pop, Insert, Remove, SwapRemove, Append, Split, Copy, Shrink, Reserve, Retain, ForEach, Exchange, Rebuild];

fn list(src: &mut Src, f: &F, n: usize) -> Vec<u64> {
    let s = src.upto(0xffff);
    let few = src.chance(1, 3);
    let (a, b) = (value(src, f.n), value(src, f.n));
    (0..n)
        .map(|i| {
            let r = mix(s, i as u64);
            match r % 4 {
                _ if few => [a, a, a, b][(r % 4) as usize],
                0 => 0,
                1 => f.n as u64 - 1,
                _ => mix(r, 1) % f.n as u64,
            }
        })
        .collect()
}

/// A history on up to two vectors of one element type, compared with plain lists after each call.
fn history(src: &mut Src, cx: &mut Cx, weights: &[(C, u32)], moved: &[C], mut extra: impl FnMut(&mut Src, &mut Cx, &F, &dyn V, &[u64]) -> Case) -> Case {
    let f = all()[src.below(all().len())];
    let w = width_of(f.n);
    let k = f.block / w;
    cx.label(f.storage);
    cx.log(|| format!("{}, {} values, {} bits, {} per block", f.storage, f.n, w, k));
    let mut ws = [0u32; CALLS.len()];
    for &(c, n) in weights {
        ws[CALLS.iter().position(|&x| x == c).unwrap()] = n;
    }
    let mut v = (f.new)();
    let mut m: Vec<u64> = vec![];
    let mut u = (f.new)();
    let mut o: Vec<u64> = vec![];
    dict::units(k, w);
    let cap = (5 * k + 4).clamp(24, 330).max(src.extra_cap());
    let e = |src: &mut Src, max: usize| src.edgy(max, &[0, max, k - 1, k, k + 1, 2 * k, max / 2, max / k * k]);
    let (mut n, mut counted) = (0, 0);
    while n < 40 && src.more(8) {
        let room = cap.saturating_sub(m.len());
        let call = CALLS[src.weighted(&ws)];
        n += 1;
        let before = m.len();
        cx.log(|| format!("{:?}", call));
        match call {
            New => {
                v = (f.new)();
                m = vec![];
            }
            Elem => {
                let (x, n) = (value(src, f.n), e(src, cap));
                cx.log(|| format!("from_elem({}, {})", x, n));
                v = (f.elem)(x, n);
                m = vec![x; n];
            }
            Slice => {
                let n = e(src, cap);
                m = list(src, &f, n);
                cx.log(|| format!("from_slice({:?})", &m[..n.min(20)]));
                v = (f.slice)(&m);
            }
            Push => {
                for _ in 0..src.range(1, 3) {
                    let x = value(src, f.n);
                    cx.log(|| format!("push({})", x));
                    v.push(x);
                    m.push(x);
                }
            }
            Set if before > 0 => {
                let (i, x) = (e(src, before - 1), value(src, f.n));
                cx.log(|| format!("set({}, {})", i, x));
                v.set(i, x);
                m[i] = x;
            }
            Swap if before > 0 => {
                let (i, j) = (e(src, before - 1), e(src, before - 1));
                cx.log(|| format!("swap({}, {})", i, j));
                v.swap(i, j);
                m.swap(i, j);
            }
            Resize => {
                let (by, x) = (e(src, room), value(src, f.n));
                cx.log(|| format!("resize({}, {})", before + by, x));
                v.resize(before + by, x);
                m.resize(before + by, x);
            }
            Extend => {
                let by = e(src, room);
                let xs = list(src, &f, by);
                cx.log(|| format!("extend({:?})", &xs[..by.min(20)]));
                v.extend(&xs);
                m.extend(xs);
            }
            Trunc => {
                let t = e(src, before);
                cx.log(|| format!("truncate({})", t));
                v.truncate(t);
                m.truncate(t);
            }
            Pop => {
                let (a, b) = (v.pop(), m.pop());
                if a != b {
                    return Err(format!("pop() gives {:?} instead of {:?}", a, b));
                }
            }
            Insert => {
                let (i, x) = (e(src, before), value(src, f.n));
                cx.log(|| format!("insert({}, {}) of {}", i, x, before));
                v.insert(i, x);
                m.insert(i, x);
            }
            Remove | SwapRemove if before > 0 => {
                let i = e(src, before - 1);
                cx.log(|| format!("{:?}({}) of {}", call, i, before));
                let (a, b) = if call == Remove { (v.remove(i), m.remove(i)) } else { (v.swap_remove(i), m.swap_remove(i)) };
                if a != b {
                    return Err(format!("{:?}({}) of {} elements gives {} instead of {}", call, i, before, a, b));
                }
            }
            Append => {
                if before + o.len() > 2 * cap {
                    continue;
                }
                cx.log(|| format!("{} elements append {}", before, o.len()));
                v.append(&mut *u);
                m.append(&mut o);
            }
            Split => {
                let at = e(src, before);
                cx.log(|| format!("split_off({}) of {}", at, before));
                u = v.split_off(at);
                o = m.split_off(at);
            }
            Copy => {
                u = v.copy();
                o = m.clone();
            }
            Shrink => {
                v.shrink();
                if v.blocks() != m.len().div_ceil(k) {
                    return Err(format!("{} elements, {} to a block of {} bits, take {} blocks after shrink_to_fit()", m.len(), k, f.block, v.blocks()));
                }
            }
            Reserve => {
                let by = e(src, room);
                cx.log(|| format!("reserve({})", by));
                v.reserve(by);
                if v.capacity() < before + by {
                    return Err(format!("capacity {} after reserve({}) with {} elements", v.capacity(), by, before));
                }
            }
            Retain => {
                let s = src.upto(0xffff);
                let keep = |i: usize, x: u64| mix(s, x.wrapping_add(i as u64 % 3)) % 3 != 0;
                let mut i = 0;
                v.retain(&mut |x| {
                    i += 1;
                    keep(i, x)
                });
                let mut i = 0;
                m.retain(|&x| {
                    i += 1;
                    keep(i, x)
                });
            }
            ForEach => {
                let s = src.upto(0xffff);
                let to = |x: u64| if mix(s, x) % 2 == 0 { mix(s, x ^ 77) % f.n as u64 } else { x };
                v.for_each(&mut |x| to(x));
                m.iter_mut().for_each(|x| *x = to(*x));
            }
            Exchange => {
                std::mem::swap(&mut v, &mut u);
                std::mem::swap(&mut m, &mut o);
            }
            Rebuild => {
                // the same elements by another way
                let mut t = (f.new)();
                let extra = list(src, &f, 3);
                t.extend(&extra);
                t.extend(&m);
                for _ in 0..3 {
                    t.remove(0);
                }
                v = t;
            }
            _ => continue,
        }
        counted += (moved.contains(&call) && (before > 0 || !m.is_empty())) as usize;
        check(&*v, &m, || format!("after step {} ({:?})", n, call))?;
        check(&*u, &o, || format!("the other vector, after step {} ({:?})", n, call))?;
        extra(src, cx, &f, &*v, &m)?;
    }
    if v.to_vec() != m {
        return Err("to_vec() differs from the elements".to_string());
    }
    let mut b = v.backward();
    b.reverse();
    if b != m {
        return Err("iter().rev() differs from the elements".to_string());
    }
    cx.nontrivial = counted > 0;
    Ok(())
}

const GROW: &[(C, u32)] = &[(Elem, 2), (Slice, 2), (Push, 4), (Extend, 3), (Resize, 2), (Trunc, 2), (Set, 3)];
fn with(more: &[(C, u32)]) -> Vec<(C, u32)> {
    let mut w = GROW.to_vec();
    w.retain(|(c, _)| !more.iter().any(|(d, _)| d == c));
    w.extend_from_slice(more);
    w
}
fn none(_: &mut Src, _: &mut Cx, _: &F, _: &dyn V, _: &[u64]) -> Case {
    Ok(())
}

fn p01(src: &mut Src, cx: &mut Cx) -> Case {
    let w: Vec<(C, u32)> = CALLS.iter().map(|&c| (c, if matches!(c, New | Elem | Slice | Rebuild) { 1 } else { 2 })).collect();
    history(src, cx, &w, &CALLS, none)
}
fn p02(src: &mut Src, cx: &mut Cx) -> Case {
    history(src, cx, &with(&[(Insert, 12), (Remove, 12), (Pop, 1), (Set, 1)]), &[Insert, Remove], none)
}
fn p03(src: &mut Src, cx: &mut Cx) -> Case {
    history(src, cx, &with(&[(Elem, 6), (Slice, 6), (Resize, 8), (Extend, 6), (Insert, 1), (Shrink, 1)]), &[Elem, Slice, Resize, Extend], none)
}
fn p04(src: &mut Src, cx: &mut Cx) -> Case {
    history(src, cx, &with(&[(Append, 10), (Split, 10), (Exchange, 4), (Copy, 1), (Insert, 1), (Reserve, 2), (Shrink, 1)]), &[Append, Split], none)
}
fn p05(src: &mut Src, cx: &mut Cx) -> Case {
    history(src, cx, &with(&[(Insert, 4), (Remove, 4), (Resize, 4), (Elem, 6)]), &[Elem, Slice, Push, Extend, Resize, Set, Insert, Remove], |src, _, f, v, m| {
        let mut xs = vec![0, f.n as u64 - 1, value(src, f.n)];
        if !m.is_empty() {
            xs.push(m[src.below(m.len())]);
            xs.push(m[0]);
            xs.push(m[m.len() - 1] ^ 1);
        }
        for x in xs {
            if x >= f.n as u64 {
                continue;
            }
            if v.any(x) != m.contains(&x) {
                return Err(format!("any({}) is {} for {} elements: {:?}", x, v.any(x), m.len(), &m[..m.len().min(20)]));
            }
            if v.all(x) != m.iter().all(|&y| y == x) {
                return Err(format!("all({}) is {} for {} elements: {:?}", x, v.all(x), m.len(), &m[..m.len().min(20)]));
            }
        }
        Ok(())
    })
}
fn p06(src: &mut Src, cx: &mut Cx) -> Case {
    history(src, cx, &with(&[(Insert, 4), (Remove, 4), (Rebuild, 3), (Resize, 2), (Reserve, 1)]), &CALLS, |src, _, f, v, m| {
        let other = (f.slice)(m);
        let h = |v: &dyn V| {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            v.hash(&mut h);
            h.finish()
        };
        if !v.same(&*other) || !other.same(v) {
            return Err(format!("{} elements differ from the same elements collected afresh", m.len()));
        }
        if h(v) != h(&*other) {
            return Err(format!("{} elements hash differently from the same elements collected afresh", m.len()));
        }
        if !m.is_empty() {
            let mut o = m.to_vec();
            let i = src.edgy(m.len() - 1, &[0, m.len() - 1]);
            o[i] = value(src, f.n);
            if v.same(&*(f.slice)(&o)) != (o == m) {
                return Err(format!("== does not tell {} from {} at position {} of {}", m[i], o[i], i, m.len()));
            }
        }
        Ok(())
    })
}
fn p08(src: &mut Src, cx: &mut Cx) -> Case {
    history(src, cx, &with(&[(Shrink, 6), (Insert, 1), (Append, 1), (Copy, 1), (Reserve, 2), (Retain, 1)]), &[Shrink], none)
}

fn main() {
    vt::engine::main(&[("P14", p14), ("P01", p01), ("P02", p02), ("P03", p03), ("P04", p04), ("P05", p05), ("P06", p06), ("P08", p08)]);
}
