//! A type-erased view of `EnumVec<E<N>>` for the six storages; elements are their encodings.
use std::any::Any;
use std::hash::Hasher;

pub trait DynIter {
    fn next(&mut self) -> Option<u64>;
    fn next_back(&mut self) -> Option<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn nth_back(&mut self, n: usize) -> Option<u64>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u64>;
    /// the rest through a plain loop, at most `limit` items
    fn rest(self: Box<Self>, limit: usize) -> Vec<u64>;
    fn rest_rev(self: Box<Self>, limit: usize) -> Vec<u64>;
    fn collect(self: Box<Self>) -> Vec<u64>;
    fn fold(self: Box<Self>) -> u64;
    fn skip(self: Box<Self>, n: usize, limit: usize) -> Vec<u64>;
    fn step_by(self: Box<Self>, n: usize, limit: usize) -> Vec<u64>;
    fn position(&mut self, x: u64) -> Option<usize>;
    fn rposition(&mut self, x: u64) -> Option<usize>;
    fn eq(self: Box<Self>, o: &[u64]) -> bool;
    fn min_max(self: Box<Self>) -> (usize, Option<u64>);
}

pub fn fold_step(a: u64, x: u64) -> u64 {
    a.rotate_left(5).wrapping_mul(0x9E3779B97F4A7C15) ^ x
}

pub struct It<I, F>(pub I, pub F);
impl<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator, F: Fn(T) -> u64> DynIter for It<I, F> {
    fn next(&mut self) -> Option<u64> {
        self.0.next().map(&self.1)
    }
    fn next_back(&mut self) -> Option<u64> {
        self.0.next_back().map(&self.1)
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        self.0.nth(n).map(&self.1)
    }
    fn nth_back(&mut self, n: usize) -> Option<u64> {
        self.0.nth_back(n).map(&self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<u64> {
        let It(i, f) = *self;
        i.last().map(f)
    }
    fn rest(self: Box<Self>, limit: usize) -> Vec<u64> {
        let It(i, f) = *self;
        let mut v = vec![];
        for x in i {
            v.push(f(x));
            if v.len() > limit {
                break;
            }
        }
        v
    }
    fn rest_rev(self: Box<Self>, limit: usize) -> Vec<u64> {
        let It(i, f) = *self;
        let mut v = vec![];
        for x in i.rev() {
            v.push(f(x));
            if v.len() > limit {
                break;
            }
        }
        v
    }
    fn collect(self: Box<Self>) -> Vec<u64> {
        let It(i, f) = *self;
        i.map(f).collect()
    }
    fn fold(self: Box<Self>) -> u64 {
        let It(i, f) = *self;
        i.fold(1, |a, x| fold_step(a, f(x)))
    }
    fn skip(self: Box<Self>, n: usize, limit: usize) -> Vec<u64> {
        let It(i, f) = *self;
        i.skip(n).map(f).take(limit).collect()
    }
    fn step_by(self: Box<Self>, n: usize, limit: usize) -> Vec<u64> {
        let It(i, f) = *self;
        i.step_by(n).map(f).take(limit).collect()
    }
    fn position(&mut self, y: u64) -> Option<usize> {
        let f = &self.1;
        self.0.position(|x| f(x) == y)
    }
    fn rposition(&mut self, y: u64) -> Option<usize> {
        let f = &self.1;
        self.0.rposition(|x| f(x) == y)
    }
    fn eq(self: Box<Self>, o: &[u64]) -> bool {
        let It(i, f) = *self;
        i.map(f).eq(o.iter().copied())
    }
    fn min_max(self: Box<Self>) -> (usize, Option<u64>) {
        let It(i, f) = *self;
        let n = i.len();
        (n, i.map(f).max())
    }
}

/// Everything fed to it, so that hashes compare exactly.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

pub trait DynVec {
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn capacity(&self) -> usize;
    fn get(&self, i: usize) -> Option<u64>;
    fn set(&mut self, i: usize, x: u64);
    fn push(&mut self, x: u64);
    fn pop(&mut self) -> Option<u64>;
    fn insert(&mut self, i: usize, x: u64);
    fn remove(&mut self, i: usize) -> u64;
    fn swap(&mut self, i: usize, j: usize);
    fn swap_remove(&mut self, i: usize) -> u64;
    fn truncate(&mut self, n: usize);
    fn clear(&mut self);
    fn resize(&mut self, n: usize, x: u64);
    fn reserve(&mut self, n: usize);
    fn shrink_to_fit(&mut self);
    fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool);
    fn for_each(&mut self, f: &mut dyn FnMut(u64) -> u64);
    fn extend(&mut self, it: &mut dyn Iterator<Item = u64>);
    /// extend from another vector's borrowed iterator
    fn extend_iter(&mut self, o: &dyn DynVec);
    /// extend from another vector by value
    fn extend_own(&mut self, o: Box<dyn DynVec>);
    fn append(&mut self, o: &mut dyn DynVec);
    fn split_off(&mut self, at: usize) -> Box<dyn DynVec>;
    fn clone_box(&self) -> Box<dyn DynVec>;
    fn clone_from_dyn(&mut self, o: &dyn DynVec);
    fn eq_dyn(&self, o: &dyn DynVec) -> bool;
    fn ne_dyn(&self, o: &dyn DynVec) -> bool;
    fn hash_bytes(&self) -> Vec<u8>;
    fn hash_std(&self) -> u64;
    fn debug(&self, alt: bool) -> String;
    fn to_vec(&self) -> Vec<u64>;
    fn into_vec(self: Box<Self>) -> Vec<u64>;
    fn iter<'a>(&'a self) -> Box<dyn DynIter + 'a>;
    fn ref_into_iter<'a>(&'a self) -> Box<dyn DynIter + 'a>;
    fn into_iter(self: Box<Self>) -> Box<dyn DynIter>;
    fn any(&self, x: u64) -> bool;
    fn all(&self, x: u64) -> bool;
    fn storage_len(&self) -> usize;
    fn storage_ptr(&self) -> usize;
    fn storage_cap(&self) -> usize;
    /// A digest of all blocks, those past the end included.
    fn storage_hash(&self) -> u64;
    /// # Safety: as the wrapped method
    unsafe fn get_raw_unchecked(&self, i: usize) -> u64;
    /// # Safety: as the wrapped method
    unsafe fn set_raw_unchecked(&mut self, i: usize, x: u64);
    /// # Safety: as the wrapped method
    unsafe fn set_len(&mut self, n: usize);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Info {
    pub storage: &'static str,
    /// bits per block
    pub block: usize,
    /// number of variants
    pub n: usize,
    /// bits per element
    pub width: usize,
    /// elements per block
    pub k: usize,
}

pub trait Factory: Sync + Send {
    fn info(&self) -> Info;
    fn new(&self) -> Box<dyn DynVec>;
    fn default(&self) -> Box<dyn DynVec>;
    fn with_capacity(&self, n: usize) -> Box<dyn DynVec>;
    fn from_elem(&self, x: u64, n: usize) -> Box<dyn DynVec>;
    fn from_slice(&self, x: &[u64]) -> Box<dyn DynVec>;
    fn from_vec(&self, x: &[u64]) -> Box<dyn DynVec>;
    fn from_iter(&self, x: &mut dyn Iterator<Item = u64>) -> Box<dyn DynVec>;
    fn macro_elem(&self, x: u64, n: usize) -> Box<dyn DynVec>;
    /// only for up to 4 items
    fn macro_list(&self, x: &[u64]) -> Box<dyn DynVec>;
    fn model_debug(&self, x: &[u64], alt: bool) -> String;
}

/// bits for n variants: ceil(log2(n))
pub fn width_of(n: usize) -> usize {
    (usize::BITS - (n - 1).leading_zeros()) as usize
}

#[macro_export]
macro_rules! storage_mod {
    ($m:ident, $p:ident, $name:expr, $bits:expr) => {
        pub mod $m {
            use enum_vec::enum_vec;
            use enum_vec::$p::EnumVec;
            use std::any::Any;
            use std::hash::{Hash, Hasher};
            use $crate::dynvec::*;
            use $crate::elem::E;
            pub struct W<const N: usize>(pub EnumVec<E<N>>);
            fn v<const N: usize>(x: u64) -> E<N> {
                E(x as usize)
            }
            fn u<const N: usize>(x: E<N>) -> u64 {
                x.0 as u64
            }
            fn down<const N: usize>(o: &dyn DynVec) -> &EnumVec<E<N>> {
                &o.as_any().downcast_ref::<W<N>>().expect("same type").0
            }
            impl<const N: usize> DynVec for W<N> {
                fn as_any(&self) -> &dyn Any {
                    self
                }
                fn as_any_mut(&mut self) -> &mut dyn Any {
                    self
                }
                fn into_any(self: Box<Self>) -> Box<dyn Any> {
                    self
                }
                fn len(&self) -> usize {
                    self.0.len()
                }
                fn is_empty(&self) -> bool {
                    self.0.is_empty()
                }
                fn capacity(&self) -> usize {
                    self.0.capacity()
                }
                fn get(&self, i: usize) -> Option<u64> {
                    self.0.get(i).map(u)
                }
                fn set(&mut self, i: usize, x: u64) {
                    self.0.set(i, v(x))
                }
                fn push(&mut self, x: u64) {
                    self.0.push(v(x))
                }
                fn pop(&mut self) -> Option<u64> {
                    self.0.pop().map(u)
                }
                fn insert(&mut self, i: usize, x: u64) {
                    self.0.insert(i, v(x))
                }
                fn remove(&mut self, i: usize) -> u64 {
                    u(self.0.remove(i))
                }
                fn swap(&mut self, i: usize, j: usize) {
                    self.0.swap(i, j)
                }
                fn swap_remove(&mut self, i: usize) -> u64 {
                    u(self.0.swap_remove(i))
                }
                fn truncate(&mut self, n: usize) {
                    self.0.truncate(n)
                }
                fn clear(&mut self) {
                    self.0.clear()
                }
                fn resize(&mut self, n: usize, x: u64) {
                    self.0.resize(n, v(x))
                }
                fn reserve(&mut self, n: usize) {
                    self.0.reserve(n)
                }
                fn shrink_to_fit(&mut self) {
                    self.0.shrink_to_fit()
                }
                fn retain(&mut self, f: &mut dyn FnMut(u64) -> bool) {
                    self.0.retain(|x| f(u(*x)))
                }
                fn for_each(&mut self, f: &mut dyn FnMut(u64) -> u64) {
                    self.0.for_each(|x| {
                        let y = f(u(*x));
                        *x = v(y)
                    })
                }
                fn extend(&mut self, it: &mut dyn Iterator<Item = u64>) {
                    self.0.extend(it.map(v))
                }
                fn extend_iter(&mut self, o: &dyn DynVec) {
                    self.0.extend(down::<N>(o).iter())
                }
                fn extend_own(&mut self, o: Box<dyn DynVec>) {
                    let o = o.into_any().downcast::<W<N>>().expect("same type");
                    self.0.extend(o.0)
                }
                fn append(&mut self, o: &mut dyn DynVec) {
                    let o = o.as_any_mut().downcast_mut::<W<N>>().expect("same type");
                    self.0.append(&mut o.0)
                }
                fn split_off(&mut self, at: usize) -> Box<dyn DynVec> {
                    Box::new(W(self.0.split_off(at)))
                }
                fn clone_box(&self) -> Box<dyn DynVec> {
                    Box::new(W(self.0.clone()))
                }
                fn clone_from_dyn(&mut self, o: &dyn DynVec) {
                    self.0.clone_from(down::<N>(o))
                }
                fn eq_dyn(&self, o: &dyn DynVec) -> bool {
                    &self.0 == down::<N>(o)
                }
                #[allow(clippy::partialeq_ne_impl)]
                fn ne_dyn(&self, o: &dyn DynVec) -> bool {
                    &self.0 != down::<N>(o)
                }
                fn hash_bytes(&self) -> Vec<u8> {
                    let mut h = Rec::default();
                    self.0.hash(&mut h);
                    h.0
                }
                fn hash_std(&self) -> u64 {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    self.0.hash(&mut h);
                    h.finish()
                }
                fn debug(&self, alt: bool) -> String {
                    if alt {
                        format!("{:#?}", self.0)
                    } else {
                        format!("{:?}", self.0)
                    }
                }
                fn to_vec(&self) -> Vec<u64> {
                    self.0.to_vec().into_iter().map(u).collect()
                }
                fn into_vec(self: Box<Self>) -> Vec<u64> {
                    let x: Vec<E<N>> = self.0.into();
                    x.into_iter().map(u).collect()
                }
                fn iter<'a>(&'a self) -> Box<dyn DynIter + 'a> {
                    Box::new(It(self.0.iter(), u))
                }
                fn ref_into_iter<'a>(&'a self) -> Box<dyn DynIter + 'a> {
                    Box::new(It((&self.0).into_iter(), u))
                }
                fn into_iter(self: Box<Self>) -> Box<dyn DynIter> {
                    Box::new(It(self.0.into_iter(), u))
                }
                fn any(&self, x: u64) -> bool {
                    self.0.any(v(x))
                }
                fn all(&self, x: u64) -> bool {
                    self.0.all(v(x))
                }
                fn storage_len(&self) -> usize {
                    self.0.storage().len()
                }
                fn storage_ptr(&self) -> usize {
                    self.0.storage().as_ptr() as usize
                }
                fn storage_cap(&self) -> usize {
                    self.0.storage().capacity()
                }
                fn storage_hash(&self) -> u64 {
                    self.0.storage().iter().fold(7u64, |h, &b| {
                        let b = b as u128;
                        (h ^ b as u64 ^ ((b >> 64) as u64).rotate_left(17)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
                    })
                }
                unsafe fn get_raw_unchecked(&self, i: usize) -> u64 {
                    self.0.get_raw_unchecked(i) as u64
                }
                unsafe fn set_raw_unchecked(&mut self, i: usize, x: u64) {
                    self.0.set_raw_unchecked(i, x as usize)
                }
                unsafe fn set_len(&mut self, n: usize) {
                    self.0.set_len(n)
                }
            }
            pub struct F<const N: usize>;
            impl<const N: usize> Factory for F<N> {
                fn info(&self) -> Info {
                    let width = width_of(N);
                    Info { storage: $name, block: $bits, n: N, width, k: $bits / width }
                }
                fn new(&self) -> Box<dyn DynVec> {
                    Box::new(W::<N>(EnumVec::new()))
                }
                fn default(&self) -> Box<dyn DynVec> {
                    Box::new(W::<N>(Default::default()))
                }
                fn with_capacity(&self, n: usize) -> Box<dyn DynVec> {
                    Box::new(W::<N>(EnumVec::with_capacity(n)))
                }
                fn from_elem(&self, x: u64, n: usize) -> Box<dyn DynVec> {
                    Box::new(W::<N>(EnumVec::from_elem(v(x), n)))
                }
                fn from_slice(&self, x: &[u64]) -> Box<dyn DynVec> {
                    let t: Vec<E<N>> = x.iter().map(|&x| v(x)).collect();
                    Box::new(W::<N>(EnumVec::from_slice(&t)))
                }
                fn from_vec(&self, x: &[u64]) -> Box<dyn DynVec> {
                    let t: Vec<E<N>> = x.iter().map(|&x| v(x)).collect();
                    Box::new(W::<N>(t.into()))
                }
                fn from_iter(&self, x: &mut dyn Iterator<Item = u64>) -> Box<dyn DynVec> {
                    Box::new(W::<N>(x.map(v).collect()))
                }
                fn macro_elem(&self, x: u64, n: usize) -> Box<dyn DynVec> {
                    let (mut e, mut c) = (0, 0);
                    let r: EnumVec<E<N>> = enum_vec![{ e += 1; v(x) }; { c += 1; n }];
                    assert!((e, c) == (1, 1), "enum_vec![x; n] evaluated x {} times and n {} times", e, c);
                    Box::new(W(r))
                }
                fn macro_list(&self, x: &[u64]) -> Box<dyn DynVec> {
                    let mut k = 0;
                    let mut y = |i: usize| {
                        assert!(i == k, "enum_vec! evaluated expression {} when it was the turn of {}", i, k);
                        k += 1;
                        v(x[i])
                    };
                    let r: EnumVec<E<N>> = match x.len() {
                        0 => enum_vec![],
                        1 => enum_vec![y(0)],
                        2 => enum_vec![y(0), y(1),],
                        3 => enum_vec![y(0), y(1), y(2)],
                        _ => enum_vec![y(0), y(1), y(2), y(3)],
                    };
                    assert!(k == x.len(), "enum_vec! evaluated {} of {} expressions", k, x.len());
                    Box::new(W(r))
                }
                fn model_debug(&self, x: &[u64], alt: bool) -> String {
                    let t: Vec<E<N>> = x.iter().map(|&x| v(x)).collect();
                    if alt {
                        format!("{:#?}", t)
                    } else {
                        format!("{:?}", t)
                    }
                }
            }
        }
    };
}

storage_mod!(s8, vec_u8, "vec_u8", 8);
storage_mod!(s16, vec_u16, "vec_u16", 16);
storage_mod!(s32, vec_u32, "vec_u32", 32);
storage_mod!(s64, vec_u64, "vec_u64", 64);
storage_mod!(s128, vec_u128, "vec_u128", 128);
storage_mod!(sm32, smallvec_u32, "smallvec_u32", 32);

macro_rules! fs {
    ($v:ident, $m:ident: $($n:expr),*) => { $( $v.push(Box::new($m::F::<{ $n }>)); )* };
}

/// The (storage, element type) pairs of the quick tier (a subset that keeps the build short and
/// still has every shape: widths that divide the block, leave wasted bits, leave one element per
/// block with and without waste, fill the block; counts at, just above and below powers of two)
/// or, with the feature `many`, a much larger selection.
pub fn registry() -> Vec<Box<dyn Factory>> {
    let mut r: Vec<Box<dyn Factory>> = vec![];
    fs!(r, s8: 2, 3, 5, 10, 17, 33, 100, 256);
    fs!(r, s16: 2, 3, 5, 10, 33, 256, 300, 40000, 65536);
    fs!(r, s32: 2, 3, 4, 5, 10, 17, 33, 100, 256, 300, 2049, 65536, 65537, (1<<31));
    fs!(r, sm32: 2, 3, 5, 10, 33, 256, 300, 65536);
    fs!(r, s64: 2, 3, 5, 10, 33, 256, 300, 65536, 100000000);
    fs!(r, s128: 2, 3, 5, 10, 33, 256, 300, 65536, 100000000);
    // 32 bits: as many values as there can be
    #[cfg(target_pointer_width = "32")]
    {
        fs!(r, s32: usize::MAX);
        fs!(r, sm32: usize::MAX);
        fs!(r, s64: usize::MAX);
        fs!(r, s128: usize::MAX);
    }
    #[cfg(target_pointer_width = "64")]
    {
        fs!(r, s32: (1<<32));
        fs!(r, sm32: (1<<32));
        fs!(r, s64: (1<<32));
        fs!(r, s128: (1<<32));
    }
    #[cfg(all(feature = "wide", target_pointer_width = "64"))]
    {
        fs!(r, s64: (1<<32)+1, (1<<63), usize::MAX);
        fs!(r, s128: (1<<32)+1, (1<<42), usize::MAX);
    }
    #[cfg(feature = "many")]
    {
        macro_rules! upto8 { ($($m:ident)*) => { $( fs!(r, $m: 4, 8, 9, 16, 17, 32, 64, 65, 100, 128, 129, 200); )* } }
        macro_rules! upto16 { ($($m:ident)*) => { $( fs!(r, $m: 1000, 2048, 2049, 8192, 9000, 32768, 40000); )* } }
        macro_rules! upto32 { ($($m:ident)*) => { $( fs!(r, $m: 65537, (1<<20)+1, 1<<22, 1<<31, (1<<31)+1); )* } }
        macro_rules! upto64 { ($($m:ident)*) => { $( fs!(r, $m: 1<<42, (1<<42)+1, (1<<63)-1, 1<<63); )* } }
        upto8!(s8 s16 s32 s64 s128 sm32);
        upto16!(s16 s32 s64 s128 sm32);
        upto32!(s32 s64 s128 sm32);
        #[cfg(all(feature = "wide", target_pointer_width = "64"))]
        upto64!(s64 s128);
    }
    r
}
