//! The part every generated program shares: an independent description of a type's values
//! (`Spec`), hand-written leaf types, and the checks.

/// What generated definitions see.
pub mod base {
    pub use enum_like::EnumLike;

    /// The values of a type, numbered by its structure alone (not in the crate's order).
    pub trait Spec: EnumLike {
        fn count() -> u128;
        /// Value number i.
        fn nth(i: u128) -> Self;
        /// The number of a value.
        fn index(&self) -> u128;
    }
    impl Spec for () {
        fn count() -> u128 {
            1
        }
        fn nth(_: u128) -> Self {}
        fn index(&self) -> u128 {
            0
        }
    }
    impl Spec for bool {
        fn count() -> u128 {
            2
        }
        fn nth(i: u128) -> Self {
            i == 0
        }
        fn index(&self) -> u128 {
            if *self { 0 } else { 1 }
        }
    }
    impl<T: Spec> Spec for Option<T> {
        fn count() -> u128 {
            T::count() + 1
        }
        fn nth(i: u128) -> Self {
            if i == 0 { None } else { Some(T::nth(i - 1)) }
        }
        fn index(&self) -> u128 {
            match self {
                None => 0,
                Some(x) => 1 + x.index(),
            }
        }
    }
    impl<T: Spec, S: Spec> Spec for Result<T, S> {
        fn count() -> u128 {
            T::count() + S::count()
        }
        fn nth(i: u128) -> Self {
            if i < S::count() { Err(S::nth(i)) } else { Ok(T::nth(i - S::count())) }
        }
        fn index(&self) -> u128 {
            match self {
                Err(x) => x.index(),
                Ok(x) => S::count() + x.index(),
            }
        }
    }
    impl<T: Spec, const N: usize> Spec for [T; N]
    where
        [T; N]: EnumLike,
    {
        fn count() -> u128 {
            (0..N).fold(1, |c, _| c * T::count())
        }
        fn nth(mut i: u128) -> Self {
            std::array::from_fn(|_| take::<T>(&mut i))
        }
        fn index(&self) -> u128 {
            let mut ix = Mix::new();
            for x in self {
                ix.add(x);
            }
            ix.sum
        }
    }
    /// Takes the next digit of a mixed-radix number.
    pub fn take<T: Spec>(i: &mut u128) -> T {
        let c = T::count();
        let r = *i % c;
        *i /= c;
        T::nth(r)
    }
    /// The inverse of repeated `take`.
    pub struct Mix {
        pub sum: u128,
        unit: u128,
    }
    impl Mix {
        pub fn new() -> Self {
            Mix { sum: 0, unit: 1 }
        }
        pub fn add<T: Spec>(&mut self, x: &T) {
            self.sum += self.unit * x.index();
            self.unit *= T::count();
        }
    }
    macro_rules! tuples {
        () => {};
        ($h:ident $($t:ident)*) => {
            impl<$h: Spec, $($t: Spec),*> Spec for ($h, $($t,)*) where ($h, $($t,)*): EnumLike {
                fn count() -> u128 {
                    $h::count() $(* $t::count())*
                }
                fn nth(mut i: u128) -> Self {
                    (take::<$h>(&mut i), $(take::<$t>(&mut i),)*)
                }
                fn index(&self) -> u128 {
                    let ($h, $($t,)*) = self;
                    let mut ix = Mix::new();
                    ix.add($h);
                    $(ix.add($t);)*
                    ix.sum
                }
            }
            tuples!($($t)*);
        };
    }
    tuples!(A B C D F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1);

    /// A hand-written leaf with N values that refuses every number but its own and whose
    /// all-zero bit pattern is invalid; value i encodes to N - 1 - i.
    #[derive(Copy, Clone)]
    pub struct Leaf<const N: usize>(std::num::NonZeroU64);
    impl<const N: usize> Spec for Leaf<N> {
        fn count() -> u128 {
            N as u128
        }
        fn nth(i: u128) -> Self {
            assert!(i < N as u128);
            Leaf(std::num::NonZeroU64::new(N as u64 - i as u64).unwrap())
        }
        fn index(&self) -> u128 {
            N as u128 - self.0.get() as u128
        }
    }
    unsafe impl<const N: usize> EnumLike for Leaf<N> {
        const NUM_VARIANTS: usize = N;
        fn to_discr(self) -> usize {
            self.0.get() as usize - 1
        }
        fn from_discr(x: usize) -> Self {
            assert!(x < N, "a leaf of {} values was asked to decode {}", N, x);
            Leaf(std::num::NonZeroU64::new(x as u64 + 1).unwrap())
        }
    }
    /// A one-byte leaf with only 3 valid bit patterns.
    #[derive(Copy, Clone)]
    #[repr(u8)]
    pub enum Hole {
        P = 65,
        Q = 90,
        R = 255,
    }
    impl Spec for Hole {
        fn count() -> u128 {
            3
        }
        fn nth(i: u128) -> Self {
            [Hole::P, Hole::Q, Hole::R][i as usize]
        }
        fn index(&self) -> u128 {
            match self {
                Hole::P => 0,
                Hole::Q => 1,
                Hole::R => 2,
            }
        }
    }
    unsafe impl EnumLike for Hole {
        const NUM_VARIANTS: usize = 3;
        fn to_discr(self) -> usize {
            match self {
                Hole::Q => 0,
                Hole::R => 1,
                Hole::P => 2,
            }
        }
        fn from_discr(x: usize) -> Self {
            match x {
                0 => Hole::Q,
                1 => Hole::R,
                2 => Hole::P,
                _ => panic!("a leaf of 3 values was asked to decode {}", x),
            }
        }
    }
    /// No values at all.
    #[derive(Copy, Clone)]
    pub enum Never {}
    impl Spec for Never {
        fn count() -> u128 {
            0
        }
        fn nth(_: u128) -> Self {
            panic!("harness: Never has no values")
        }
        fn index(&self) -> u128 {
            match *self {}
        }
    }
    unsafe impl EnumLike for Never {
        const NUM_VARIANTS: usize = 0;
        fn to_discr(self) -> usize {
            match self {}
        }
        fn from_discr(x: usize) -> Self {
            panic!("a type without values was asked to decode {}", x)
        }
    }
    /// `<T as Same>::Out` is T written the hard way.
    pub trait Same {
        type Out;
    }
    impl<T> Same for T {
        type Out = T;
    }
    /// A type that belongs to another: one value more.
    pub trait Assoc: EnumLike {
        type O: Spec;
    }
    impl<T: Spec> Assoc for T {
        type O = Option<T>;
    }
    /// Two values and a lifetime.
    #[derive(Copy, Clone)]
    pub struct Tag<'a>(bool, std::marker::PhantomData<&'a ()>);
    impl<'a> Spec for Tag<'a> {
        fn count() -> u128 {
            2
        }
        fn nth(i: u128) -> Self {
            Tag(i == 1, std::marker::PhantomData)
        }
        fn index(&self) -> u128 {
            self.0 as u128
        }
    }
    unsafe impl<'a> EnumLike for Tag<'a> {
        const NUM_VARIANTS: usize = 2;
        fn to_discr(self) -> usize {
            !self.0 as usize
        }
        fn from_discr(x: usize) -> Self {
            assert!(x < 2, "a leaf of 2 values was asked to decode {}", x);
            Tag(x == 0, std::marker::PhantomData)
        }
    }
    pub const N32: usize = 32;
    pub const fn ident(x: usize) -> usize {
        x
    }
    macro_rules! the_type {
        ($t:ty) => {
            $t
        };
    }
    pub(crate) use the_type;
}

/// The checks.
pub mod check {
    use crate::base::{EnumLike, Spec};
    use std::collections::BTreeMap;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    pub type R = Result<(), String>;

    pub struct Rng(u64);
    impl Rng {
        pub fn new(s: u64) -> Self {
            Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
        }
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u128) -> u128 {
            if n == 0 {
                return 0;
            }
            (((self.next() as u128) << 64) | self.next() as u128) % n
        }
    }

    /// Numbers of values to look at: all of them, or the edges and a sample.
    pub fn sample(n: u128, rng: &mut Rng) -> Vec<u128> {
        if n <= 1500 {
            return (0..n).collect();
        }
        let mut v = vec![0, 1, 2, n - 1, n - 2, n / 2];
        for b in 1..64 {
            for d in [0u128, 1, 2] {
                let x = (1u128 << b) + d;
                if x > 0 && x - 1 < n {
                    v.push(x - 1);
                }
            }
        }
        for _ in 0..300 {
            v.push(rng.below(n));
        }
        v
    }

    /// A bijection onto 0..number of values, and its inverse.
    pub fn bijection<T: Spec>(name: &str, want: u128, seed: u64) -> R {
        if T::count() != want {
            return Err(format!("harness: {} should have {} values, its Spec says {}", name, want, T::count()));
        }
        if T::NUM_VARIANTS as u128 != want {
            return Err(format!("{} has {} values but NUM_VARIANTS is {}", name, want, T::NUM_VARIANTS));
        }
        let mut rng = Rng::new(seed);
        let mut seen: BTreeMap<usize, u128> = BTreeMap::new();
        for i in sample(want, &mut rng) {
            let v = T::nth(i);
            if v.index() != i {
                return Err(format!("harness: {} value {} has index {}", name, i, v.index()));
            }
            let d = v.to_discr();
            if d as u128 >= want {
                return Err(format!("{} value {} encodes to {}, not below {}", name, i, d, want));
            }
            if let Some(j) = seen.insert(d, i) {
                if i != j {
                    return Err(format!("{} values {} and {} both encode to {}", name, j, i, d));
                }
            }
            let w = T::from_discr(d);
            if w.index() != i {
                return Err(format!("{} value {} encodes to {} which decodes to value {}", name, i, d, w.index()));
            }
        }
        for x in sample(want, &mut rng) {
            let x = x as usize;
            let v = T::from_discr(x);
            let d = v.to_discr();
            if d != x {
                return Err(format!("{} number {} decodes to value {} which encodes to {}", name, x, v.index(), d));
            }
        }
        Ok(())
    }

    /// Unit-only enum: 0, 1, 2... in declaration order; anything else is refused.
    pub fn in_order<T: EnumLike>(name: &str, vs: &[T], id: fn(&T) -> usize, extra: &[usize]) -> R {
        let n = vs.len();
        if T::NUM_VARIANTS != n {
            return Err(format!("{} has {} variants but NUM_VARIANTS is {}", name, n, T::NUM_VARIANTS));
        }
        for (i, v) in vs.iter().enumerate() {
            let d = v.to_discr();
            if d != i {
                return Err(format!("{} variant {} encodes to {}", name, i, d));
            }
            let b = id(&T::from_discr(i));
            if b != i {
                return Err(format!("{} number {} decodes to variant {}", name, i, b));
            }
        }
        for &x in extra {
            if x >= n {
                if let Ok(v) = catch_unwind(AssertUnwindSafe(|| T::from_discr(std::hint::black_box(x)))) {
                    return Err(format!("{} has {} variants, decoding {} should panic but gives a value", name, n, x));
                }
            }
        }
        Ok(())
    }

    pub fn list<T: Spec>(v: &[u128]) -> Vec<T> {
        v.iter().map(|&i| T::nth(i)).collect()
    }
    pub fn ids<T: Spec>(v: impl IntoIterator<Item = T>) -> Vec<u128> {
        v.into_iter().map(|x| x.index()).collect()
    }
    /// A short list of value numbers, with repetitions.
    pub fn some_ids(n: u128, rng: &mut Rng) -> Vec<u128> {
        let pool: Vec<u128> = (0..1 + rng.below(6))
            .map(|_| match rng.below(4) {
                0 => 0,
                1 => n - 1,
                _ => rng.below(n),
            })
            .collect();
        let l = match rng.below(3) {
            0 => rng.below(4),
            1 => rng.below(20),
            _ => rng.below(150),
        };
        (0..l).map(|_| if rng.below(3) == 0 { rng.below(n) } else { pool[rng.below(pool.len() as u128) as usize] }).collect()
    }

    macro_rules! vec_check {
        ($name:ident, $m:ident) => {
            /// A packed vector of T against a plain vector of value numbers.
            pub fn $name<T: Spec>(name: &str, seed: u64) -> R {
                use enum_vec::$m::EnumVec;
                let mut rng = Rng::new(seed);
                let n = T::count();
                for round in 0..4 {
                    let mut m = some_ids(n, &mut rng);
                    let mut v: EnumVec<T> = match rng.below(4) {
                        0 => list::<T>(&m).into(),
                        1 => m.iter().map(|&i| T::nth(i)).collect(),
                        2 => EnumVec::from_slice(&list::<T>(&m)),
                        _ => {
                            let mut v = EnumVec::new();
                            for &i in &m {
                                v.push(T::nth(i));
                            }
                            v
                        }
                    };
                    let bad = |what: &str, v: &EnumVec<T>, m: &[u128]| -> R {
                        let g = ids(v.iter());
                        if v.len() != m.len() || g != m {
                            return Err(format!("{}::EnumVec<{}> after {}: values {:?} instead of {:?}", stringify!($m), name, what, g, m));
                        }
                        Ok(())
                    };
                    bad("building", &v, &m)?;
                    for _ in 0..12 {
                        let x = rng.below(n);
                        let at = rng.below(m.len() as u128 + 1) as usize;
                        match rng.below(10) {
                            0 => {
                                v.push(T::nth(x));
                                m.push(x);
                                bad("push", &v, &m)?;
                            }
                            1 => {
                                let (a, b) = (v.pop().map(|x| x.index()), m.pop());
                                if a != b {
                                    return Err(format!("{}::EnumVec<{}> pop gives {:?} instead of {:?}", stringify!($m), name, a, b));
                                }
                            }
                            2 => {
                                v.insert(at, T::nth(x));
                                m.insert(at, x);
                                bad("insert", &v, &m)?;
                            }
                            3 if at < m.len() => {
                                let (a, b) = (v.remove(at).index(), m.remove(at));
                                if a != b {
                                    return Err(format!("{}::EnumVec<{}> remove({}) gives {} instead of {}", stringify!($m), name, at, a, b));
                                }
                                bad("remove", &v, &m)?;
                            }
                            4 if at < m.len() => {
                                v.set(at, T::nth(x));
                                m[at] = x;
                                bad("set", &v, &m)?;
                            }
                            5 => {
                                let more = some_ids(n, &mut rng);
                                v.extend(list::<T>(&more));
                                m.extend(&more);
                                bad("extend", &v, &m)?;
                            }
                            6 => {
                                v.retain(|y| y.index() != x);
                                m.retain(|&y| y != x);
                                bad("retain", &v, &m)?;
                            }
                            7 => {
                                let k = rng.below(40) as usize;
                                v.resize(k, T::nth(x));
                                m.resize(k, x);
                                bad("resize", &v, &m)?;
                            }
                            8 => {
                                v.for_each(|y| *y = T::nth((y.index() + 1) % n));
                                for y in &mut m {
                                    *y = (*y + 1) % n;
                                }
                                bad("for_each", &v, &m)?;
                            }
                            _ => {
                                for y in m.iter().copied().take(3).chain([x, 0, n - 1]) {
                                    let (a, b) = (v.any(T::nth(y)), m.contains(&y));
                                    if a != b {
                                        return Err(format!("{}::EnumVec<{}>: any({}) is {} for {:?}", stringify!($m), name, y, a, m));
                                    }
                                    let (a, b) = (v.all(T::nth(y)), m.iter().all(|&z| z == y));
                                    if a != b {
                                        return Err(format!("{}::EnumVec<{}>: all({}) is {} for {:?}", stringify!($m), name, y, a, m));
                                    }
                                    let (a, b) = (v.iter().position(|z| z.index() == y), m.iter().position(|&z| z == y));
                                    if a != b {
                                        return Err(format!("{}::EnumVec<{}>: {} found at {:?} of {:?}", stringify!($m), name, y, a, m));
                                    }
                                }
                            }
                        }
                    }
                    bad("all that", &v, &m)?;
                    for i in 0..m.len() + 2 {
                        let (a, b) = (v.get(i).map(|x| x.index()), m.get(i).copied());
                        if a != b {
                            return Err(format!("{}::EnumVec<{}>: get({}) is {:?} instead of {:?}", stringify!($m), name, i, a, b));
                        }
                    }
                    let back: Vec<T> = v.into();
                    if ids(back) != m {
                        return Err(format!("{}::EnumVec<{}> into a Vec differs from {:?}", stringify!($m), name, m));
                    }
                }
                Ok(())
            }
        };
    }
    vec_check!(vec8, vec_u8);
    vec_check!(vec16, vec_u16);
    vec_check!(vec32, vec_u32);
    vec_check!(vec64, vec_u64);
    vec_check!(vec128, vec_u128);
    vec_check!(small32, smallvec_u32);

    macro_rules! packed_check {
        ($name:ident, $w:ident, $size:expr) => {
            pub fn $name<T: Spec>(name: &str, seed: u64) -> R {
                let mut rng = Rng::new(seed);
                if std::mem::size_of::<enum_like::$w<T>>() != $size {
                    return Err(format!("{}<{}> takes {} bytes", stringify!($w), name, std::mem::size_of::<enum_like::$w<T>>()));
                }
                for i in sample(T::count(), &mut rng) {
                    let g = enum_like::$w::new(T::nth(i)).get().index();
                    if g != i {
                        return Err(format!("{}<{}>: value {} comes back as {}", stringify!($w), name, i, g));
                    }
                }
                Ok(())
            }
        };
    }
    packed_check!(packed8, PackedU8, 1);
    packed_check!(packed16, PackedU16, 2);

    /// An EnumSet of T against a set of value numbers.
    pub fn set<T: Spec>(name: &str, seed: u64) -> R {
        use enum_set::EnumSet;
        use std::collections::BTreeSet;
        let mut rng = Rng::new(seed);
        let n = T::count();
        let order = |m: &BTreeSet<u128>| -> Vec<u128> {
            let mut v: Vec<T> = m.iter().map(|&i| T::nth(i)).collect();
            v.sort_by_key(|x| x.to_discr());
            ids(v)
        };
        let mut s: EnumSet<T> = EnumSet::new();
        let mut m: BTreeSet<u128> = BTreeSet::new();
        for _ in 0..25 {
            if n > 0 {
                let x = if rng.below(2) == 0 { rng.below(n) } else { *m.iter().next().unwrap_or(&(n - 1)) };
                match rng.below(6) {
                    0 => {
                        let l = some_ids(n, &mut rng);
                        s.extend(list::<T>(&l));
                        m.extend(&l);
                    }
                    1 | 2 => {
                        let (a, b) = (s.insert(T::nth(x)), m.insert(x));
                        if a != b {
                            return Err(format!("EnumSet<{}>: insert({}) is {}", name, x, a));
                        }
                    }
                    3 => {
                        let (a, b) = (s.remove(T::nth(x)), m.remove(&x));
                        if a != b {
                            return Err(format!("EnumSet<{}>: remove({}) is {}", name, x, a));
                        }
                    }
                    k => {
                        let l = some_ids(n, &mut rng);
                        let o: EnumSet<T> = list::<T>(&l).into_iter().collect();
                        let om: BTreeSet<u128> = l.into_iter().collect();
                        let forms: [(&str, Vec<u128>, Vec<u128>); 4] = [
                            ("union", ids(s.union(&o)), order(&(&m | &om))),
                            ("intersection", ids(s.intersection(&o)), order(&(&m & &om))),
                            ("difference", ids(s.difference(&o)), order(&(&m - &om))),
                            ("symmetric_difference", ids(s.symmetric_difference(&o)), order(&(&m ^ &om))),
                        ];
                        for (f, a, b) in forms {
                            let (mut a2, mut b2) = (a.clone(), b.clone());
                            a2.sort();
                            b2.sort();
                            if a2 != b2 {
                                return Err(format!("EnumSet<{}>: {} of {:?} and {:?} is {:?}", name, f, m, om, a));
                            }
                        }
                        if k == 4 {
                            s.union_with(&o);
                            m = &m | &om;
                        } else {
                            s.symmetric_difference_with(&o);
                            m = &m ^ &om;
                        }
                    }
                }
                if s.contains(T::nth(x)) != m.contains(&x) {
                    return Err(format!("EnumSet<{}>: contains({}) is wrong for {:?}", name, x, m));
                }
            }
            let g = ids(s.iter());
            if g != order(&m) || s.len() != m.len() || s.is_empty() != m.is_empty() {
                return Err(format!("EnumSet<{}>: holds {:?} instead of {:?}, len() {}", name, g, order(&m), s.len()));
            }
        }
        Ok(())
    }

    fn send_sync<X: Send + Sync + Unpin>(_: &X) {}

    /// Runs f on this thread and then on several at once: they must all say the same.
    fn together<A: Send + Sync + PartialEq + std::fmt::Debug>(what: &str, n: usize, f: impl Fn() -> A + Sync) -> R {
        let want = f();
        let gate = std::sync::Barrier::new(n);
        let got: Vec<std::thread::Result<A>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    sc.spawn(|| {
                        gate.wait();
                        let mut last = None;
                        for _ in 0..20 {
                            let a = f();
                            if a != want {
                                return a;
                            }
                            last = Some(a);
                        }
                        last.unwrap()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for g in got {
            match g {
                Ok(a) if a == want => {}
                Ok(a) => return Err(format!("{}: reading alone gives {:?}, among {} readers {:?}", what, want, n, a)),
                Err(_) => return Err(format!("{}: a reader panicked among {} readers", what, n)),
            }
        }
        Ok(())
    }
    fn hash<X: std::hash::Hash>(x: &X) -> u64 {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }

    macro_rules! threads_check {
        ($name:ident, $m:ident) => {
            /// A vector read by several threads at once, and edited by one after another.
            pub fn $name<T: Spec + Send + Sync + Unpin>(name: &str, seed: u64) -> R {
                use enum_vec::$m::EnumVec;
                // a vector of longer-lived values is one of shorter-lived ones
                fn shorten<'a>(v: EnumVec<crate::base::Tag<'static>>) -> EnumVec<crate::base::Tag<'a>> {
                    v
                }
                let _ = shorten(EnumVec::new());
                let mut rng = Rng::new(seed);
                let n = T::count();
                for _ in 0..6 {
                    let mut m = some_ids(n, &mut rng);
                    let mut v: EnumVec<T> = match rng.below(3) {
                        0 => list::<T>(&m).into(),
                        1 => m.iter().map(|&i| T::nth(i)).collect(),
                        _ => EnumVec::from_slice(&list::<T>(&m)),
                    };
                    // junk past the end
                    for _ in 0..rng.below(6) {
                        v.pop();
                        m.pop();
                    }
                    send_sync(&v);
                    send_sync(&v.iter());
                    send_sync(&v.clone().into_iter());
                    let other = if rng.below(2) == 0 { v.clone() } else { list::<T>(&some_ids(n, &mut rng)).into() };
                    let what = format!("{}::EnumVec<{}> of {:?}", stringify!($m), name, m);
                    let sc = rng.next();
                    let (vr, or) = (&v, &other);
                    let read = move || -> Vec<u128> {
                        let mut rng = Rng::new(sc);
                        let mut out = vec![];
                        let mut it = vr.iter();
                        for _ in 0..30 {
                            let at = rng.below(vr.len() as u128 + 1) as usize;
                            let x = T::nth(rng.below(n));
                            match rng.below(13) {
                                0 | 1 | 2 => out.push(vr.get(at).map_or(n, |x| x.index())),
                                3 => out.extend(ids(vr.iter())),
                                4 => out.extend(ids(vr.iter().rev())),
                                5 => out.extend([vr.any(x) as u128, vr.all(x) as u128]),
                                6 => out.extend([(vr == or) as u128, hash(vr) as u128]),
                                7 => out.extend(ids(vr.to_vec())),
                                8 => {
                                    let mut c = vr.clone();
                                    c.push(x);
                                    out.extend(ids(c));
                                }
                                9 => out.push(vr.len() as u128 + vr.is_empty() as u128),
                                10 => out.push(it.next().map_or(n, |x| x.index())),
                                11 => out.push(it.next_back().map_or(n, |x| x.index())),
                                _ => out.push(it.len() as u128),
                            }
                        }
                        out
                    };
                    let k = 2 + rng.below(3) as usize;
                    together(&what, k, read)?;
                    // an iterator goes on where it was
                    let mut it = v.iter();
                    let skip = rng.below(m.len() as u128 + 1) as usize;
                    for _ in 0..skip {
                        it.next();
                    }
                    let rest = std::thread::scope(|s| s.spawn(move || ids(it)).join());
                    if rest.as_ref().ok().map(|r| &r[..]) != Some(&m[skip..]) {
                        return Err(format!("{}: an iterator moved to another thread after {} elements gives {:?}", what, skip, rest.ok()));
                    }
                    // there and back
                    let (x, at) = (rng.below(n), rng.below(m.len() as u128 + 1) as usize);
                    let edited = std::thread::scope(|s| {
                        s.spawn(move || {
                            v.insert(at, T::nth(x));
                            v.push(T::nth(x));
                            v
                        })
                        .join()
                    });
                    m.insert(at, x);
                    m.push(x);
                    match edited {
                        Ok(v) if v.len() == m.len() && ids(v.iter()) == m => {}
                        Ok(v) => return Err(format!("{}: after edits in another thread {:?}", what, ids(v.iter()))),
                        Err(_) => return Err(format!("{}: editing it in another thread panics", what)),
                    }
                }
                Ok(())
            }
        };
    }
    threads_check!(threads_vec8, vec_u8);
    threads_check!(threads_vec16, vec_u16);
    threads_check!(threads_vec32, vec_u32);
    threads_check!(threads_vec64, vec_u64);
    threads_check!(threads_vec128, vec_u128);
    threads_check!(threads_small32, smallvec_u32);

    pub fn threads_set<T: Spec + Send + Sync + Unpin>(name: &str, seed: u64) -> R {
        use enum_set::EnumSet;
        fn shorten<'a>(v: EnumSet<crate::base::Tag<'static>>) -> EnumSet<crate::base::Tag<'a>> {
            v
        }
        let _ = shorten(EnumSet::new());
        let mut rng = Rng::new(seed);
        let n = T::count();
        if n == 0 {
            return Ok(());
        }
        for _ in 0..6 {
            let (l, o) = (some_ids(n, &mut rng), some_ids(n, &mut rng));
            let mut m: std::collections::BTreeSet<u128> = l.iter().copied().collect();
            let mut s: EnumSet<T> = list::<T>(&l).into_iter().collect();
            let other: EnumSet<T> = list::<T>(&o).into_iter().collect();
            for _ in 0..rng.below(4) {
                let x = rng.below(n);
                s.remove(T::nth(x));
                m.remove(&x);
            }
            send_sync(&s);
            send_sync(&s.iter());
            send_sync(&s.union(&other));
            send_sync(&s.intersection(&other));
            send_sync(&s.difference(&other));
            send_sync(&s.symmetric_difference(&other));
            let what = format!("EnumSet<{}> of {:?}", name, m);
            let sc = rng.next();
            let (sr, or) = (&s, &other);
            let read = move || -> Vec<u128> {
                let mut rng = Rng::new(sc);
                let mut out = vec![];
                let mut it = sr.iter();
                for _ in 0..30 {
                    match rng.below(12) {
                        0 | 1 | 2 => out.push(sr.contains(T::nth(rng.below(n))) as u128),
                        3 => out.extend(ids(sr.iter())),
                        4 => out.extend(ids(sr.union(or))),
                        5 => out.extend(ids(sr.intersection(or))),
                        6 => out.extend(ids(sr.difference(or))),
                        7 => out.extend(ids(sr.symmetric_difference(or))),
                        8 => {
                            let mut c = sr.clone();
                            c.intersect_with(or);
                            out.extend(ids(c.iter()));
                        }
                        9 => out.extend([sr.is_subset(or) as u128, sr.is_superset(or) as u128, sr.is_disjoint(or) as u128]),
                        10 => out.extend([sr.len() as u128, sr.is_empty() as u128]),
                        _ => out.push(it.next().map_or(n, |x| x.index())),
                    }
                }
                out
            };
            let k = 2 + rng.below(3) as usize;
            together(&what, k, read)?;
            let (x, y) = (rng.below(n), rng.below(n));
            let edited = std::thread::scope(|sc| {
                sc.spawn(move || {
                    s.insert(T::nth(x));
                    s.remove(T::nth(y));
                    s
                })
                .join()
            });
            m.insert(x);
            m.remove(&y);
            let sorted = |mut v: Vec<u128>| {
                v.sort();
                v
            };
            match edited {
                Ok(s) if s.len() == m.len() && sorted(ids(s.iter())) == m.iter().copied().collect::<Vec<_>>() => {}
                Ok(s) => return Err(format!("{}: after edits in another thread {:?}", what, ids(s.iter()))),
                Err(_) => return Err(format!("{}: editing it in another thread panics", what)),
            }
        }
        Ok(())
    }

    macro_rules! threads_packed {
        ($name:ident, $w:ident) => {
            pub fn $name<T: Spec + Send + Sync + Unpin>(name: &str, seed: u64) -> R {
                fn shorten<'a>(v: enum_like::$w<crate::base::Tag<'static>>) -> enum_like::$w<crate::base::Tag<'a>> {
                    v
                }
                let _ = shorten(enum_like::$w::new(Spec::nth(0)));
                if T::count() == 0 {
                    return Ok(());
                }
                let mut rng = Rng::new(seed);
                let m = some_ids(T::count(), &mut rng);
                let v: Vec<_> = m.iter().map(|&i| enum_like::$w::new(T::nth(i))).collect();
                send_sync(&v);
                let vr = &v;
                together(&format!("{}<{}> of {:?}", stringify!($w), name, m), 3, move || ids(vr.iter().map(|x| x.get())))?;
                let vals = <T as enum_like::EnumValues>::values();
                send_sync(&vals);
                let here = ids(<T as enum_like::EnumValues>::values().take(500));
                let there = std::thread::scope(|s| s.spawn(move || ids(vals.take(500))).join());
                if there.as_ref().ok() != Some(&here) {
                    return Err(format!("values of {} in another thread: {:?} instead of {:?}", name, there.ok(), here));
                }
                Ok(())
            }
        };
    }
    threads_packed!(threads_packed8, PackedU8);
    threads_packed!(threads_packed16, PackedU16);

    pub fn cases(cs: &[(usize, fn() -> R)]) {
        use std::io::Write;
        std::panic::set_hook(Box::new(|i| {
            LAST.with(|l| *l.borrow_mut() = i.to_string());
        }));
        for (k, f) in cs {
            println!("BEGIN {}", k);
            std::io::stdout().flush().unwrap();
            match catch_unwind(f) {
                Ok(Ok(())) => println!("PASS {}", k),
                Ok(Err(m)) => println!("FAIL {} {}", k, m.replace('\n', " ")),
                Err(_) => println!("FAIL {} unexpected panic: {}", k, LAST.with(|l| l.borrow().replace('\n', " "))),
            }
        }
        println!("END");
    }
    thread_local! {
        static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    }
}
