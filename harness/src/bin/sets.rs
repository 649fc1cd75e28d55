//! Properties of EnumSet.
use enum_set2::EnumSet;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use vt::dynvec::Rec;
use vt::elem::{self, E};
use vt::engine::*;
use vt::ops::{Hint, HintIter};

#[cfg(feature = "guard")]
#[global_allocator]
static GUARD: vt::guard::Guard = vt::guard::Guard;

type Model = BTreeSet<usize>;

macro_rules! dispatch {
    ($f:ident, $src:ident, $cx:ident; $($n:expr),*) => {{
        let i = { let v = [$({ let _: usize = $n; 0 }),*].len(); $src.below(v) };
        let mut k = 0usize;
        $( { if k == i { return $f::<{ $n }>($src, $cx); } k += 1; } )*
        let _ = k;
        unreachable!()
    }};
}
macro_rules! props {
    ($($name:ident => $f:ident),*) => { $( fn $name(src: &mut Src, cx: &mut Cx) -> Case {
        dispatch!($f, src, cx; 3, 1, 2, 8, 31, 32, 33, 64, 65, 100, 257, 1000, 9000, 70_000, 1 << 24, 1 << (usize::BITS / 8 * 5), usize::MAX)
    } )* };
}
props!(p13 => p13n, p23 => p23n, p24 => p24n, p25 => p25n, p16 => p16n, p27 => p27n);

/// Types of more values than this are looked at in places only.
const ALL: usize = 20_000;
/// No greater value is put into a set: it would take memory in proportion.
const TOP: usize = 1 << 17;

thread_local! {
    /// the greatest value drawn for putting into a set, and how many were
    static DRAWN: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}

/// A value to put into a set.
fn val<const N: usize>(src: &mut Src) -> usize {
    let x = val1::<N>(src);
    DRAWN.with(|d| d.set((d.get().0.max(x), d.get().1 + 1)));
    x
}
fn val1<const N: usize>(src: &mut Src) -> usize {
    let n = if N > ALL && src.chance(3, 4) { 300 } else { N.min(TOP) };
    let b = n / 32 * 32;
    src.edgy(n - 1, &[0, n - 1, 1, 31, 32, 33, 63, 64, b, b.saturating_sub(1)])
}
/// A value to look for or remove: any value of the type.
fn key<const N: usize>(src: &mut Src) -> usize {
    if N > ALL && src.chance(1, 4) {
        return if src.chance(1, 2) { N - 1 - src.below(40) } else { src.below(N) };
    }
    val::<N>(src)
}
/// Values of the type, in order: all of them or, if there are very many, all of interest for m.
fn dom<const N: usize>(m: &Model) -> Vec<usize> {
    if N <= ALL {
        return (0..N).collect();
    }
    let mut d: BTreeSet<usize> = (0..100).collect();
    d.extend(m.iter().flat_map(|&x| [x.saturating_sub(1), x, x + 1]));
    d.extend((7..usize::BITS).flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 31]));
    d.extend([N - 1, N - 2, N / 2, TOP - 1]);
    d.into_iter().filter(|&x| x < N).collect()
}
/// What is in s, for judging only what happens to it from now on.
fn now<const N: usize>(s: &EnumSet<E<N>>) -> Model {
    if N <= ALL {
        (0..N).filter(|&x| s.contains(e(x))).collect()
    } else {
        s.get_ref().iter().collect()
    }
}
fn vals<const N: usize>(src: &mut Src) -> Vec<usize> {
    match src.weighted(&[5, 1, 2]) {
        0 => {
            let mut v = vec![];
            let mean = *src.pick(&[2u64, 8, 20]);
            while v.len() < 200 && src.more(mean) {
                v.push(val::<N>(src));
            }
            v
        }
        1 => {
            let n = src.extra_cap().max(400);
            (0..N.min(n)).collect()
        }
        _ => {
            let s = src.upto(0xffff);
            let d = 1 + src.upto(3);
            let n = src.extra_cap().max(400);
            (0..N.min(n)).filter(|&i| mix(s, i as u64) % (d + 1) == 0).collect()
        }
    }
}
fn e<const N: usize>(x: usize) -> E<N> {
    E(x)
}

/// One step of a set's history on both; the returned booleans must agree.
fn step<const N: usize>(src: &mut Src, cx: &mut Cx, s: &mut EnumSet<E<N>>, m: &mut Model) -> Case {
    let bad = |what: String, got: bool, want: bool| -> Case {
        if got != want {
            return Err(format!("{} returned {}, a set gives {}", what, got, want));
        }
        Ok(())
    };
    match src.weighted(&[8, 6, 4, 3, 1, 2, 2, 2, 2, 1, 1, 1]) {
        0 => {
            let x = val::<N>(src);
            let (a, b) = (s.insert(e(x)), m.insert(x));
            cx.log(|| format!("insert({}) -> {}", x, a));
            bad(format!("insert({})", x), a, b)
        }
        1 => {
            let x = if src.chance(1, 2) && !m.is_empty() { *m.iter().nth(src.below(m.len())).unwrap() } else { key::<N>(src) };
            let (a, b) = (s.remove(e(x)), m.remove(&x));
            cx.log(|| format!("remove({}) -> {}", x, a));
            bad(format!("remove({})", x), a, b)
        }
        2 => {
            let x = key::<N>(src);
            let (a, b) = (s.contains(e(x)), m.contains(&x));
            cx.log(|| format!("contains({}) -> {}", x, a));
            bad(format!("contains({})", x), a, b)
        }
        3 => {
            let v = vals::<N>(src);
            cx.log(|| format!("extend({:?})", v));
            s.extend(v.iter().map(|&x| e(x)));
            m.extend(v);
            Ok(())
        }
        4 => {
            cx.log(|| "clear()".into());
            s.clear();
            m.clear();
            Ok(())
        }
        i @ 5..=8 => {
            let v = vals::<N>(src);
            let mut o: EnumSet<E<N>> = v.iter().map(|&x| e(x)).collect();
            let mut om: Model = v.iter().copied().collect();
            if src.chance(1, 3) {
                let x = val::<N>(src);
                o.insert(e(x));
                o.remove(e(x));
                om.remove(&x);
            }
            let name = ["union_with", "intersect_with", "difference_with", "symmetric_difference_with"][i - 5];
            cx.log(|| format!("{}({:?})", name, om));
            match i {
                5 => {
                    s.union_with(&o);
                    *m = m.union(&om).copied().collect();
                }
                6 => {
                    s.intersect_with(&o);
                    *m = m.intersection(&om).copied().collect();
                }
                7 => {
                    s.difference_with(&o);
                    *m = m.difference(&om).copied().collect();
                }
                _ => {
                    s.symmetric_difference_with(&o);
                    *m = m.symmetric_difference(&om).copied().collect();
                }
            }
            Ok(())
        }
        9 => {
            cx.log(|| "shrink_to_fit()".into());
            s.shrink_to_fit();
            Ok(())
        }
        10 => {
            cx.log(|| "clone()".into());
            *s = s.clone();
            Ok(())
        }
        _ => {
            let v = vals::<N>(src);
            cx.log(|| format!("from_iter({:?})", v));
            *s = v.iter().map(|&x| e(x)).collect();
            *m = v.into_iter().collect();
            Ok(())
        }
    }
}

fn agrees<const N: usize>(what: &str, s: &EnumSet<E<N>>, m: &Model) -> Case {
    if s.len() != m.len() || s.is_empty() != m.is_empty() {
        return Err(format!("{}: len() is {}, is_empty() {}, the set has {} values", what, s.len(), s.is_empty(), m.len()));
    }
    for x in dom::<N>(m) {
        if s.contains(e(x)) != m.contains(&x) {
            return Err(format!("{}: contains({}) is {}, the set is {:?}", what, x, s.contains(e(x)), m));
        }
    }
    Ok(())
}

fn p23n<const N: usize>(src: &mut Src, cx: &mut Cx) -> Case {
    cx.log(|| format!("EnumSet of a type of {} values", N));
    let mut s = if src.chance(1, 2) { EnumSet::new() } else { EnumSet::default() };
    let mut m = Model::new();
    agrees("new", &s, &m)?;
    let mut n = 0;
    let mut changed = 0;
    while n < 80 && src.more(14) {
        n += 1;
        let b = m.len();
        step::<N>(src, cx, &mut s, &mut m)?;
        changed += (b != m.len()) as u32;
        if N <= 300 || src.chance(1, 8) {
            agrees(&format!("after step {}", n), &s, &m)?;
        } else if s.len() != m.len() || s.is_empty() != m.is_empty() {
            return Err(format!("after step {}: len() is {}, the set has {} values", n, s.len(), m.len()));
        }
    }
    cx.nontrivial = changed >= 2;
    agrees("at the end", &s, &m)?;
    let mut it: Vec<usize> = s.iter().take(N.saturating_add(1)).map(|x| x.0).collect();
    it.sort();
    if it != m.iter().copied().collect::<Vec<_>>() {
        return Err(format!("iterating gives {:?}, the set is {:?}", it, m));
    }
    Ok(())
}

fn history<const N: usize>(src: &mut Src, cx: &mut Cx) -> Result<(EnumSet<E<N>>, Model), String> {
    let mut s = EnumSet::new();
    let mut m = Model::new();
    if src.chance(2, 3) {
        let v = vals::<N>(src);
        cx.log(|| format!("from_iter({:?})", v));
        s = v.iter().map(|&x| e(x)).collect();
        m = v.into_iter().collect();
    }
    for _ in 0..src.below(7) {
        let _ = step::<N>(src, cx, &mut s, &mut m);
    }
    // judge only the caller's operations
    m = now(&s);
    Ok((s, m))
}

/// Goes through an iterator in generated ways; `want` is left of it.
fn script<const N: usize, I: Iterator<Item = E<N>>>(src: &mut Src, what: &dyn Fn() -> String, mut it: I, want: &[usize]) -> Case {
    let mut left = want;
    for _ in 0..src.below(5) {
        let (lo, hi) = it.size_hint();
        if lo > left.len() || hi.is_some_and(|h| h < left.len()) {
            return Err(format!("{}: size_hint() is {:?} with {:?} left", what(), (lo, hi), left));
        }
        let n = if src.chance(1, 2) { 0 } else { src.edgy(left.len() + 3, &[0, 1, left.len(), left.len().saturating_sub(1)]) };
        let (y, w) = (if n == 0 { it.next() } else { it.nth(n) }.map(|x| x.0), left.get(n).copied());
        left = &left[left.len().min(n + 1)..];
        if y != w {
            return Err(format!("{}: {} elements further comes {:?} where {:?} is due", what(), n, y, w));
        }
    }
    let lim = want.len() + 10;
    let l = || left.iter().copied();
    let bad = |name: &str, got: String| Err(format!("{}: {} of the rest {:?} is {}", what(), name, left, got));
    match src.below(8) {
        0 => {
            let n = it.count();
            if n != left.len() {
                return bad("count()", n.to_string());
            }
        }
        1 => {
            let x = it.last().map(|x| x.0);
            if x != l().last() {
                return bad("last()", format!("{:?}", x));
            }
        }
        2 => {
            let x = it.map(|x| x.0).max();
            if x != l().max() {
                return bad("max()", format!("{:?}", x));
            }
        }
        3 => {
            let x = it.map(|x| x.0).min();
            if x != l().min() {
                return bad("min()", format!("{:?}", x));
            }
        }
        4 => {
            let x = it.fold(7u64, |h, x| mix(h, x.0 as u64));
            if x != l().fold(7u64, |h, x| mix(h, x as u64)) {
                return bad("fold()", "another".into());
            }
        }
        5 => {
            let n = 1 + src.below(4);
            let x: Vec<usize> = it.take(lim).step_by(n).map(|x| x.0).collect();
            if x != l().step_by(n).collect::<Vec<_>>() {
                return bad(&format!("step_by({})", n), format!("{:?}", x));
            }
        }
        6 => {
            let y = l().nth(src.below(left.len() + 1));
            let x = it.position(|x| Some(x.0) == y);
            if x != l().position(|x| Some(x) == y) {
                return bad("position()", format!("{:?}", x));
            }
        }
        _ => {
            let x: Vec<usize> = it.take(lim).map(|x| x.0).collect();
            if x != left {
                return bad("collect()", format!("{:?}", x));
            }
        }
    }
    Ok(())
}

// P13 for sets: extended by an iterator that panics or misreports its length
fn p13n<const N: usize>(src: &mut Src, cx: &mut Cx) -> Case {
    cx.log(|| format!("EnumSet of a type of {} values", N));
    let (mut s, mut m) = history::<N>(src, cx)?;
    for round in 0..1 + src.below(2) {
        let v: Vec<u64> = vals::<N>(src).into_iter().map(|x| x as u64).collect();
        let hint = match src.below(6) {
            0 => Hint::Exact,
            1 => Hint::Zero,
            2 => Hint::NoUpper,
            3 => Hint::Over(src.below(100)),
            4 => Hint::Less(src.below(100)),
            _ => Hint::UpperLow,
        };
        let mut it = HintIter::new(&v, hint);
        it.ghost = src.chance(1, 2);
        if src.chance(2, 3) {
            it.panic_at = Some(src.below(v.len() + 1));
        }
        cx.log(|| format!("extend({:?}, {:?}, panic at {:?})", v, hint, it.panic_at));
        let due = it.panic_at.unwrap_or(v.len());
        let panics = it.panic_at.is_some();
        if !panics && src.chance(1, 3) {
            s = it.map(|x| e(x as usize)).collect();
            m.clear();
        } else if catch(|| s.extend(it.map(|x| e(x as usize)))).is_err() != panics {
            return Err(format!("extend by {:?} panicked: {}", v, !panics));
        } else {
            cx.label(if panics { "iterator-panicked" } else { "iterator-misreported" });
        }
        m.extend(v[..due].iter().map(|&x| x as usize));
        cx.nontrivial |= due > 0;
        agrees(&format!("after round {} of extending", round), &s, &m)?;
        let all: Vec<usize> = m.iter().copied().collect();
        script(src, &|| format!("the set {:?}", all), s.iter(), &all)?;
        for _ in 0..src.below(4) {
            let _ = step::<N>(src, cx, &mut s, &mut m);
            m = now(&s);
        }
    }
    Ok(())
}

fn p24n<const N: usize>(src: &mut Src, cx: &mut Cx) -> Case {
    cx.log(|| format!("a: EnumSet of a type of {} values", N));
    let (a, am) = history::<N>(src, cx)?;
    cx.log(|| "b:".to_string());
    let (mut b, mut bm) = history::<N>(src, cx)?;
    if src.chance(1, 3) {
        // related sets
        for &x in am.iter() {
            if src.chance(7, 8) {
                b.insert(e(x));
                bm.insert(x);
            }
        }
        bm = now(&b);
    }
    cx.log(|| format!("a = {:?}, b = {:?}", am, bm));
    cx.nontrivial = !am.is_empty() && !bm.is_empty() && am != bm;
    let col = |i: &mut dyn Iterator<Item = E<N>>| -> Vec<usize> {
        let mut v: Vec<usize> = i.take(N.saturating_mul(2).saturating_add(2)).map(|x| x.0).collect();
        v.sort();
        v
    };
    let ops: [(&str, Vec<usize>, Vec<usize>, fn(&mut EnumSet<E<N>>, &EnumSet<E<N>>)); 4] = [
        ("union", col(&mut a.union(&b)), am.union(&bm).copied().collect(), |x, y| x.union_with(y)),
        ("intersection", col(&mut a.intersection(&b)), am.intersection(&bm).copied().collect(), |x, y| x.intersect_with(y)),
        ("difference", col(&mut a.difference(&b)), am.difference(&bm).copied().collect(), |x, y| x.difference_with(y)),
        ("symmetric difference", col(&mut a.symmetric_difference(&b)), am.symmetric_difference(&bm).copied().collect(), |x, y| {
            x.symmetric_difference_with(y)
        }),
    ];
    for (name, got, want, with) in ops {
        if got != want {
            return Err(format!("the {} of {:?} and {:?} iterates as {:?}", name, am, bm, got));
        }
        let mut c = a.clone();
        with(&mut c, &b);
        let wm: Model = want.into_iter().collect();
        agrees(&format!("in-place {} of {:?} and {:?}", name, am, bm), &c, &wm)?;
        agrees(&format!("other operand of the in-place {}", name), &b, &bm)?;
        let it: Vec<usize> = col(&mut c.iter());
        if it != wm.iter().copied().collect::<Vec<_>>() {
            return Err(format!("the in-place {} of {:?} and {:?} iterates as {:?}", name, am, bm, it));
        }
    }
    agrees("first operand", &a, &am)?;
    // the order is not promised, but the same for the same sets
    let i = src.below(4);
    let what = |name: &'static str| move |am: &Model, bm: &Model| format!("{} of {:?} and {:?}", name, am, bm);
    macro_rules! go {
        ($f:ident) => {{
            let full: Vec<usize> = a.$f(&b).map(|x| x.0).collect();
            script(src, &|| what(stringify!($f))(&am, &bm), a.$f(&b), &full)?;
        }};
    }
    match i {
        0 => go!(union),
        1 => go!(intersection),
        2 => go!(difference),
        _ => go!(symmetric_difference),
    }
    let rel = [
        ("is_disjoint", a.is_disjoint(&b), am.is_disjoint(&bm)),
        ("is_subset", a.is_subset(&b), am.is_subset(&bm)),
        ("is_superset", a.is_superset(&b), am.is_superset(&bm)),
        ("is_disjoint (reversed)", b.is_disjoint(&a), bm.is_disjoint(&am)),
        ("is_subset (reversed)", b.is_subset(&a), bm.is_subset(&am)),
        ("is_superset (reversed)", b.is_superset(&a), bm.is_superset(&am)),
        ("is_subset of itself", a.is_subset(&a.clone()), true),
        ("is_superset of itself", a.is_superset(&a.clone()), true),
    ];
    for (n, got, want) in rel {
        if got != want {
            return Err(format!("{} is {} for {:?} and {:?}", n, got, am, bm));
        }
        if want {
            cx.label(n);
        }
    }
    Ok(())
}

fn hash<T: Hash>(x: &T) -> (Vec<u8>, u64) {
    let mut r = Rec::default();
    x.hash(&mut r);
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    (r.0, h.finish())
}

fn p25n<const N: usize>(src: &mut Src, cx: &mut Cx) -> Case {
    cx.log(|| format!("a: EnumSet of a type of {} values", N));
    let (mut a, am) = history::<N>(src, cx)?;
    cx.log(|| "b:".to_string());
    let (mut b, mut bm) = history::<N>(src, cx)?;
    if src.chance(2, 3) {
        // the same values by another way
        for &x in &am.union(&bm).copied().collect::<Vec<_>>() {
            if am.contains(&x) != bm.contains(&x) {
                if am.contains(&x) {
                    b.insert(e(x));
                } else {
                    b.remove(e(x));
                }
            }
        }
        if src.chance(1, 4) {
            let x = val::<N>(src);
            if am.contains(&x) {
                b.remove(e(x));
            } else {
                b.insert(e(x));
            }
        }
        bm = now(&b);
    }
    cx.log(|| format!("a = {:?}, b = {:?}", am, bm));
    let eq = am == bm;
    cx.label(if eq { "equal-pair" } else { "unequal-pair" });
    cx.nontrivial = am.len() > 1;
    // iteration
    let by_ref = src.chance(1, 2);
    let mut it = if by_ref { (&a).into_iter() } else { a.iter() };
    let mut left = am.len();
    for &x in &am {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint() is {:?} with {} of {:?} left", (lo, hi), left, am));
        }
        let y = it.next().map(|x| x.0);
        if y != Some(x) {
            return Err(format!("iterating {:?} gives {:?} where {} is due", am, y, x));
        }
        left -= 1;
    }
    let (lo, _) = it.size_hint();
    if lo > 0 {
        return Err(format!("size_hint() claims at least {} elements at the end", lo));
    }
    for _ in 0..3 {
        if let Some(x) = it.next() {
            return Err(format!("iterating {:?} gives {} after the end", am, x.0));
        }
    }
    let n = a.iter().count();
    if n != am.len() {
        return Err(format!("count() is {} for {:?}", n, am));
    }
    if a.iter().map(|x| x.0).collect::<Vec<_>>() != am.iter().copied().collect::<Vec<_>>() {
        return Err(format!("collecting {:?} gives {:?}", am, a.iter().collect::<Vec<_>>()));
    }
    let all: Vec<usize> = am.iter().copied().collect();
    script(src, &|| format!("the set {:?}", am), a.iter(), &all)?;
    // equality and friends
    if (a == b) != eq || (b == a) != eq || (a != b) == eq {
        return Err(format!("{:?} == {:?} is {}", am, bm, a == b));
    }
    if ((a.cmp(&b) == std::cmp::Ordering::Equal) != eq)
        || ((a.partial_cmp(&b) == Some(std::cmp::Ordering::Equal)) != eq)
        || a.cmp(&b) != b.cmp(&a).reverse()
    {
        return Err(format!("{:?} compares with {:?} as {:?}", am, bm, a.cmp(&b)));
    }
    let o = a.cmp(&b);
    if (a < b, a <= b, a > b, a >= b) != (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()) {
        return Err(format!("{:?} compares with {:?} as {:?}, but <, <=, >, >= say {:?}", am, bm, o, (a < b, a <= b, a > b, a >= b)));
    }
    if src.chance(1, 4) {
        // a third set near them: the order is transitive
        let mut c = if src.chance(1, 2) { a.clone() } else { b.clone() };
        for _ in 0..src.range(1, 3) {
            let x = val::<N>(src);
            if src.chance(1, 2) {
                c.insert(e(x));
            } else {
                c.remove(e(x));
            }
        }
        let mut t = [&a, &b, &c];
        t.sort();
        if t[0] > t[1] || t[1] > t[2] || t[0] > t[2] || (t[0] == t[2]) != (t[0] == t[1] && t[1] == t[2]) {
            return Err(format!("the order is not total: {:?} {:?} {:?}", t[0], t[1], t[2]));
        }
    }
    if eq && hash(&a) != hash(&b) {
        return Err(format!("equal sets {:?} hash differently", am));
    }
    for (s, m) in [(&a, &am), (&b, &bm)] {
        let w: BTreeSet<E<N>> = m.iter().map(|&x| E(x)).collect();
        if format!("{:?}", s) != format!("{:?}", w) || format!("{:#?}", s) != format!("{:#?}", w) {
            return Err(format!("{:?} prints as {:?}", w, s));
        }
    }
    // the underlying bit set and back
    let inner: BTreeSet<usize> = a.get_ref().iter().collect();
    if inner != am {
        return Err(format!("get_ref() has {:?} for {:?}", inner, am));
    }
    let c = EnumSet::<E<N>>::from_bit_set(a.clone().into_bit_set());
    agrees("after converting to the bit set and back", &c, &am)?;
    if c != a || hash(&c) != hash(&a) {
        return Err(format!("{:?} converted to the bit set and back is {:?}", am, c));
    }
    // clones
    let mut c = a.clone();
    if c != a || hash(&c) != hash(&a) || format!("{:?}", c) != format!("{:?}", a) {
        return Err(format!("the clone of {:?} is {:?}", am, c));
    }
    let flip = src.chance(1, 2);
    let (chg, keep) = if flip { (&mut a, &c) } else { (&mut c, &a) };
    let mut cm = am.clone();
    for _ in 0..src.below(4) {
        let _ = step::<N>(src, cx, chg, &mut cm);
        agrees(if flip { "clone, after changing the original" } else { "original, after changing the clone" }, keep, &am)?;
    }
    Ok(())
}

// P16 for sets: only valid numbers are decoded, only values present are handed out
fn p16n<const N: usize>(src: &mut Src, cx: &mut Cx) -> Case {
    elem::take_bad();
    cx.log(|| format!("EnumSet of a type of {} values", N));
    let mut s: EnumSet<E<N>> = EnumSet::new();
    let mut m = Model::new();
    let d0 = elem::decodes();
    let mut n = 0;
    while n < 40 && src.more(8) {
        n += 1;
        if src.chance(1, 10) {
            // a foreign bit set: it may name values the type does not have; refusing is fine
            let mut b = bit_set::BitSet::new();
            for _ in 0..src.below(5) {
                b.insert(src.below(N.min(TOP).saturating_add(40)));
            }
            cx.log(|| format!("from_bit_set({:?})", b));
            if let Ok(x) = catch(|| EnumSet::from_bit_set(b)) {
                s = x;
            }
        } else {
            let _ = catch(|| step::<N>(src, cx, &mut s, &mut m));
        }
        let o: EnumSet<E<N>> = vals::<N>(src).into_iter().map(e).collect();
        let r = catch(|| {
            let lim = N.saturating_mul(3).saturating_add(100);
            let mut all: Vec<E<N>> = vec![];
            all.extend(s.iter().take(lim));
            all.extend(s.union(&o).take(lim));
            all.extend(s.intersection(&o).take(lim));
            all.extend(s.difference(&o).take(lim));
            all.extend(o.difference(&s).take(lim));
            all.extend(s.symmetric_difference(&o).take(lim));
            let _ = format!("{:?}", s);
            all
        });
        if let Some((x, n)) = elem::take_bad() {
            return Err(format!("the number {} was decoded by a type of {} values", x, n));
        }
        let _ = r;
    }
    cx.nontrivial = elem::decodes() > d0 + 2;
    Ok(())
}

// P27 for sets: memory in proportion to the greatest value, and all of it is given back
fn p27n<const N: usize>(src: &mut Src, cx: &mut Cx) -> Case {
    cx.log(|| format!("EnumSet of a type of {} values", N));
    cx.label("set");
    // a history, and what it must be like
    fn history<const N: usize>(src: &mut Src, cx: &mut Cx) -> Case {
        DRAWN.with(|d| d.set((400, 0)));
        let mut s: EnumSet<E<N>> = EnumSet::new();
        let mut o: EnumSet<E<N>> = EnumSet::default();
        let (mut m, mut om) = (Model::new(), Model::new());
        let mut n = 0;
        while n < 40 && src.more(8) {
            n += 1;
            let k = src.below(8);
            if k < 5 {
                let _ = step::<N>(src, cx, &mut s, &mut m);
            } else if k == 5 {
                let _ = step::<N>(src, cx, &mut o, &mut om);
            } else if k == 6 {
                cx.log(|| "let o = s.clone(); swap".into());
                o = s.clone();
                om = m.clone();
                std::mem::swap(&mut s, &mut o);
            } else {
                cx.log(|| "shrink_to_fit()".into());
                s.shrink_to_fit();
                let most = s.get_ref().iter().max().map_or(0, |x| x + 1);
                let cap = s.get_ref().capacity();
                if cap > most + 256 {
                    return Err(format!("after shrink_to_fit a set of values below {} has room for values up to {}", most, cap));
                }
            }
            let (most, _) = DRAWN.with(|d| d.get());
            for x in [&s, &o] {
                let cap = x.get_ref().capacity();
                if cap > 4 * most + 1024 {
                    return Err(format!("no value above {} was ever used, yet a set has room for {} values", most, cap));
                }
            }
            let mut u = s.union(&o);
            u.next();
            let mut d = s.symmetric_difference(&o);
            d.next();
        }
        cx.nontrivial = n >= 3 && DRAWN.with(|d| d.get().1) > 1;
        Ok(())
    }
    history::<N>(src, cx)?;
    if src.chance(1, 3) {
        // many small steps
        let top = N.min(1 << 16);
        let by = src.range(1, 40);
        cx.log(|| format!("insert 0, {}, {}...", by, 2 * by));
        let mut s: EnumSet<E<N>> = EnumSet::new();
        let calls = vt::guard::calls();
        for x in (0..top).step_by(by) {
            s.insert(e(x));
        }
        let calls = vt::guard::calls() - calls;
        let allowed = 16 + 6 * (usize::BITS - (top / 32 + 1).leading_zeros()) as u64;
        if calls > allowed {
            return Err(format!("inserting the multiples of {} below {} in order asked for memory {} times, more than {}", by, top, calls, allowed));
        }
        cx.label("set-grows");
    }
    if cfg!(feature = "guard") {
        let rec = src.rec.clone();
        let before = vt::guard::live();
        let r = {
            let mut again = Src::replay(rec.clone());
            let mut cx = Cx::new(false);
            history::<N>(&mut again, &mut cx).is_ok()
        };
        let after = vt::guard::live();
        if r && after != before {
            return Err(format!("all sets are gone, yet {} bytes were not given back", after - before));
        }
    }
    Ok(())
}

// P28 for sets: processor time
fn p28(src: &mut Src, cx: &mut Cx) -> Case {
    const N: usize = 1 << (usize::BITS / 8 * 5);
    type S = EnumSet<E<N>>;
    cx.log(|| format!("EnumSet of a type of {} values", N));
    cx.nontrivial = true;
    if src.chance(2, 3) {
        // 8 MB or more
        let top = (1 << 26) + src.below(1 << 20);
        let mut s: S = [0, 1, 2, 77, top, top - 5].iter().map(|&x| e(x)).collect();
        let x = src.edgy(top, &[0, 1, top / 2, top - 1, top, 31, 32]);
        let n = 1 + src.below(6);
        for _ in 0..n {
            let k = src.below(5);
            let name = ["contains", "insert", "remove", "iter().next()", "size_hint"][k];
            cx.log(|| format!("{}({}), greatest value {}", name, x, top));
            let mut t = u64::MAX;
            let mut tries = 0;
            while t > 60_000 && tries < 12 {
                tries += 1;
                let t0 = cpu();
                match k {
                    0 => drop(s.contains(e(x))),
                    1 => drop(s.insert(e(x))),
                    2 => drop(s.remove(e(x))),
                    3 => drop(s.iter().next()),
                    _ => drop(s.iter().size_hint()),
                }
                t = t.min(cpu() - t0);
                s.insert(e(0));
                s.insert(e(top));
            }
            if t > 60_000 {
                return Err(format!("{}({}) on a set with values up to {} took {} microseconds of processor time or more in {} attempts", name, x, top, t / 1000, tries));
            }
        }
        cx.label("constant");
        return Ok(());
    }
    const LINEAR: [&str; 21] = [
        "collect", "extend", "union_with", "intersect_with", "difference_with", "symmetric_difference_with", "union()", "intersection()", "difference()",
        "symmetric_difference()", "len", "is_empty", "clear", "is_disjoint", "is_subset", "is_superset", "clone and ==", "hash", "Debug", "iter()", "insert and remove all",
    ];
    let k = src.below(LINEAR.len());
    let by = *src.pick(&[1usize, 2, 7, 100]);
    let short = 2000 + src.below(3000);
    let long = 256 * short;
    cx.log(|| format!("{} on all multiples of {} below {} and below {}", LINEAR[k], by, short, long));
    cx.label("linear");
    let run = |n: usize| -> u64 {
        let v: Vec<E<N>> = (0..n).step_by(by).map(E).collect();
        let mut a: S = v.iter().copied().collect();
        let mut b: S = v.iter().copied().filter(|x| x.0 % 3 != 1).collect();
        let t = cpu();
        match k {
            0 => drop(v.iter().copied().collect::<S>()),
            1 => b.extend(v.iter().copied()),
            2 => a.union_with(&b),
            3 => a.intersect_with(&b),
            4 => a.difference_with(&b),
            5 => a.symmetric_difference_with(&b),
            6 => drop(a.union(&b).count()),
            7 => drop(a.intersection(&b).count()),
            8 => drop(a.difference(&b).count()),
            9 => drop(a.symmetric_difference(&b).count()),
            10 => drop(a.len()),
            11 => drop(a.is_empty()),
            12 => a.clear(),
            13 => drop(a.is_disjoint(&b)),
            14 => drop(b.is_subset(&a)),
            15 => drop(a.is_superset(&b)),
            16 => drop(a.clone() == b),
            17 => drop(hash(&a)),
            18 => drop(format!("{:?}", a)),
            19 => drop(a.iter().count()),
            _ => {
                for &x in &v {
                    b.insert(x);
                }
                for &x in &v {
                    b.remove(x);
                }
            }
        }
        cpu() - t
    };
    let a = run(short);
    let limit = 40 * 256 * a.max(3000);
    let mut t = u64::MAX;
    let mut tries = 0;
    while t > limit && tries < 6 {
        tries += 1;
        t = t.min(run(long));
    }
    if t > limit {
        return Err(format!(
            "{} on the multiples of {} took {} microseconds below {}, but {} below 256 times that: more than 40 times what proportional cost would be",
            LINEAR[k], by, a as f64 / 1e3, short, t as f64 / 1e3
        ));
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: &dyn Hasher) {}

fn main() {
    vt::engine::main(&[("P13", p13), ("P23", p23), ("P24", p24), ("P25", p25), ("P16", p16), ("P27", p27), ("P28", p28)]);
}
