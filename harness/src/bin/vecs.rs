//! Properties of the packed vectors.
use std::collections::BTreeSet;
use std::sync::OnceLock;
use vt::dynvec::*;
use vt::elem;
use vt::engine::*;
use vt::ops::*;

#[cfg(feature = "guard")]
#[global_allocator]
static GUARD: vt::guard::Guard = vt::guard::Guard;

fn reg() -> &'static [Box<dyn Factory>] {
    static R: OnceLock<Vec<Box<dyn Factory>>> = OnceLock::new();
    R.get_or_init(registry)
}

fn big_one_in(n: u64) {
    BIG_ONE_IN.store(n, std::sync::atomic::Ordering::Relaxed);
}

fn start(src: &mut Src, cx: &mut Cx) -> (&'static dyn Factory, Gen) {
    let f = &*reg()[src.below(reg().len())];
    let g = Gen::new(src, f.info());
    let i = f.info();
    cx.label(i.storage);
    if g.big {
        cx.label("big");
    }
    if i.block % i.width != 0 {
        cx.label("wasted-bits");
    } else if i.width == i.block {
        cx.label("width=block");
    }
    cx.log(|| format!("{}::EnumVec, {} variants ({} bits, {} per block)", i.storage, i.n, i.width, i.k));
    (f, g)
}

/// Applies op to both and compares outcome and contents.
fn judged(f: &dyn Factory, v: &mut Box<dyn DynVec>, m: &mut Vec<u64>, op: &Op, cx: &mut Cx, full: bool) -> Case {
    cx.log(|| format!("v: {:?}", op));
    let want = apply_model(f, m, op);
    let got = apply_real(f, v, op);
    if got != want {
        return Err(format!("{:?} returned {:?}, a Vec gives {:?}", op, got, want));
    }
    if full || m.len() <= 40 {
        check_same(&|| format!("after {:?}", op), &**v, m)
    } else if v.len() != m.len() {
        Err(format!("after {:?}: length is {}, a Vec has {}", op, v.len(), m.len()))
    } else {
        Ok(())
    }
}

/// Applies op without judging it; the model becomes what `get` shows. False: give the case up.
fn unjudged(f: &dyn Factory, v: &mut Box<dyn DynVec>, m: &mut Vec<u64>, op: &Op, cx: &mut Cx) -> bool {
    cx.log(|| format!("v: {:?} (not judged)", op));
    let _ = apply_real(f, v, op);
    match contents(&**v) {
        Ok(c) if c.len() < 1 << 19 => {
            *m = c;
            true
        }
        _ => {
            cx.discarded = true;
            false
        }
    }
}

const CORE: &[(usize, u32)] = &[
    (P_PUSH, 6), (P_POP, 4), (P_GET, 2), (P_SET, 5), (P_SWAP, 4), (P_SWAPREM, 4), (P_INSERT, 4), (P_REMOVE, 4), (P_TRUNC, 3),
    (P_CLEAR, 1), (P_RESIZE, 4), (P_RETAIN, 3), (P_FOREACH, 3), (P_LEN, 1), (P_TOVEC, 1),
];
const SHAPE: &[(usize, u32)] = &[
    (P_RESERVE, 2), (P_SHRINK, 2), (P_EXTEND, 2), (P_APPEND, 2), (P_SPLIT, 2), (P_CLONE, 1), (P_REBUILD, 2), (P_TRUNC, 2), (P_CLONEFROM, 1),
];

// P01: histories of the listed operations against Vec
fn p01(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let w = swarm(src, CORE);
    let sw = swarm(src, SHAPE);
    let mut v = f.new();
    let mut m = vec![];
    if src.chance(1, 2) {
        let c = Op::Rebuild(g.ctor(src));
        if !unjudged(f, &mut v, &mut m, &c, cx) {
            return Ok(());
        }
    }
    let mean = *src.pick(&[6u64, 20, 60]);
    let mut judged_ops = 0;
    let mut mutating = 0;
    let (mut lo, mut hi) = (m.len(), m.len());
    while judged_ops < 300 && src.more(mean) {
        if src.chance(1, 12) {
            let op = g.op(src, m.len(), &sw);
            if !unjudged(f, &mut v, &mut m, &op, cx) {
                return Ok(());
            }
        } else {
            let op = g.op(src, m.len(), &w);
            let before = m.len();
            let full = src.chance(1, 3);
            judged(f, &mut v, &mut m, &op, cx, full)?;
            judged_ops += 1;
            if !matches!(op, Op::Get(_) | Op::Len | Op::ToVec) && (before > 0 || !m.is_empty()) {
                mutating += 1;
            }
        }
        lo = lo.min(m.len());
        hi = hi.max(m.len());
    }
    cx.nontrivial = mutating >= 4 && hi > g.k;
    check_same(&|| "at the end".into(), &*v, &m)?;
    // same through the other readers
    if v.to_vec() != m {
        return Err(format!("to_vec() gives {:?}, a Vec has {:?}", L(v.to_vec()), L(m)));
    }
    for i in [m.len(), m.len() + 1] {
        if v.get(i).is_some() {
            return Err(format!("get({}) is {:?} at length {}", i, v.get(i), m.len()));
        }
    }
    Ok(())
}

// P02: insert and remove
fn p02(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((mut v, mut m)) = junk_vec(src, cx, f, &g, 5) else { return Ok(()) };
    let mut n = 0;
    let mut shifted = false;
    while n < 60 && src.more(6) {
        n += 1;
        match src.weighted(&[4, 4, 2, 1]) {
            0 => {
                let i = g.pos(src, m.len());
                let op = Op::Insert(i, g.val(src));
                shifted |= i < m.len();
                judged(f, &mut v, &mut m, &op, cx, true)?;
            }
            1 if !m.is_empty() => {
                let i = g.pos(src, m.len() - 1);
                shifted |= i + 1 < m.len();
                judged(f, &mut v, &mut m, &Op::Remove(i), cx, true)?;
            }
            2 => {
                let i = g.pos(src, m.len());
                let x = g.val(src);
                shifted |= i < m.len();
                judged(f, &mut v, &mut m, &Op::Insert(i, x), cx, true)?;
                judged(f, &mut v, &mut m, &Op::Remove(i), cx, true)?;
            }
            _ => {
                const W: &[(usize, u32)] = &[
                    (P_TRUNC, 2), (P_POP, 1), (P_PUSH, 1), (P_RESIZE, 2), (P_SHRINK, 1), (P_RESERVE, 1), (P_CLONE, 1), (P_SET, 1), (P_EXTEND, 1),
                ];
                let mut w = vec![0; KINDS];
                W.iter().for_each(|&(k, x)| w[k] = x);
                let op = g.op(src, m.len(), &w);
                if !unjudged(f, &mut v, &mut m, &op, cx) {
                    return Ok(());
                }
            }
        }
    }
    cx.nontrivial = n >= 1 && shifted;
    Ok(())
}

// P03: construction, extend, resize
fn p03(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let (mut v, mut m);
    let mut grown = 0;
    if src.chance(1, 2) {
        v = f.new();
        m = vec![];
        let op = Op::Rebuild(g.ctor(src));
        judged(f, &mut v, &mut m, &op, cx, true)?;
        grown += m.len();
    } else {
        match junk_vec(src, cx, f, &g, 4) {
            Some((a, b)) => {
                v = a;
                m = b;
            }
            None => return Ok(()),
        }
    }
    let mut n = 0;
    while n < 20 && src.more(3) {
        n += 1;
        const GROW: &[(usize, u32)] = &[(P_EXTEND, 4), (P_RESIZE, 4), (P_EXTITER, 1), (P_EXTOWN, 1), (P_REBUILD, 1), (P_BADHINT, 1)];
        const NOISE: &[(usize, u32)] =
            &[(P_TRUNC, 3), (P_CLEAR, 1), (P_POP, 1), (P_PUSH, 1), (P_SHRINK, 1), (P_RESERVE, 1), (P_SPLIT, 1), (P_APPEND, 1), (P_REMOVE, 1)];
        let mut w = vec![0; KINDS];
        if src.chance(1, 3) {
            NOISE.iter().for_each(|&(k, x)| w[k] = x);
            let op = g.op(src, m.len(), &w);
            if !unjudged(f, &mut v, &mut m, &op, cx) {
                return Ok(());
            }
        } else {
            GROW.iter().for_each(|&(k, x)| w[k] = x);
            let mut op = g.op(src, m.len(), &w);
            if matches!(op, Op::Extend(_, Hint::Panics)) {
                op = Op::Extend(L(vec![]), Hint::Zero);
            }
            let b = m.len();
            judged(f, &mut v, &mut m, &op, cx, true)?;
            grown += m.len().saturating_sub(b);
        }
    }
    cx.nontrivial = grown > g.k;
    Ok(())
}

/// Applies the same operations to `v` and to a freshly built vector of the same contents; any
/// difference is reported (a wrong operation that is wrong in both is not this caller's matter).
fn same_as_fresh(src: &mut Src, cx: &mut Cx, f: &dyn Factory, g: &Gen, what: &str, v: &mut Box<dyn DynVec>, m: &[u64]) -> Case {
    const W: &[(usize, u32)] = &[
        (P_PUSH, 4), (P_POP, 2), (P_SET, 2), (P_INSERT, 2), (P_REMOVE, 2), (P_TRUNC, 1), (P_RESIZE, 3), (P_RETAIN, 1), (P_FOREACH, 1),
        (P_EXTEND, 3), (P_EXTITER, 1), (P_APPEND, 2), (P_SPLIT, 2), (P_RESERVE, 1), (P_SHRINK, 1), (P_CLONE, 3), (P_ANY, 2), (P_ALL, 1),
        (P_DEBUG, 1), (P_EQ, 1), (P_TOVEC, 1), (P_CLEAR, 1),
    ];
    let mut fresh = f.new();
    for &x in m {
        fresh.push(x);
    }
    if contents(&*fresh).as_deref() != Ok(m) {
        cx.discarded = true;
        return Ok(());
    }
    let w = swarm(src, W);
    let mut len = m.len();
    for _ in 0..src.below(6) {
        let op = g.op(src, len, &w);
        cx.log(|| format!("{}: {:?}", what, op));
        let a = apply_real(f, &mut fresh, &op);
        let b = apply_real(f, v, &op);
        if a != b {
            return Err(format!("{}: {:?} returned {:?}, on an ordinary vector of the same elements {:?}", what, op, b, a));
        }
        match contents(&*fresh) {
            Ok(c) => {
                check_same(&|| format!("{} (compared with an ordinary vector) after {:?}", what, op), &**v, &c)?;
                len = c.len();
            }
            Err(_) => {
                cx.discarded = true;
                return Ok(());
            }
        }
        if a == Out::Panic {
            break;
        }
    }
    Ok(())
}

// P04: append and split_off
fn p04(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((mut v, mut m)) = junk_vec(src, cx, f, &g, 5) else { return Ok(()) };
    let mut moved = 0;
    let mut n = 0;
    while n < 12 && (n == 0 || src.more(2)) {
        n += 1;
        if src.chance(1, 2) {
            let mut o = f.new();
            let mut om = vec![];
            if src.chance(1, 2) {
                let spec = g.other(src, g.cap);
                om = spec.items.0.clone();
                cx.log(|| format!("let mut o = {:?}", spec));
                match catch(|| spec.make(f)) {
                    Ok(x) => o = x,
                    Err(_) => {
                        cx.discarded = true;
                        return Ok(());
                    }
                }
                if contents(&*o).as_ref() != Ok(&om) {
                    cx.discarded = true;
                    return Ok(());
                }
            } else if let Some((a, b)) = junk_vec(src, cx, f, &g, 3) {
                o = a;
                om = b;
            } else {
                return Ok(());
            }
            moved += om.len();
            cx.log(|| format!("v.append(&mut o)    // {} + {} elements", m.len(), om.len()));
            let had = m.len();
            catch(|| v.append(&mut *o)).map_err(|e| format!("append of {} to {} elements panicked: {}", om.len(), had, e))?;
            m.extend_from_slice(&om);
            check_same(&|| format!("receiver after append of {} to {} elements", om.len(), had), &*v, &m)?;
            if !o.is_empty() || !o.is_empty() || o.get(0).is_some() {
                return Err(format!("after append the other vector has {} elements, get(0) = {:?}", o.len(), o.get(0)));
            }
            match src.below(3) {
                0 => {
                    same_as_fresh(src, cx, f, &g, "emptied other", &mut o, &[])?;
                    check_same(&|| "receiver, after using the emptied other vector".to_string(), &*v, &m)?;
                }
                1 => {
                    let mut c = v;
                    same_as_fresh(src, cx, f, &g, "receiver", &mut c, &m)?;
                    v = c;
                    match contents(&*v) {
                        Ok(x) if x.len() < 1 << 19 => m = x,
                        _ => return Ok(()),
                    }
                    if !o.is_empty() {
                        return Err(format!("using the receiver gave the emptied vector {} elements", o.len()));
                    }
                }
                _ => {}
            }
        } else {
            let at = g.pos(src, m.len());
            cx.log(|| format!("let mut t = v.split_off({})    // of {}", at, m.len()));
            let mut t = catch(|| v.split_off(at)).map_err(|e| format!("split_off({}) of {} elements panicked: {}", at, m.len(), e))?;
            let mut tm = m.split_off(at);
            moved += tm.len();
            check_same(&|| format!("first part after split_off({})", at), &*v, &m)?;
            check_same(&|| format!("second part after split_off({})", at), &*t, &tm)?;
            match src.below(4) {
                0 => {
                    let mut tail = t;
                    same_as_fresh(src, cx, f, &g, "split-off part", &mut tail, &tm)?;
                    check_same(&|| "first part, after using the second".to_string(), &*v, &m)?;
                }
                1 => {
                    same_as_fresh(src, cx, f, &g, "first part", &mut v, &m)?;
                    check_same(&|| "second part, after using the first".to_string(), &*t, &tm)?;
                    match contents(&*v) {
                        Ok(x) if x.len() < 1 << 19 => m = x,
                        _ => return Ok(()),
                    }
                }
                2 => {
                    cx.log(|| "v.append(&mut t)".into());
                    catch(|| v.append(&mut *t)).map_err(|e| format!("appending the split-off part panicked: {}", e))?;
                    m.append(&mut tm);
                    check_same(&|| format!("after split_off({}) and appending the part again", at), &*v, &m)?;
                    if !t.is_empty() {
                        return Err(format!("after append the other vector has {} elements", t.len()));
                    }
                }
                _ => {
                    v = t;
                    m = tm;
                }
            }
        }
        if m.len() > 3 * g.cap {
            m.truncate(g.k + 1);
            v.truncate(g.k + 1);
        }
    }
    cx.nontrivial = moved > 0;
    Ok(())
}

// P05: any and all
fn p05(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((mut v, mut m)) = junk_vec(src, cx, f, &g, 6) else { return Ok(()) };
    for round in 0..3 {
        if round > 0 {
            // a single change: the cases that just differ from uniform
            if m.is_empty() || !src.chance(2, 3) {
                break;
            }
            let op = match src.below(4) {
                0 => Op::Set(g.pos(src, m.len() - 1), value(src, g.n)),
                1 => Op::Truncate(g.pos(src, m.len())),
                2 => Op::ForEach(Map::Const(g.val(src))),
                _ => Op::Push(value(src, g.n)),
            };
            if !unjudged(f, &mut v, &mut m, &op, cx) {
                return Ok(());
            }
        }
        let mut q: Vec<u64> = g.pal.clone();
        q.push(value(src, g.n));
        q.push(value(src, g.n));
        for x in g.pal.clone() {
            for d in [1u64, 2, 3] {
                q.push(x.wrapping_add(d) % g.n as u64);
            }
            q.push(x ^ (1 << (width_of(g.n) - 1)));
        }
        q.push(0);
        q.push(g.n as u64 - 1);
        if let Some(&x) = m.last() {
            q.push(x);
            q.push(m[0]);
        }
        q.retain(|&x| x < g.n as u64);
        q.sort();
        q.dedup();
        for x in q {
            let any = catch(|| v.any(x)).map_err(|e| format!("any({}) panicked: {}", x, e))?;
            if any != m.contains(&x) {
                return Err(format!("any({}) is {} on {:?}", x, any, L(m)));
            }
            let all = catch(|| v.all(x)).map_err(|e| format!("all({}) panicked: {}", x, e))?;
            if all != m.iter().all(|&y| y == x) {
                return Err(format!("all({}) is {} on {:?}", x, all, L(m)));
            }
            if any && all && m.len() > g.k {
                cx.label("all-true");
            }
        }
        cx.nontrivial |= m.len() > 1;
    }
    Ok(())
}

// P06: equality, hash, Debug, clones
fn p06(src: &mut Src, cx: &mut Cx) -> Case {
    big_one_in(16000);
    let (f, g) = start(src, cx);
    let Some((mut a, am)) = junk_vec(src, cx, f, &g, 5) else { return Ok(()) };
    let Some((mut b, mut bm)) = junk_vec(src, cx, f, &g, 5) else { return Ok(()) };
    // bring b to a's contents, then perhaps away again by one step
    match src.below(4) {
        0 => {}
        1 => {
            b.clear();
            for &x in &am {
                b.push(x);
            }
        }
        2 => {
            let n = am.len();
            b.truncate(n);
            for i in 0..n {
                if i < b.len() {
                    b.set(i, am[i]);
                } else {
                    b.push(am[i]);
                }
            }
        }
        _ => {
            b.clear();
            let x = g.val(src);
            b.resize(am.len(), x);
            let mut i = 0;
            let am2 = am.clone();
            b.for_each(&mut |_| {
                i += 1;
                am2[i - 1]
            });
        }
    }
    cx.log(|| "b := a's elements".into());
    match contents(&*b) {
        Ok(c) => bm = c,
        Err(_) => {
            cx.discarded = true;
            return Ok(());
        }
    }
    let step = src.below(5);
    match step {
        1 if !bm.is_empty() => {
            let i = g.pos(src, bm.len() - 1);
            b.set(i, value(src, g.n));
        }
        2 => b.push(*src.pick(&[0, g.pal[0]])),
        3 if !bm.is_empty() => {
            b.pop();
        }
        4 if !bm.is_empty() => {
            // and back
            let x = b.pop().unwrap_or(0);
            b.push(x);
        }
        _ => {}
    }
    match contents(&*b) {
        Ok(c) => bm = c,
        Err(_) => {
            cx.discarded = true;
            return Ok(());
        }
    }
    let eq = am == bm;
    cx.log(|| format!("a = {:?}; b = {:?}", L(am.clone()), L(bm.clone())));
    cx.label(if eq { "equal-pair" } else { "unequal-pair" });
    cx.nontrivial = am.len() > 1;
    let pairs: [(&dyn DynVec, &dyn DynVec, &str); 2] = [(&*a, &*b, "a == b"), (&*b, &*a, "b == a")];
    for (x, y, s) in pairs {
        if x.eq_dyn(y) != eq || x.ne_dyn(y) == eq {
            return Err(format!("{} is {} for a = {:?}, b = {:?}", s, x.eq_dyn(y), L(am), L(bm)));
        }
    }
    if eq && (a.hash_bytes() != b.hash_bytes() || a.hash_std() != b.hash_std()) {
        return Err(format!("two vectors {:?} hash differently", L(am)));
    }
    for (v, m) in [(&a, &am), (&b, &bm)] {
        for alt in [false, true] {
            let d = v.debug(alt);
            let w = f.model_debug(m, alt);
            if d != w {
                return Err(format!("prints as {} instead of {}", d, w));
            }
        }
    }
    // clones
    let mut c = if src.chance(1, 2) {
        cx.log(|| "c = a.clone()".into());
        a.clone_box()
    } else {
        cx.log(|| "c = b; c.clone_from(&a)".into());
        let mut c = b;
        c.clone_from_dyn(&*a);
        c
    };
    check_same(&|| "clone".into(), &*c, &am)?;
    check_same(&|| "original after cloning".into(), &*a, &am)?;
    if !c.eq_dyn(&*a) || c.hash_bytes() != a.hash_bytes() || c.debug(false) != a.debug(false) {
        return Err(format!("a clone of {:?} is not equal to, hashes or prints unlike its original", L(am)));
    }
    let change_clone = src.chance(1, 2);
    const W: &[(usize, u32)] = &[
        (P_PUSH, 3), (P_POP, 1), (P_SET, 3), (P_SWAP, 1), (P_INSERT, 1), (P_REMOVE, 1), (P_TRUNC, 1), (P_CLEAR, 1), (P_RESIZE, 2),
        (P_FOREACH, 2), (P_EXTEND, 2), (P_APPEND, 1), (P_SHRINK, 1), (P_RESERVE, 1),
    ];
    let w = swarm(src, W);
    let (chg, keep, name) = if change_clone { (&mut c, &a, "original") } else { (&mut a, &c, "clone") };
    for _ in 0..src.below(5) {
        let len = chg.len();
        if len > 1 << 19 {
            break;
        }
        let op = g.op(src, len, &w);
        cx.log(|| format!("the other one: {:?}", op));
        let o = apply_real(f, chg, &op);
        check_same(&|| format!("{} after {:?} on the other", name, op), &**keep, &am)?;
        if o == Out::Panic {
            break;
        }
    }
    // a clone is an ordinary vector
    same_as_fresh(src, cx, f, &g, "clone", &mut keep.clone_box(), &am)
}

// P07: iterators
fn p07(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((v, m)) = junk_vec(src, cx, f, &g, 4) else { return Ok(()) };
    if v.to_vec() != m {
        return Err(format!("to_vec() gives {:?} for {:?}", L(v.to_vec()), L(m)));
    }
    if src.chance(1, 8) {
        let r = v.into_vec();
        if r != m {
            return Err(format!("converting into a Vec gives {:?} for {:?}", L(r), L(m)));
        }
        return Ok(());
    }
    let kind = src.below(3);
    cx.log(|| format!("let mut it = {} over {:?}", ["v.iter()", "(&v).into_iter()", "v.into_iter()"][kind], L(m.clone())));
    let keep;
    let mut it: Box<dyn DynIter + '_> = match kind {
        0 => {
            keep = v;
            keep.iter()
        }
        1 => {
            keep = v;
            keep.ref_into_iter()
        }
        _ => v.into_iter(),
    };
    let mut w = m.clone().into_iter();
    let mut steps = 0;
    let mut both = 0u8;
    while steps < 60 && src.more(5) {
        steps += 1;
        let left = w.len();
        let h = it.size_hint();
        if h != (left, Some(left)) || it.len() != left {
            return Err(format!("size_hint() is {:?}, len() is {} with {} left", h, it.len(), left));
        }
        let (what, a, b) = match src.weighted(&[4, 4, 3, 3, 1]) {
            0 => {
                both |= 1;
                ("next()".to_string(), it.next(), w.next())
            }
            1 => {
                both |= 2;
                ("next_back()".to_string(), it.next_back(), w.next_back())
            }
            2 => {
                both |= 1;
                let n = nth_arg(src, &g, left);
                (format!("nth({})", n), it.nth(n), w.nth(n))
            }
            3 => {
                both |= 2;
                let n = nth_arg(src, &g, left);
                (format!("nth_back({})", n), it.nth_back(n), w.nth_back(n))
            }
            _ => {
                let x = g.val(src);
                if src.chance(1, 2) {
                    let (p, q) = (it.position(x), w.position(|y| y == x));
                    (format!("position({})", x), p.map(|x| x as u64), q.map(|x| x as u64))
                } else {
                    let (p, q) = (it.rposition(x), w.rposition(|y| y == x));
                    (format!("rposition({})", x), p.map(|x| x as u64), q.map(|x| x as u64))
                }
            }
        };
        cx.log(|| format!("it.{} -> {:?}", what, a));
        if a != b {
            return Err(format!("{} with {} of {} left gives {:?}, a Vec's iterator {:?}", what, left, m.len(), a, b));
        }
    }
    let left = w.len();
    let h = it.size_hint();
    if h != (left, Some(left)) || it.len() != left {
        return Err(format!("size_hint() is {:?}, len() is {} with {} left", h, it.len(), left));
    }
    cx.nontrivial = m.len() > 1 && steps > 0;
    if both == 3 {
        cx.label("both-ends");
    }
    let rest: Vec<u64> = w.clone().collect();
    let lim = m.len() + 4;
    let fin = src.below(12);
    cx.log(|| format!("finish by {}", ["next", "next_back", "count", "last", "for", "rev", "collect", "fold", "skip", "step_by", "eq", "max"][fin]));
    let bad = |what: &str, a: String| Err(format!("{} with {:?} left gives {}", what, L(rest.clone()), a));
    match fin {
        0 => {
            for x in &rest {
                if it.next() != Some(*x) {
                    return bad("next() to the end", "something else".into());
                }
            }
            for _ in 0..3 {
                if it.next().is_some() || it.next_back().is_some() || it.len() != 0 {
                    return bad("after the end, next()", "an element".into());
                }
            }
        }
        1 => {
            for x in rest.iter().rev() {
                if it.next_back() != Some(*x) {
                    return bad("next_back() to the end", "something else".into());
                }
            }
            for _ in 0..3 {
                if it.next_back().is_some() || it.next().is_some() || it.nth(0).is_some() || it.len() != 0 {
                    return bad("after the end, next()", "an element".into());
                }
            }
        }
        2 => {
            let n = it.count();
            if n != rest.len() {
                return bad("count()", n.to_string());
            }
        }
        3 => {
            let x = it.last();
            if x != rest.last().copied() {
                return bad("last()", format!("{:?}", x));
            }
        }
        4 => {
            let x = it.rest(lim);
            if x != rest {
                return bad("a for loop", format!("{:?}", L(x)));
            }
        }
        5 => {
            let mut x = it.rest_rev(lim);
            x.reverse();
            if x != rest {
                return bad("rev()", format!("(reversed) {:?}", L(x)));
            }
        }
        6 => {
            let x = it.collect();
            if x != rest {
                return bad("collect()", format!("{:?}", L(x)));
            }
        }
        7 => {
            if it.fold() != rest.iter().fold(1, |a, &x| fold_step(a, x)) {
                return bad("fold()", "something else".into());
            }
        }
        8 => {
            let n = nth_arg(src, &g, left);
            let x = it.skip(n, lim);
            if x != rest.iter().copied().skip(n).collect::<Vec<_>>() {
                return bad(&format!("skip({})", n), format!("{:?}", L(x)));
            }
        }
        9 => {
            let n = src.range(1, 2 * g.k + 2);
            let x = it.step_by(n, lim);
            if x != rest.iter().copied().step_by(n).collect::<Vec<_>>() {
                return bad(&format!("step_by({})", n), format!("{:?}", L(x)));
            }
        }
        10 => {
            if !it.eq(&rest) {
                return bad("eq()", "false".into());
            }
        }
        _ => {
            let x = it.min_max();
            if x != (rest.len(), rest.iter().copied().max()) {
                return bad("(len, max)", format!("{:?}", x));
            }
        }
    }
    Ok(())
}
fn nth_arg(src: &mut Src, g: &Gen, left: usize) -> usize {
    match src.weighted(&[6, 2, 1]) {
        0 => g.pos(src, left),
        1 => left + src.below(g.k + 2),
        _ => usize::MAX - src.below(left + 3),
    }
}

/// The number of elements a vector of `len` elements is asked to hold or reserve by `op`.
fn asked(op: &Op, len: usize) -> usize {
    match op {
        Op::Reserve(n) => len + n,
        Op::Resize(n, _) => *n,
        Op::Extend(l, _) => len + l.0.len(),
        Op::ExtendIter(o) | Op::ExtendOwn(o) | Op::Append(o) | Op::CloneFrom(o) => {
            len + o.items.0.len().max(o.items.0.len() + o.junk.0.len()) + o.reserve
        }
        Op::Rebuild(c) => match c {
            Ctor::WithCapacity(n) => *n,
            c => make_model(c).len(),
        },
        Op::Push(_) | Op::Insert(..) => len + 1,
        _ => len,
    }
}

// P08: density and proportional memory
fn p08(src: &mut Src, cx: &mut Cx) -> Case {
    big_one_in(16000);
    let (f, mut g) = start(src, cx);
    if !g.big {
        g.cap = (60 * g.k).clamp(200, 6000);
    }
    let k = g.k;
    let blocks = |n: usize| n.div_ceil(k);
    const W: &[(usize, u32)] = &[
        (P_PUSH, 3), (P_POP, 2), (P_INSERT, 2), (P_REMOVE, 1), (P_TRUNC, 3), (P_CLEAR, 1), (P_RESIZE, 4), (P_RETAIN, 1), (P_EXTEND, 4),
        (P_EXTITER, 1), (P_EXTOWN, 1), (P_APPEND, 3), (P_SPLIT, 2), (P_RESERVE, 3), (P_SHRINK, 3), (P_CLONE, 2), (P_CLONEFROM, 1), (P_REBUILD, 3),
    ];
    let w = swarm(src, W);
    let mut v = f.new();
    let mut peak = 0usize;
    let mut n = 0;
    let mut dense = 0;
    loop {
        let stop = n >= 40 || !src.more(8);
        let op = if stop { Op::Shrink } else { g.op(src, v.len(), &w) };
        n += 1;
        cx.log(|| format!("v: {:?}", op));
        peak = peak.max(asked(&op, v.len())).max(v.len());
        // pushing through a long operation one by one: repeat cheap pushes
        let times = if matches!(op, Op::Push(_)) { src.range(1, 2 * k.min(40)) } else { 1 };
        let split = match op {
            Op::SplitOff(at, tail) if 0 < at && at <= v.len() => Some((at, tail)),
            _ => None,
        };
        if let Some((at, tail)) = split {
            // the new vector never held more than its own elements (and may take over whole blocks)
            let part = v.len() - at;
            let stale = v.storage_len().saturating_sub(blocks(v.len()));
            let other = match catch(|| v.split_off(at)) {
                Ok(o) => o,
                Err(_) => {
                    cx.discarded = true;
                    return Ok(());
                }
            };
            let bound = 4 * blocks(part) + stale + 16;
            if other.storage_cap() > bound {
                return Err(format!("split_off({}) returned a vector of {} elements which reserves {} blocks; {} suffice", at, other.len(), other.storage_cap(), blocks(part)));
            }
            if tail {
                v = other;
                peak = part + stale * k;
            }
        } else {
            for _ in 0..times {
                if apply_real(f, &mut v, &op) == Out::Panic {
                    cx.discarded = true;
                    return Ok(());
                }
            }
        }
        let mut shrunk = op == Op::Shrink;
        if !stop && src.chance(1, 8) {
            shrunk = false;
            // the same few operations over and over: memory must not creep up
            let mut c = vec![op.clone()];
            for _ in 0..src.range(1, 3) {
                c.push(g.op(src, v.len(), &w));
            }
            let times = src.range(8, 120);
            cx.log(|| format!("{} times: {:?}", times, c));
            'cycle: for _ in 0..times {
                for op in &c {
                    peak = peak.max(asked(op, v.len()));
                    if v.len() > 4 * g.cap || apply_real(f, &mut v, op) == Out::Panic {
                        break 'cycle;
                    }
                    peak = peak.max(v.len());
                }
            }
        }
        if v.len() > 1 << 20 {
            cx.discarded = true;
            return Ok(());
        }
        peak = peak.max(v.len());
        let cap = v.storage_cap();
        let bound = 4 * blocks(peak) + 16;
        if cap > bound {
            return Err(format!(
                "after {:?} the vector of {} elements reserves {} blocks; it never held or was asked to hold more than {} elements ({} blocks)",
                op, v.len(), cap, peak, blocks(peak)
            ));
        }
        if v.capacity() / k > bound {
            return Err(format!("capacity() is {} with at most {} elements ever held or asked for", v.capacity(), peak));
        }
        if v.storage_len() * k < v.len() {
            return Err(format!("{} elements in {} blocks of {}", v.len(), v.storage_len(), k));
        }
        if shrunk {
            let need = blocks(v.len());
            if v.storage_len() != need {
                return Err(format!("after shrink_to_fit {} elements occupy {} blocks of {} elements, {} suffice", v.len(), v.storage_len(), k, need));
            }
            let inline = if f.info().storage == "smallvec_u32" { 4 } else { 0 };
            if cap > need.max(inline) {
                return Err(format!("after shrink_to_fit {} elements keep {} blocks reserved, {} suffice", v.len(), cap, need));
            }
            if v.len() > k {
                dense += 1;
            }
        }
        if stop {
            break;
        }
    }
    cx.nontrivial = dense > 0;
    Ok(())
}

// P09: capacity promises
fn p09(src: &mut Src, cx: &mut Cx) -> Case {
    big_one_in(16000);
    let (f, g) = start(src, cx);
    let (mut v, mut m);
    if src.chance(1, 2) {
        let n = g.count(src, g.cap);
        cx.log(|| format!("with_capacity({})", n));
        v = f.with_capacity(n);
        m = vec![];
        if v.capacity() < n {
            return Err(format!("with_capacity({}) has capacity {}", n, v.capacity()));
        }
        if v.len() != 0 {
            return Err(format!("with_capacity({}) has length {}", n, v.len()));
        }
    } else {
        match junk_vec(src, cx, f, &g, 4) {
            Some((a, b)) => {
                v = a;
                m = b;
            }
            None => return Ok(()),
        }
    }
    let mut n = 0;
    let mut filled = false;
    while n < 25 && src.more(6) {
        n += 1;
        let cap = v.capacity();
        if cap < v.len() {
            return Err(format!("capacity is {} at length {}", cap, v.len()));
        }
        match src.weighted(&[2, 1, 6, 2]) {
            0 => {
                let r = g.count(src, g.cap);
                cx.log(|| format!("v.reserve({})", r));
                catch(|| v.reserve(r)).map_err(|e| format!("reserve({}) at length {} panicked: {}", r, m.len(), e))?;
                check_same(&|| format!("after reserve({})", r), &*v, &m)?;
                if v.capacity() < m.len() + r {
                    return Err(format!("after reserve({}) at length {} the capacity is {}", r, m.len(), v.capacity()));
                }
            }
            1 => {
                cx.log(|| "v.shrink_to_fit()".into());
                catch(|| v.shrink_to_fit()).map_err(|e| format!("shrink_to_fit panicked: {}", e))?;
                check_same(&|| "after shrink_to_fit".to_string(), &*v, &m)?;
            }
            2 => {
                // grow within the capacity, often to its very end
                let room = cap - m.len();
                let ptr = v.storage_ptr();
                let by = if src.chance(1, 2) { room } else { g.count(src, room) };
                if by > if g.big { 1 << 19 } else { 5000 } {
                    continue;
                }
                filled |= by > 0 && by == room;
                let ops: Vec<Op> = match src.below(7) {
                    // one by one, the contents looked at after each
                    0 if by > 5000 => vec![Op::Extend(g.list_len(src, by), Hint::Exact)],
                    0 => g.list_len(src, by).0.into_iter().map(Op::Push).collect(),
                    1 => vec![Op::Extend(g.list_len(src, by), Hint::Exact)],
                    2 => vec![Op::Extend(g.list_len(src, by), g.hint(src))],
                    3 => vec![Op::Resize(m.len() + by, g.val(src))],
                    4 => {
                        let mut o = g.other(src, 0);
                        o.items = g.list_len(src, by);
                        vec![Op::Append(o)]
                    }
                    5 => {
                        let mut o = g.other(src, 0);
                        o.items = g.list_len(src, by);
                        vec![if src.chance(1, 2) { Op::ExtendIter(o) } else { Op::ExtendOwn(o) }]
                    }
                    _ => {
                        let i = g.pos(src, m.len());
                        g.list_len(src, by.min(40)).0.into_iter().map(|x| Op::Insert(i, x)).collect()
                    }
                };
                for op in &ops {
                    if !unjudged(f, &mut v, &mut m, op, cx) {
                        return Ok(());
                    }
                    if m.len() <= cap && v.storage_ptr() != ptr && cap > 0 {
                        return Err(format!("the capacity was {}, yet {:?} (now length {}) moved the elements", cap, op, m.len()));
                    }
                }
            }
            _ => {
                const W: &[(usize, u32)] = &[(P_TRUNC, 3), (P_POP, 1), (P_REMOVE, 1), (P_CLEAR, 1), (P_CLONE, 1), (P_SPLIT, 1), (P_APPEND, 1), (P_RESIZE, 1)];
                let mut w = vec![0; KINDS];
                W.iter().for_each(|&(k, x)| w[k] = x);
                let op = g.op(src, m.len(), &w);
                if !unjudged(f, &mut v, &mut m, &op, cx) {
                    return Ok(());
                }
            }
        }
        if v.capacity() < v.len() {
            return Err(format!("capacity is {} at length {}", v.capacity(), v.len()));
        }
    }
    if filled {
        cx.label("filled-to-capacity");
    }
    cx.nontrivial = n > 0 && (filled || m.len() > g.k);
    Ok(())
}

const SAFE: &[(usize, u32)] = &[
    (P_PUSH, 5), (P_POP, 3), (P_GET, 1), (P_SET, 3), (P_SWAP, 2), (P_SWAPREM, 2), (P_INSERT, 3), (P_REMOVE, 3), (P_TRUNC, 3),
    (P_CLEAR, 1), (P_RESIZE, 3), (P_RETAIN, 2), (P_FOREACH, 2), (P_EXTEND, 3), (P_EXTITER, 1), (P_EXTOWN, 1), (P_APPEND, 3),
    (P_SPLIT, 3), (P_RESERVE, 2), (P_SHRINK, 2), (P_CLONE, 2), (P_CLONEFROM, 1), (P_REBUILD, 2), (P_ANY, 2), (P_ALL, 2), (P_TOVEC, 1),
    (P_DEBUG, 1), (P_EQ, 2), (P_OOB, 3), (P_CBPANIC, 3), (P_BADHINT, 2),
];

/// A call involving two live vectors. Both stay alive afterwards.
fn pair_step(src: &mut Src, cx: &mut Cx, g: &Gen, v: &mut Box<dyn DynVec>, w: &mut Box<dyn DynVec>, most: usize) -> String {
    if v.len().saturating_add(w.len()) > most {
        w.clear();
    }
    let k = src.weighted(&[4, 4, 3, 5, 1, 2, 1, 1]);
    let at = g.pos(src, v.len());
    let what = match k {
        0 => "swap v and w".to_string(),
        1 => "v.append(&mut w)".to_string(),
        2 => "w.append(&mut v)".to_string(),
        3 => format!("w = v.split_off({})", at),
        4 => "v.clone_from(&w)".to_string(),
        5 => "v.extend(w.iter())".to_string(),
        6 => "v == w".to_string(),
        _ => "w = v.clone()".to_string(),
    };
    cx.log(|| what.clone());
    cx.label("two-vectors");
    let r = catch(|| match k {
        0 => std::mem::swap(v, w),
        1 => v.append(&mut **w),
        2 => w.append(&mut **v),
        3 => *w = v.split_off(at),
        4 => v.clone_from_dyn(&**w),
        5 => v.extend_iter(&**w),
        6 => drop(v.eq_dyn(&**w)),
        _ => *w = v.clone_box(),
    });
    format!("{}{}", what, if r.is_err() { " (panics)" } else { "" })
}

// P10: memory safety. Observed by the build (precondition checks, AddressSanitizer, Miri), by the
// guard bytes around every allocation, and by running every history twice with different bytes in
// fresh memory: what a vector does must not depend on memory nobody wrote.
fn p10_run(src: &mut Src, cx: &mut Cx, log: &mut Vec<String>, small: bool) -> Case {
    big_one_in(16000);
    let (f, mut g) = start(src, cx);
    if small {
        g.big = false;
        g.cap = g.cap.min(1400);
    }
    let w = swarm(src, SAFE);
    let mut v = f.new();
    let mut v2 = f.new();
    let mut n = 0;
    let mut hi = 0;
    let k = g.k;
    let (cap, mean, most) = if small { (8, 5, 200) } else { (120, 25, 1 << 19) };
    let cap = if g.big { 25 } else { cap };
    while n < cap && src.more(mean) {
        n += 1;
        let len = v.len();
        if len > most {
            break;
        }
        if src.chance(1, 6) {
            let s = pair_step(src, cx, &g, &mut v, &mut v2, most);
            log.push(format!("{}, lengths {} and {}", s, v.len(), v2.len()));
            for x in [&v, &v2] {
                if x.storage_len().saturating_mul(k) < x.len() {
                    return Err(format!("after {} a vector has {} elements but {} blocks of {}", s, x.len(), x.storage_len(), k));
                }
            }
            continue;
        }
        let op = g.op(src, len, &w);
        cx.log(|| format!("v: {:?}", op));
        let o = apply_real(f, &mut v, &op);
        if o == Out::Panic {
            cx.label("recovered-panic");
        }
        if v.storage_len().saturating_mul(k) < v.len() {
            return Err(format!("after {:?} the vector has {} elements but {} blocks of {}", op, v.len(), v.storage_len(), k));
        }
        hi = hi.max(v.len());
        log.push(format!("{:?} gives {:?}, length {}", op, o, v.len()));
        // the blocks past the end are unspecified, but not uninitialised: storage() hands them out
        log.push(format!("after {:?} the blocks of storage() have digest {:x}", op, v.storage_hash()));
        if src.chance(1, 8) && v.len() < most {
            let r = catch(|| (contents(&*v), v.iter().rest(1 << 20), v.hash_std(), v.debug(false)));
            log.push(format!("then contents, elements, hash and Debug are {:?}", r.map_err(|_| "panic")));
        }
    }
    cx.nontrivial = n >= 5 && hi > k;
    for v in [v, v2] {
        let r = catch(|| v.into_iter().rest(1 << 20));
        log.push(format!("in the end into_iter() gives {:?}", r.map_err(|_| "panic")));
    }
    Ok(())
}

fn p10(src: &mut Src, cx: &mut Cx) -> Case {
    let b0 = vt::guard::broken();
    let (mut l1, mut l2) = (vec![], vec![]);
    vt::guard::set_fill(0xA5);
    p10_run(src, cx, &mut l1, false)?;
    if cfg!(feature = "guard") {
        vt::guard::set_fill(0x00);
        let r = p10_run(&mut Src::replay(src.rec.clone()), &mut Cx::new(false), &mut l2, false);
        vt::guard::set_fill(0xA5);
        r?;
        if vt::guard::broken() != b0 {
            return Err("memory around an allocation was overwritten".into());
        }
        if l1 != l2 {
            let i = l1.iter().zip(&l2).take_while(|(a, b)| a == b).count();
            let s = |l: &Vec<String>| l.get(i).map(|s| s.chars().take(400).collect::<String>()).unwrap_or_default();
            return Err(format!("the result depends on uninitialised memory: {} or {}", s(&l1), s(&l2)));
        }
    }
    Ok(())
}

// P10 in small, for Miri
fn p10m(src: &mut Src, cx: &mut Cx) -> Case {
    p10_run(src, cx, &mut vec![], true)
}

// P11: the storages in lockstep
fn p11(src: &mut Src, cx: &mut Cx) -> Case {
    static G: OnceLock<Vec<(usize, Vec<usize>)>> = OnceLock::new();
    let groups = G.get_or_init(|| {
        let mut m: std::collections::BTreeMap<usize, BTreeSet<(&'static str, usize)>> = Default::default();
        for (i, f) in reg().iter().enumerate() {
            let e = m.entry(f.info().n).or_default();
            if !e.iter().any(|x| x.0 == f.info().storage) {
                e.insert((f.info().storage, i));
            }
        }
        m.into_iter().filter(|x| x.1.len() > 1).map(|(n, s)| (n, s.into_iter().map(|x| x.1).collect())).collect()
    });
    let (n, idx) = src.pick(groups).clone();
    let fs: Vec<&dyn Factory> = idx.iter().map(|&i| &*reg()[i]).collect();
    // sizes interesting to one of them
    let lead = src.below(fs.len());
    let mut g = Gen::new(src, fs[lead].info());
    if !g.big {
        g.cap = g.cap.min(700);
    }
    cx.log(|| format!("{} variants in {:?}", n, fs.iter().map(|f| f.info().storage).collect::<Vec<_>>()));
    let w = swarm(
        src,
        &[
            (P_PUSH, 5), (P_POP, 3), (P_GET, 2), (P_SET, 3), (P_SWAP, 2), (P_SWAPREM, 2), (P_INSERT, 3), (P_REMOVE, 3), (P_TRUNC, 3),
            (P_CLEAR, 1), (P_RESIZE, 3), (P_RETAIN, 2), (P_FOREACH, 2), (P_LEN, 1), (P_EXTEND, 3), (P_EXTITER, 1), (P_EXTOWN, 1), (P_APPEND, 3),
            (P_SPLIT, 3), (P_RESERVE, 2), (P_SHRINK, 2), (P_CLONE, 2), (P_CLONEFROM, 1), (P_REBUILD, 2), (P_ANY, 2), (P_ALL, 2), (P_TOVEC, 1),
            (P_DEBUG, 1), (P_EQ, 2), (P_OOB, 3),
        ],
    );
    let mut vs: Vec<Box<dyn DynVec>> = fs.iter().map(|f| f.new()).collect();
    let mut steps = 0;
    let mut hi = 0;
    while steps < 80 && src.more(16) {
        steps += 1;
        let len = vs[0].len();
        if len > 1 << 19 {
            return Ok(());
        }
        let op = g.op(src, len, &w);
        let mut outs = vec![];
        for (f, v) in fs.iter().zip(vs.iter_mut()) {
            outs.push(apply_real(*f, v, &op));
        }
        cx.log(|| format!("{:?} -> {:?}", op, outs[0]));
        let c0 = contents(&*vs[0]);
        for i in 1..vs.len() {
            if outs[i] != outs[0] {
                return Err(format!(
                    "{:?} gives {:?} in {} but {:?} in {}",
                    op, outs[0], fs[0].info().storage, outs[i], fs[i].info().storage
                ));
            }
            if steps % 2 == 0 || len < 64 {
                let c = contents(&*vs[i]);
                if c != c0 {
                    return Err(format!("after {:?} {} holds {:?} but {} holds {:?}", op, fs[0].info().storage, c0, fs[i].info().storage, c));
                }
            }
        }
        hi = hi.max(len);
    }
    let d0 = vs[0].debug(false);
    let c0 = contents(&*vs[0]);
    for i in 1..vs.len() {
        if vs[i].debug(false) != d0 || contents(&*vs[i]) != c0 {
            return Err(format!("{} prints {} but {} prints {}", fs[0].info().storage, d0, fs[i].info().storage, vs[i].debug(false)));
        }
        for j in 0..i {
            let (a, b) = (vs[i].iter().rest_rev(1 << 20), vs[j].iter().rest_rev(1 << 20));
            if a != b {
                return Err(format!("iterating backwards gives {:?} in {} but {:?} in {}", L(a), fs[i].info().storage, L(b), fs[j].info().storage));
            }
        }
    }
    cx.nontrivial = steps >= 4 && hi > 2;
    Ok(())
}

// P12: out-of-range requests
fn p12(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((mut v, mut m)) = junk_vec(src, cx, f, &g, 5) else { return Ok(()) };
    let mut w = vec![0; KINDS];
    w[P_OOB] = 1;
    let mut n = 0;
    while n < 10 && (n == 0 || src.more(3)) {
        n += 1;
        if m.is_empty() && src.chance(1, 3) {
            judged(f, &mut v, &mut m, &Op::Pop, cx, true)?;
        }
        let op = g.op(src, m.len(), &w);
        // Reserve past the end of usize only; Get gives None
        judged(f, &mut v, &mut m, &op, cx, true)?;
        if v.is_empty() != m.is_empty() {
            return Err(format!("after {:?}: is_empty() is {} at length {}", op, v.is_empty(), m.len()));
        }
        cx.nontrivial = true;
        if src.chance(1, 3) {
            same_as_fresh(src, cx, f, &g, "after the refusal", &mut v, &m)?;
            match contents(&*v) {
                Ok(c) if c.len() < 1 << 19 => m = c,
                _ => return Ok(()),
            }
        }
    }
    Ok(())
}

// P13: callbacks that panic or misreport
fn p13(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((mut v, mut m)) = junk_vec(src, cx, f, &g, 5) else { return Ok(()) };
    let mut n = 0;
    while n < 8 && (n == 0 || src.more(2)) {
        n += 1;
        let len = m.len();
        match src.weighted(&[3, 3, 4, 3, 2]) {
            0 => {
                // for_each panics while visiting element `at`
                let at = g.pos(src, len);
                let map = g.map(src);
                let mutate_first = src.chance(1, 2);
                cx.log(|| format!("v.for_each({:?}, panics at {})", map, at));
                let old = m.clone();
                let mut i = 0;
                let mut seen = vec![];
                let r = catch(|| {
                    v.for_each(&mut |x| {
                        seen.push(x);
                        let y = map.map(i, x);
                        if i == at {
                            std::panic::panic_any(if mutate_first { "closure panics" } else { "closure panics early" });
                        }
                        i += 1;
                        y
                    })
                });
                if r.is_ok() != (at >= len) {
                    return Err(format!("for_each of {} elements {} though the closure panics at {}", len, if r.is_ok() { "returned" } else { "panicked" }, at));
                }
                for (j, x) in m.iter_mut().enumerate().take(at.min(len)) {
                    *x = map.map(j, *x);
                }
                if seen != old[..(at + 1).min(len)] {
                    return Err(format!("for_each showed its closure {:?} of {:?}", L(seen), L(old)));
                }
                if at < len {
                    cx.nontrivial = true;
                }
                check_same(&|| format!("after for_each panicked at {} of {}", at, len), &*v, &m)?;
            }
            1 => {
                let at = g.pos(src, len);
                let p = g.pred(src);
                cx.log(|| format!("v.retain({:?}, panics at {})", p, at));
                let mut i = 0;
                let r = catch(|| {
                    v.retain(&mut |x| {
                        if i == at {
                            panic!("predicate panics");
                        }
                        i += 1;
                        p.keep(i - 1, x)
                    })
                });
                if r.is_ok() != (at >= len) {
                    return Err(format!("retain of {} elements {} though the predicate panics at {}", len, if r.is_ok() { "returned" } else { "panicked" }, at));
                }
                let c = contents(&*v)?;
                if c.len() > len {
                    return Err(format!("retain of {} elements panicked at {} and left {}", len, at, c.len()));
                }
                if let Some(x) = c.iter().find(|x| !m.contains(x)) {
                    return Err(format!("after retain panicked at {} the vector holds {}, which was not in {:?}", at, x, L(m)));
                }
                if at < len {
                    cx.nontrivial = true;
                }
                m = c;
            }
            2 => {
                let l = g.list(src, g.cap / 2);
                let at = g.pos(src, l.0.len());
                let hint = if src.chance(1, 3) { g.bad_hint(src) } else { g.hint(src) };
                let op = Op::ExtendPanic(l, hint, at);
                judged(f, &mut v, &mut m, &op, cx, true)?;
                cx.nontrivial = true;
            }
            3 => {
                let l = g.list(src, g.cap / 2);
                let hint = g.bad_hint(src);
                let op = Op::Extend(l, hint);
                judged(f, &mut v, &mut m, &op, cx, true)?;
                cx.nontrivial = true;
            }
            _ => {
                let l = g.list(src, g.cap / 2);
                let mut hint = g.bad_hint(src);
                if hint == Hint::Panics {
                    hint = Hint::Over(1);
                }
                if src.chance(1, 3) {
                    // an iterator that goes on after its end
                    let mut a = HintIter::new(&l.0, hint);
                    a.ghost = true;
                    cx.log(|| format!("extend from an iterator of {:?} that is not fused, {:?}", l, hint));
                    catch(|| v.extend(&mut a)).map_err(|e| format!("extend with {:?} panicked: {}", hint, e))?;
                    m.extend_from_slice(&l.0);
                    check_same(&|| "after extend".to_string(), &*v, &m)?;
                } else {
                    let op = Op::Rebuild(Ctor::FromIter(l, hint));
                    judged(f, &mut v, &mut m, &op, cx, true)?;
                }
                cx.nontrivial = true;
            }
        }
        if src.chance(1, 2) {
            same_as_fresh(src, cx, f, &g, "afterwards", &mut v, &m)?;
            match contents(&*v) {
                Ok(c) if c.len() < 1 << 19 => m = c,
                _ => return Ok(()),
            }
        }
        if m.len() > 2 * g.cap {
            break;
        }
    }
    Ok(())
}

// P16: decoding
fn p16(src: &mut Src, cx: &mut Cx) -> Case {
    big_one_in(16000);
    elem::take_bad();
    let (f, g) = start(src, cx);
    let w = swarm(src, SAFE);
    let stored: BTreeSet<u64> = g.pal.iter().copied().collect();
    let mut v = f.new();
    let mut v2 = f.new();
    let mut n = 0;
    let d0 = elem::decodes();
    let mut panics = 0;
    while n < 100 && src.more(20) {
        n += 1;
        let len = v.len();
        if len > 1 << 19 {
            return Ok(());
        }
        if src.chance(1, 8) {
            let what = pair_step(src, cx, &g, &mut v, &mut v2, if g.big { 1 << 18 } else { 1 << 13 });
            for x in [&v, &v2] {
                if let Ok(Ok(c)) = catch(|| contents(&**x)) {
                    if let Some(x) = c.iter().find(|x| !stored.contains(x)) {
                        return Err(format!("after {} a vector handed out {}; only {:?} were ever stored", what, x, stored));
                    }
                }
            }
            continue;
        }
        let op = g.op(src, len, &w);
        let o = apply_real(f, &mut v, &op);
        cx.log(|| format!("v: {:?} -> {:?}", op, o));
        if o == Out::Panic {
            panics += 1;
        }
        let mut handed: Vec<u64> = match (&op, o) {
            (Op::Retain(_) | Op::ForEach(_) | Op::ToVec | Op::SplitOff(..), Out::List(l)) => l.0,
            (Op::Pop | Op::Get(_) | Op::Remove(_) | Op::SwapRemove(_), Out::Val(Some(x))) => vec![x],
            _ => vec![],
        };
        if v.len() < 300 || src.chance(1, 6) {
            if let Ok(Ok(c)) = catch(|| contents(&*v)) {
                handed.extend(c);
            }
        }
        if src.chance(1, 6) && v.len() < 1 << 19 {
            let c = catch(|| (v.iter().rest(1 << 20), v.iter().rest_rev(1 << 20), v.debug(false), v.iter().nth(len / 2)));
            if let Ok((a, b, _, c)) = c {
                handed.extend(a);
                handed.extend(b);
                handed.extend(c);
            }
        }
        if let Some((x, n)) = elem::take_bad() {
            return Err(format!("after {:?} the number {} was decoded by a type of {} values", op, x, n));
        }
        if let Some(x) = handed.iter().find(|x| !stored.contains(x)) {
            return Err(format!("after {:?} the vector handed out {}; only {:?} were ever stored", op, x, stored));
        }
    }
    let last = v.into_iter().rest(1 << 20);
    if let Some((x, n)) = elem::take_bad() {
        return Err(format!("the number {} was decoded by a type of {} values", x, n));
    }
    if let Some(x) = last.iter().find(|x| !stored.contains(x)) {
        return Err(format!("the vector handed out {}; only {:?} were ever stored", x, stored));
    }
    if panics > 0 {
        cx.label("recovered-panic");
    }
    if !g.n.is_power_of_two() {
        cx.label("not-a-power-of-two");
    }
    cx.nontrivial = n >= 4 && elem::decodes() > d0 + 4;
    Ok(())
}

// P17: raw access
fn p17(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((mut v, mut m)) = junk_vec(src, cx, f, &g, 5) else { return Ok(()) };
    let raw = |v: &dyn DynVec, m: &[u64], what: &str| -> Case {
        for (i, &x) in m.iter().enumerate() {
            let r = unsafe { v.get_raw_unchecked(i) };
            if r != x {
                return Err(format!("{}: position {} of {} reads {} raw, the element encodes to {}", what, i, m.len(), r, x));
            }
        }
        Ok(())
    };
    raw(&*v, &m, "at first")?;
    let mut n = 0;
    while n < 12 && (n == 0 || src.more(4)) {
        n += 1;
        match src.weighted(&[4, 3, 2, 1]) {
            0 => {
                let r = g.count(src, g.cap / 2);
                let k = if src.chance(1, 2) { r } else { src.below(r + 1) };
                let l = g.list_len(src, k);
                cx.log(|| format!("v.reserve({}), {:?} written raw at {}.., set_len({})", r, l, m.len(), m.len() + k));
                let at = m.len();
                catch(|| v.reserve(r)).map_err(|e| format!("reserve({}) panicked: {}", r, e))?;
                check_same(&|| format!("after reserve({})", r), &*v, &m)?;
                // in any order
                let rev = src.chance(1, 3);
                for j in 0..k {
                    let j = if rev { k - 1 - j } else { j };
                    unsafe { v.set_raw_unchecked(at + j, l.0[j]) };
                }
                unsafe { v.set_len(at + k) };
                m.extend_from_slice(&l.0);
                check_same(&|| format!("after {} raw writes past {} elements", k, at), &*v, &m)?;
                raw(&*v, &m, "after raw writes")?;
                if k > 0 {
                    cx.nontrivial = true;
                }
            }
            1 => {
                let to = g.pos(src, m.len());
                cx.log(|| format!("v.{}; v.set_len({})", if to == 0 { "clear()".to_string() } else { format!("truncate({})", to) }, m.len()));
                if to == 0 && src.chance(1, 2) {
                    v.clear();
                } else {
                    v.truncate(to);
                }
                if v.len() != to {
                    return Err(format!("after truncating {} elements to {} the length is {}", m.len(), to, v.len()));
                }
                unsafe { v.set_len(m.len()) };
                check_same(&|| format!("after truncate({}) and set_len({})", to, m.len()), &*v, &m)?;
                if to < m.len() {
                    cx.nontrivial = true;
                }
            }
            2 if !m.is_empty() => {
                let i = g.pos(src, m.len() - 1);
                let x = g.val(src);
                cx.log(|| format!("v.set_raw_unchecked({}, {})", i, x));
                unsafe { v.set_raw_unchecked(i, x) };
                m[i] = x;
                check_same(&|| format!("after a raw write at {}", i), &*v, &m)?;
                cx.nontrivial = true;
            }
            _ => {
                const W: &[(usize, u32)] = &[
                    (P_TRUNC, 2), (P_POP, 1), (P_PUSH, 1), (P_RESIZE, 1), (P_SHRINK, 1), (P_CLONE, 1), (P_SET, 1), (P_EXTEND, 1), (P_REMOVE, 1), (P_INSERT, 1),
                    (P_APPEND, 1), (P_SPLIT, 1),
                ];
                let mut w = vec![0; KINDS];
                W.iter().for_each(|&(k, x)| w[k] = x);
                let op = g.op(src, m.len(), &w);
                if !unjudged(f, &mut v, &mut m, &op, cx) {
                    return Ok(());
                }
                raw(&*v, &m, "after an operation")?;
            }
        }
    }
    Ok(())
}

// P27: memory over a history: growth is amortised, room once there stays, everything is given back
fn p27(src: &mut Src, cx: &mut Cx) -> Case {
    big_one_in(16000);
    match src.below(3) {
        0 => p27_growth(src, cx),
        1 => p27_keeps(src, cx),
        _ => p27_returned(src, cx),
    }
}

fn log2(n: usize) -> usize {
    (usize::BITS - n.leading_zeros()) as usize
}

fn p27_growth(src: &mut Src, cx: &mut Cx) -> Case {
    let (f, g) = start(src, cx);
    let Some((mut v, m)) = junk_vec(src, cx, f, &g, 3) else { return Ok(()) };
    let way = src.below(7);
    // small steps, from time to time mixed with others
    let most = if way == 3 { 2000 } else { 20_000 };
    let n = src.upto(most.min(600 * g.k) as u64) as usize;
    let n = if src.chance(1, 2) { n / 8 } else { n };
    let step = src.range(1, 3);
    let hint = g.hint(src);
    let items = g.list_len(src, n);
    let mut o = f.new();
    const NAMES: [&str; 7] = ["push", "extend(1..3)", "append(1..3)", "insert(at the end)", "resize(+1..3)", "extend(all)", "extend(&one of 1..3)"];
    cx.log(|| format!("{} more elements by {}, {} at a time, hint {:?}", n, NAMES[way], step, hint));
    let blocks = |v: &dyn DynVec| (v.len() + g.k) / g.k;
    let from = blocks(&*v);
    let mut moves = 0;
    let mut at = (v.storage_ptr(), v.storage_cap());
    let mut i = 0;
    let calls = vt::guard::calls();
    let r = catch(|| {
        if way == 5 {
            v.extend(&mut HintIter::new(&items.0, hint));
            return;
        }
        while i < n {
            let part = &items.0[i..n.min(i + step)];
            match way {
                0 => v.push(part[0]),
                1 => v.extend(&mut HintIter::new(part, hint)),
                2 => {
                    part.iter().for_each(|&x| o.push(x));
                    v.append(&mut *o)
                }
                3 => v.insert(v.len(), part[0]),
                4 => v.resize(v.len() + part.len(), part[0]),
                _ => {
                    o.clear();
                    part.iter().for_each(|&x| o.push(x));
                    v.extend_iter(&*o)
                }
            }
            i += if way == 0 || way == 3 { 1 } else { part.len() };
            let now = (v.storage_ptr(), v.storage_cap());
            moves += (now != at) as usize;
            at = now;
        }
    });
    if r.is_err() || v.len() != m.len() + n {
        cx.discarded = true; // what it does is another property's matter
        return Ok(());
    }
    let calls = (vt::guard::calls() - calls) as usize;
    let to = blocks(&*v);
    let allowed = 16 + 6 * log2(to);
    if moves > allowed {
        return Err(format!(
            "growing from {} to {} elements ({} to {} blocks) by {} moved the elements to new memory {} times, more than {}",
            m.len(), v.len(), from, to, NAMES[way], moves, allowed
        ));
    }
    if cfg!(feature = "guard") && way == 5 && calls > allowed + 16 {
        return Err(format!(
            "extending from {} to {} elements ({} to {} blocks) asked for memory {} times, more than {}",
            m.len(), v.len(), from, to, calls, allowed + 16
        ));
    }
    cx.label(["push", "extend-small", "append-small", "insert-at-end", "resize-small", "extend-all", "extend-ref"][way]);
    cx.nontrivial = to > from + 8;
    Ok(())
}

fn p27_keeps(src: &mut Src, cx: &mut Cx) -> Case {
    const W: &[(usize, u32)] = &[
        (P_PUSH, 3), (P_POP, 3), (P_SET, 2), (P_SWAP, 1), (P_SWAPREM, 2), (P_INSERT, 2), (P_REMOVE, 3), (P_TRUNC, 4), (P_CLEAR, 3), (P_RESIZE, 3),
        (P_RETAIN, 2), (P_FOREACH, 2), (P_EXTEND, 3), (P_EXTITER, 1), (P_RESERVE, 2), (P_ANY, 1), (P_ALL, 1), (P_GET, 1), (P_TOVEC, 1), (P_DEBUG, 1), (P_EQ, 1),
    ];
    let (f, g) = start(src, cx);
    let Some((mut v, _)) = junk_vec(src, cx, f, &g, 4) else { return Ok(()) };
    let w = swarm(src, W);
    let mut n = 0;
    while n < 40 && src.more(8) {
        n += 1;
        let len = v.len();
        if len > 1 << 20 {
            cx.discarded = true;
            return Ok(());
        }
        let op = g.op(src, len, &w);
        cx.log(|| format!("v: {:?}", op));
        let (cap, ptr) = (v.storage_cap(), v.storage_ptr());
        if apply_real(f, &mut v, &op) == Out::Panic {
            cx.discarded = true;
            return Ok(());
        }
        if v.storage_cap() < cap {
            return Err(format!("{:?} at length {} shrank the room from {} to {} blocks", op, len, cap, v.storage_cap()));
        }
        // nothing that only removes or overwrites needs new memory
        let fits = matches!(
            op,
            Op::Pop | Op::Set(..) | Op::Swap(..) | Op::SwapRemove(_) | Op::Remove(_) | Op::Truncate(_) | Op::Clear | Op::Retain(_) | Op::ForEach(_)
                | Op::Get(_) | Op::Any(_) | Op::All(_) | Op::Debug(_) | Op::EqWith(_)
        );
        if fits && v.storage_ptr() != ptr {
            return Err(format!("{:?} at length {} moved the elements to new memory", op, len));
        }
        if matches!(op, Op::Pop | Op::SwapRemove(_) | Op::Remove(_) | Op::Truncate(_) | Op::Clear | Op::Retain(_)) && cap > 0 {
            cx.nontrivial = true;
            cx.label("removal");
        }
    }
    Ok(())
}

fn p27_returned(src: &mut Src, cx: &mut Cx) -> Case {
    if !cfg!(feature = "guard") {
        cx.discarded = true;
        return Ok(());
    }
    let (f, g) = start(src, cx);
    let c = g.ctor(src);
    let mut m = make_model(&c);
    let w = swarm(src, SAFE);
    let mut ops = vec![];
    while ops.len() < 40 && src.more(8) {
        if m.len() > 1 << 19 {
            break;
        }
        let op = g.op(src, m.len(), &w);
        // if lengths differ from the model's, this would be a reservation that is tried, and aborts
        if matches!(op, Op::Reserve(n) if n > usize::MAX >> 8) {
            continue;
        }
        apply_model(f, &mut m, &op);
        ops.push(op);
    }
    cx.log(|| format!("twice: {:?} {:?}", c, ops));
    let run = || {
        let Ok(mut v) = catch(|| make(f, &c)) else { return };
        for op in &ops {
            if v.len() > 1 << 20 {
                return;
            }
            drop(apply_real(f, &mut v, op));
        }
        let w = v.clone_box();
        drop(w.into_vec());
        let mut it = v.into_iter();
        it.next();
        it.next_back();
    };
    run();
    let before = vt::guard::live();
    run();
    let after = vt::guard::live();
    if after != before {
        return Err(format!("all vectors are gone, yet {} bytes were not given back", after - before));
    }
    cx.label("returned");
    cx.nontrivial = ops.len() >= 4;
    Ok(())
}

// P28: what calls cost, in processor time, when vectors are long
/// Calls whose cost must not depend on the length of the vector. j: distance from the end (small),
/// i: any position, o: a short vector. They leave the length about as it was.
const CONSTANT: [&str; 25] = [
    "get(i)", "get(past the end)", "set(i)", "push", "pop", "swap(i, j)", "swap_remove(i)", "len, is_empty, capacity", "truncate(to i)", "clear",
    "iter().next()", "iter().next_back()", "iter().nth(i)", "iter().len()", "iter().size_hint()", "iter().count()", "into_iter().next()", "into_iter().nth(i)",
    "insert(near the end)", "remove(near the end)", "resize(a bit longer)", "resize(a bit shorter)", "extend by a few", "append a short vector", "split_off(near the end)",
];

fn p28(src: &mut Src, cx: &mut Cx) -> Case {
    big_one_in(1 << (usize::BITS / 8 * 5));
    let (f, g) = start(src, cx);
    if src.chance(1, 4) {
        p28_linear(src, cx, f, &g)
    } else {
        p28_constant(src, cx, f, &g)
    }
}

fn p28_constant(src: &mut Src, cx: &mut Cx, f: &dyn Factory, g: &Gen) -> Case {
    let i = f.info();
    // 4 MB: looking at every block takes more than 100 microseconds
    let n = ((1usize << 22) * 8 / i.block) * i.k + src.below(i.k);
    let x = g.val(src);
    let y = g.val(src);
    let tail = src.below(3 * i.k);
    cx.log(|| format!("{} elements: from_elem({}) and {} pushed", n, x, tail));
    let make = || {
        let mut v = f.from_elem(x, n);
        for _ in 0..tail + 70 * i.k {
            v.push(y);
        }
        // there is room for what is added now
        v.truncate(n + tail);
        v
    };
    let mut v = make();
    let limit = 60_000;
    let mut n_calls = 0;
    while n_calls < 40 && (n_calls == 0 || src.more(15)) {
        n_calls += 1;
        // (after a big truncate the next call may have to deal with what was cut off)
        if v.len() < n || v.len() > n + tail + 50 * i.k {
            v = make();
        }
        let len = v.len();
        let k = src.below(CONSTANT.len());
        if (k == 8 || k == 9) && i.storage == "smallvec_u32" {
            // an implementation may truncate the storage, which smallvec 0.6 does block by block
            continue;
        }
        let a = g.pos(src, len - 1);
        let b = g.pos(src, len - 1);
        let j = src.below(2 * i.k.min(16) + 1);
        let few = g.list_len(src, 1 + j);
        let hint = g.hint(src);
        let mut o = f.from_slice(&few.0);
        cx.log(|| format!("{}: i = {}, j = {}, {} from the end", CONSTANT[k], a, b, j));
        let one = |v: Box<dyn DynVec>, o: &mut Box<dyn DynVec>| -> (u64, Option<Box<dyn DynVec>>) {
            let mut v = v;
            let t = cpu();
            let mut part = None;
            let mut it = None;
            match k {
                0 => drop(v.get(a)),
                1 => drop(v.get(len + j)),
                2 => v.set(a, y),
                3 => v.push(y),
                4 => drop(v.pop()),
                5 => v.swap(a, b),
                6 => drop(v.swap_remove(a)),
                7 => drop((v.len(), v.is_empty(), v.capacity())),
                8 => v.truncate(a),
                9 => v.clear(),
                10 => drop(v.iter().next()),
                11 => drop(v.iter().next_back()),
                12 => drop(v.iter().nth(a)),
                13 => drop(v.iter().len()),
                14 => drop(v.iter().size_hint()),
                15 => drop(v.iter().count()),
                16 | 17 => {
                    let mut x = v.into_iter();
                    drop(if k == 16 { x.next() } else { x.nth(a) });
                    it = Some(x);
                    v = f.new();
                }
                18 => v.insert(v.len() - j, y),
                19 => drop(v.remove(v.len() - 1 - j)),
                20 => v.resize(v.len() + 1 + j, y),
                21 => v.resize(v.len() - j, y),
                22 => v.extend(&mut HintIter::new(&few.0, hint)),
                23 => v.append(&mut **o),
                _ => part = Some(v.split_off(v.len() - j)),
            }
            let t = cpu() - t;
            drop((part, it));
            (t, if v.len() > 0 { Some(v) } else { None })
        };
        let r = catch(|| one(v, &mut o));
        let Ok((mut t, left)) = r else {
            cx.discarded = true;
            return Ok(());
        };
        v = left.unwrap_or_else(make);
        let first = t;
        let mut again = 0;
        // memory may just have been moved once, or the machine been busy: only what is always slow counts
        while t > limit && again < 12 {
            again += 1;
            if v.len() < len || v.len() > n + tail + 50 * i.k {
                v = make();
                while v.len() < len {
                    v.push(x);
                }
            }
            o = f.from_slice(&few.0);
            let Ok((u, left)) = catch(|| one(v, &mut o)) else {
                cx.discarded = true;
                return Ok(());
            };
            t = t.min(u);
            v = left.unwrap_or_else(make);
        }
        if t > limit {
            return Err(format!(
                "{} on {} elements took {} microseconds of processor time (never less than {} in {} attempts): its cost depends on the number of elements",
                CONSTANT[k], len, first / 1000, t / 1000, again + 1
            ));
        }
        cx.label("constant");
    }
    cx.nontrivial = true;
    Ok(())
}

const LINEAR: [&str; 30] = [
    "to_vec", "clone", "into_vec", "from_vec", "from_slice", "from_elem", "collect", "extend by as many", "extend by as many, no size hint",
    "extend from a borrowed vector", "extend from an owned vector", "append as many", "append as many, unaligned", "split_off(0)", "split_off(1)", "retain", "for_each",
    "any", "all", "Debug", "==", "hash", "iterate", "iterate backwards", "resize to twice", "push as many", "pop all", "insert(0)", "remove(0)", "reserve and shrink",
];

fn p28_linear(src: &mut Src, cx: &mut Cx, f: &dyn Factory, g: &Gen) -> Case {
    let i = f.info();
    let k = src.below(LINEAR.len());
    let s = src.upto(0xffff);
    let same = src.chance(1, 3);
    let item = |j: usize| if same { g.pal[0] } else { g.pal[(mix(s, j as u64) % g.pal.len() as u64) as usize] };
    let hint = g.hint(src);
    let pred = g.pred(src);
    let map = g.map(src);
    let short = 300 * i.k.min(16) + src.below(i.k);
    let long = 256 * short;
    cx.log(|| format!("{} on {} and {} elements", LINEAR[k], short, long));
    cx.label("linear");
    let run = |n: usize| -> Result<u64, String> {
        let items: Vec<u64> = (0..n).map(item).collect();
        let zero = [item(0)];
        catch(|| {
            let mut v = f.from_slice(&items);
            let mut o = f.from_slice(&items);
            if k == 12 {
                v.push(zero[0]);
            }
            let t = cpu();
            let mut kept: Vec<Box<dyn DynVec>> = vec![];
            match k {
                0 => drop(v.to_vec()),
                1 => kept.push(v.clone_box()),
                2 => {
                    drop(v.into_vec());
                    v = f.new();
                }
                3 => kept.push(f.from_vec(&items)),
                4 => kept.push(f.from_slice(&items)),
                5 => kept.push(f.from_elem(zero[0], n)),
                6 => kept.push(f.from_iter(&mut HintIter::new(&items, hint))),
                7 => v.extend(&mut HintIter::new(&items, hint)),
                8 => v.extend(&mut HintIter::new(&items, Hint::Zero)),
                9 => v.extend_iter(&*o),
                10 => {
                    v.extend_own(o);
                    o = f.new();
                }
                11 | 12 => v.append(&mut *o),
                13 => kept.push(v.split_off(0)),
                14 => kept.push(v.split_off(1)),
                15 => {
                    let mut j = 0;
                    v.retain(&mut |x| {
                        j += 1;
                        pred.keep(j, x)
                    })
                }
                16 => {
                    let mut j = 0;
                    v.for_each(&mut |x| {
                        j += 1;
                        map.map(j, x)
                    })
                }
                17 => drop(v.any(g.pal[g.pal.len() - 1])),
                18 => drop(v.all(zero[0])),
                19 => drop(v.debug(false)),
                20 => drop(v.eq_dyn(&*o)),
                21 => drop(v.hash_std()),
                22 => drop(v.iter().fold()),
                23 => drop(v.iter().rest_rev(usize::MAX)),
                24 => v.resize(2 * n, zero[0]),
                25 => items.iter().for_each(|&x| v.push(x)),
                26 => while v.pop().is_some() {},
                27 => v.insert(0, zero[0]),
                28 => drop(v.remove(0)),
                _ => {
                    v.reserve(n);
                    v.shrink_to_fit();
                }
            }
            let t = cpu() - t;
            drop((v, o, kept));
            t
        })
    };
    let measure = |n: usize, below: u64| -> Result<u64, String> {
        let mut t = u64::MAX;
        for _ in 0..6 {
            t = t.min(run(n)?);
            if t < below {
                break;
            }
        }
        Ok(t)
    };
    // with the shorter one measured once, a busy machine can only hide something
    let Ok(a) = run(short) else {
        cx.discarded = true;
        return Ok(());
    };
    let limit = |a: u64| 40 * 256 * a.max(3000);
    let Ok(b) = measure(long, limit(a)) else {
        cx.discarded = true;
        return Ok(());
    };
    cx.nontrivial = true;
    if b > limit(a) {
        return Err(format!(
            "{} took {} microseconds on {} elements, but {} on 256 times as many: more than 40 times what proportional cost would be",
            LINEAR[k], a as f64 / 1e3, short, b as f64 / 1e3
        ));
    }
    Ok(())
}

fn main() {
    vt::engine::main(&[
        ("P01", p01), ("P02", p02), ("P03", p03), ("P04", p04), ("P05", p05), ("P06", p06), ("P07", p07), ("P08", p08), ("P09", p09),
        ("P10", p10), ("P10M", p10m), ("P11", p11), ("P12", p12), ("P13", p13), ("P16", p16), ("P17", p17), ("P27", p27), ("P28", p28),
    ]);
}
