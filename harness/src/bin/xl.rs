//! Vectors of hundreds of megabytes: up to 2^32 elements, or 2^32 bits of storage, where an index
//! or a bit position kept in 32 bits goes wrong. The model is a run-length encoded list; contents
//! are compared at all run boundaries, at every position touched, and at the positions these turn
//! into when a number is cut to 32 (31, 24, 16) bits; shorter vectors completely.
use std::sync::OnceLock;
use vt::dynvec::*;
use vt::engine::*;

fn reg() -> &'static [Box<dyn Factory>] {
    static R: OnceLock<Vec<Box<dyn Factory>>> = OnceLock::new();
    R.get_or_init(|| {
        let mut r: Vec<Box<dyn Factory>> = vec![];
        macro_rules! fs { ($m:ident: $($n:expr),*) => { $( r.push(Box::new($m::F::<{ $n }>)); )* }; }
        fs!(s8: 2, 5, 256);
        fs!(s16: 2, 33);
        fs!(s32: 2, 5, 65537);
        fs!(s64: 2, 33, usize::MAX);
        fs!(s128: 2);
        #[cfg(target_pointer_width = "64")]
        {
            fs!(s64: 1 << 32);
            fs!(s128: (1 << 32) + 1);
        }
        fs!(sm32: 2, 300);
        r
    })
}

fn size(x: u64) -> usize {
    usize::try_from(x).unwrap_or(usize::MAX)
}

/// A list as runs of equal elements.
#[derive(Clone)]
struct Rle(Vec<(usize, u64)>);
impl Rle {
    fn len(&self) -> usize {
        self.0.iter().map(|r| r.0).sum()
    }
    fn get(&self, mut i: usize) -> Option<u64> {
        for &(n, x) in &self.0 {
            if i < n {
                return Some(x);
            }
            i -= n;
        }
        None
    }
    /// The run starting at i, splitting one if need be.
    fn cut(&mut self, mut i: usize) -> usize {
        for j in 0..self.0.len() {
            if i == 0 {
                return j;
            }
            let (n, x) = self.0[j];
            if i < n {
                self.0[j].0 = i;
                self.0.insert(j + 1, (n - i, x));
                return j + 1;
            }
            i -= n;
        }
        assert!(i == 0, "harness: cut past the end");
        self.0.len()
    }
    fn tidy(&mut self) {
        let mut r: Vec<(usize, u64)> = vec![];
        for &(n, x) in &self.0 {
            match r.last_mut() {
                Some(l) if l.1 == x => l.0 += n,
                _ if n > 0 => r.push((n, x)),
                _ => {}
            }
        }
        self.0 = r;
    }
    fn add(&mut self, n: usize, x: u64) {
        self.0.push((n, x));
        self.tidy();
    }
    fn set(&mut self, i: usize, x: u64) {
        let j = self.cut(i);
        self.cut(i + 1);
        self.0[j].1 = x;
        self.tidy();
    }
    fn insert(&mut self, i: usize, x: u64) {
        let j = self.cut(i);
        self.0.insert(j, (1, x));
        self.tidy();
    }
    fn remove(&mut self, i: usize) -> u64 {
        let j = self.cut(i);
        self.cut(i + 1);
        let x = self.0.remove(j).1;
        self.tidy();
        x
    }
    fn split_off(&mut self, at: usize) -> Rle {
        let j = self.cut(at);
        Rle(self.0.split_off(j))
    }
    fn truncate(&mut self, n: usize) {
        if n < self.len() {
            self.split_off(n);
        }
    }
    fn show(&self) -> String {
        let s: Vec<String> = self.0.iter().take(12).map(|(n, x)| format!("{}*{}", x, n)).collect();
        format!("[{}{}]", s.join(", "), if self.0.len() > 12 { ", ..." } else { "" })
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Set,
    Push,
    Pop,
    Swap,
    SwapRemove,
    Insert,
    Remove,
    Truncate,
    Resize,
    Retain,
    ForEach,
    From,
    Extend,
    Append,
    Split,
    Any,
    All,
    Eq,
    Clone,
    Iter,
    Shrink,
    Reserve,
    Oob,
    Raw,
}
use K::*;

struct X {
    f: &'static dyn Factory,
    /// bits of storage per element
    w: usize,
    k: usize,
    pal: Vec<u64>,
    edges: Vec<usize>,
    hot: Vec<usize>,
}

impl X {
    fn new(src: &mut Src, cx: &mut Cx) -> X {
        let f = &*reg()[src.below(reg().len())];
        let i = f.info();
        cx.label(i.storage);
        cx.log(|| format!("{}::EnumVec, {} variants ({} bits, {} per block)", i.storage, i.n, i.width, i.k));
        let w = i.block / i.k;
        let mut pal = vec![i.n as u64 - 1, 0];
        pal.push(src.upto(i.n as u64 - 1));
        if src.chance(1, 2) {
            pal.swap(0, 1);
        }
        let mut edges = vec![size((1 << 32) / w as u64), (1 << 31) / w, size(1 << 32), 1 << 31, 1 << 24, 1 << 16, i.k << 16];
        edges.dedup();
        X { f, w, k: i.k, pal, edges, hot: vec![] }
    }
    fn val(&self, src: &mut Src) -> u64 {
        *src.pick(&self.pal)
    }
    /// the longest vector aimed at: 512 MB and a bit
    fn max(&self) -> usize {
        size((1 << 32) / self.w as u64 + 40 * self.k as u64 + 40)
    }
    fn length(&self, src: &mut Src) -> usize {
        let e = match src.below(6) {
            0 => 1 << 24,
            1 | 2 => (1 << 31) / self.w,
            _ => size((1 << 32) / self.w as u64),
        };
        let d = src.edgy(10 * self.k, &[0, 1, 2, self.k - 1, self.k, self.k + 1, 4 * self.k, 4 * self.k + 1]);
        (if src.chance(2, 3) { e.saturating_add(d) } else { e - d.min(e) }).min(self.max())
    }
    /// A position in 0..=max, near an edge or an end.
    fn pos(&self, src: &mut Src, max: usize) -> usize {
        let mut e = vec![0, 1, max, max.saturating_sub(1), max.saturating_sub(self.k), max / self.k * self.k];
        for &x in &self.edges {
            e.extend([x - 1, x, x.saturating_add(1)]);
            e.extend([max.saturating_sub(x), max.saturating_sub(x).saturating_sub(1)]);
        }
        src.edgy(max, &e)
    }
    /// One whose distance to the end is small.
    fn near_end(&self, src: &mut Src, max: usize) -> usize {
        max - src.edgy(max.min(100 * self.k), &[0, 1, 2, self.k, self.k + 1, 2 * self.k])
    }
    fn touch(&mut self, i: usize) {
        self.hot.push(i);
    }
    fn check(&self, what: &str, v: &dyn DynVec, m: &Rle) -> Case {
        let len = m.len();
        if v.len() != len {
            return Err(format!("{}: length is {}, a Vec has {}", what, v.len(), len));
        }
        let mut ps = vec![0, len];
        let mut at = 0;
        for &(n, _) in m.0.iter().take(64) {
            ps.push(at);
            at += n;
        }
        ps.extend(&self.hot);
        ps.extend(&self.edges);
        let one = |i: usize| -> Case {
            let (a, b) = (v.get(i), m.get(i));
            if a != b {
                return Err(format!("{}: element {} of {} is {:?}, a Vec has {:?}; contents {}", what, i, len, a, b, m.show()));
            }
            Ok(())
        };
        for &p in &ps {
            for d in [0, 1, self.k, self.k + 1] {
                one(p.wrapping_add(d))?;
                one(p.wrapping_sub(d))?;
            }
            for &e in &self.edges {
                one(p.wrapping_sub(e))?;
                one(p % e)?;
                one(p ^ e)?;
            }
        }
        for j in 0..64 {
            one(size(mix(len as u64, j) % (len as u64 + 1)))?;
        }
        Ok(())
    }
    fn check_all(&self, what: &str, v: &dyn DynVec, m: &Rle) -> Case {
        if m.len() > 1 << 25 {
            return Ok(());
        }
        let mut i = 0;
        for &(n, x) in &m.0 {
            for _ in 0..n {
                if v.get(i) != Some(x) {
                    return Err(format!("{}: element {} of {} is {:?}, a Vec has {}; contents {}", what, i, m.len(), v.get(i), x, m.show()));
                }
                i += 1;
            }
        }
        Ok(())
    }
}

/// `ws`: operations with weights; `own`: those the property is about (others going wrong end the case).
fn history(src: &mut Src, cx: &mut Cx, ws: &[(K, u32)], own: &[K]) -> Case {
    let mut x = X::new(src, cx);
    let f = x.f;
    let (mut v, mut m);
    // the beginning
    {
        let n = x.length(src);
        let a = x.val(src);
        cx.log(|| format!("v = from_elem({}, {})", a, n));
        v = f.from_elem(a, n);
        m = Rle(vec![(n, a)]);
        for _ in 0..src.below(4) {
            let i = x.pos(src, n - 1);
            let b = x.val(src);
            cx.log(|| format!("v.set({}, {})", i, b));
            v.set(i, b);
            m.set(i, b);
            x.touch(i);
        }
    }
    if let Err(e) = x.check("from_elem and set", &*v, &m) {
        if own.contains(&Set) || own.contains(&From) {
            return Err(e);
        }
        cx.discarded = true;
        return Ok(());
    }
    let w: Vec<u32> = ws.iter().map(|x| x.1).collect();
    let mut n = 0;
    let mut heavy = 0;
    while n < 8 && (n == 0 || src.more(5)) {
        n += 1;
        let mut k = ws[src.weighted(&w)].0;
        let len = m.len();
        // loops over all elements: not on billions, and not often
        if matches!(k, Retain | ForEach | Eq) {
            heavy += 1;
            if len > 1 << 27 || heavy > 2 {
                k = ws[0].0;
            }
        }
        let r = catch(|| step(src, cx, &mut x, &mut v, &mut m, k)).unwrap_or_else(|e| Err(format!("{:?} panicked: {}", k, e)));
        let r = r.and_then(|what| x.check(&what, &*v, &m));
        if let Err(e) = r {
            if own.contains(&k) {
                return Err(e);
            }
            cx.discarded = true;
            return Ok(());
        }
        if own.contains(&k) && len >= 1 << 24 {
            cx.nontrivial = true;
        }
    }
    if src.chance(1, 2) && ws.iter().all(|w| own.contains(&w.0)) {
        x.check_all("in the end", &*v, &m)?;
    }
    Ok(())
}

fn step(src: &mut Src, cx: &mut Cx, x: &mut X, v: &mut Box<dyn DynVec>, m: &mut Rle, k: K) -> Result<String, String> {
    let len = m.len();
    let last = len.saturating_sub(1);
    let f = x.f;
    let what;
    macro_rules! say { ($($a:tt)*) => {{ what = format!($($a)*); cx.log(|| what.clone()); }}; }
    // as many as there can be
    let room = usize::MAX - len;
    let k = if len == 0 && matches!(k, Set | Pop | Swap | SwapRemove | Remove) { Push } else { k };
    let k = if room == 0 && matches!(k, Push | Insert) { Pop } else { k };
    match k {
        Set => {
            let i = x.pos(src, last);
            let a = x.val(src);
            say!("v.set({}, {})", i, a);
            x.touch(i);
            v.set(i, a);
            m.set(i, a);
        }
        Push => {
            let t = src.range(1, 2 * x.k + 2).min(room);
            let a = x.val(src);
            say!("{} times v.push({})", t, a);
            for _ in 0..t {
                v.push(a);
            }
            m.add(t, a);
            x.touch(len);
        }
        Pop => {
            let t = src.range(1, 2 * x.k + 2).min(len);
            say!("{} times v.pop()", t);
            for _ in 0..t {
                let a = m.remove(m.len() - 1);
                let b = v.pop();
                if b != Some(a) {
                    return Err(format!("pop at length {} gives {:?}, a Vec {}", m.len() + 1, b, a));
                }
            }
        }
        Swap => {
            let (i, j) = (x.pos(src, last), x.pos(src, last));
            say!("v.swap({}, {})", i, j);
            x.touch(i);
            x.touch(j);
            v.swap(i, j);
            let (a, b) = (m.get(i).unwrap(), m.get(j).unwrap());
            m.set(i, b);
            m.set(j, a);
        }
        SwapRemove => {
            let i = x.pos(src, last);
            say!("v.swap_remove({})", i);
            x.touch(i);
            let a = v.swap_remove(i);
            let (b, l) = (m.get(i).unwrap(), m.get(last).unwrap());
            m.set(i, l);
            m.remove(last);
            if a != b {
                return Err(format!("swap_remove({}) of {} gives {}, a Vec {}", i, len, a, b));
            }
        }
        Insert => {
            // shifting all blocks is slow: mostly near the end
            let i = if src.chance(1, 4) { x.pos(src, len) } else { x.near_end(src, len) };
            let a = x.val(src);
            say!("v.insert({}, {})", i, a);
            x.touch(i);
            v.insert(i, a);
            m.insert(i, a);
        }
        Remove => {
            let i = if src.chance(1, 4) { x.pos(src, last) } else { x.near_end(src, last) };
            say!("v.remove({})", i);
            x.touch(i);
            let a = v.remove(i);
            let b = m.remove(i);
            if a != b {
                return Err(format!("remove({}) of {} gives {}, a Vec {}", i, len, a, b));
            }
        }
        Truncate => {
            let n = if src.chance(1, 2) { x.near_end(src, len) } else { x.pos(src, len) };
            say!("v.truncate({})", n);
            v.truncate(n);
            m.truncate(n);
        }
        Resize => {
            let n = if src.chance(1, 2) { x.length(src) } else { len.saturating_add(src.below(10 * x.k)).min(x.max()).max(len) };
            let a = x.val(src);
            say!("v.resize({}, {})", n, a);
            v.resize(n, a);
            if n <= len {
                m.truncate(n);
            } else {
                m.add(n - len, a);
            }
            x.touch(len);
        }
        Retain => {
            let a = x.val(src);
            say!("v.retain(not {})", a);
            let mut seen = 0;
            v.retain(&mut |y| {
                seen += 1;
                y != a
            });
            m.0.retain(|r| r.1 != a);
            m.tidy();
            if seen != len {
                return Err(format!("retain looked at {} of {} elements", seen, len));
            }
        }
        ForEach => {
            let (a, b) = (x.val(src), x.val(src));
            say!("v.for_each({} becomes {})", a, b);
            let mut seen = 0;
            v.for_each(&mut |y| {
                seen += 1;
                if y == a { b } else { y }
            });
            m.0.iter_mut().for_each(|r| if r.1 == a { r.1 = b });
            m.tidy();
            if seen != len {
                return Err(format!("for_each looked at {} of {} elements", seen, len));
            }
        }
        From => {
            let n = x.length(src);
            let a = x.val(src);
            let how = src.below(2);
            say!("v = {} {}, {}", ["from_elem", "enum_vec!"][how], a, n);
            *v = f.new();
            *v = if how == 0 { f.from_elem(a, n) } else { f.macro_elem(a, n) };
            *m = Rle(vec![(n, a)]);
        }
        Extend => {
            let n = src.below(if len < 1 << 26 { 1 << 20 } else { 1 << 12 }).min(room);
            let (a, b) = (x.val(src), x.val(src));
            say!("v.extend({} times {} and {})", n, a, b);
            v.extend(&mut (0..n).map(|i| if i + 2 < n { a } else { b }));
            m.add(n.saturating_sub(2), a);
            m.add(n.min(2), b);
        }
        Append => {
            let n = src.edgy((1 << 24) / x.w, &[0, 1, x.k, x.k + 1, 3 * x.k]);
            let (a, b) = (x.val(src), x.val(src));
            let front = src.chance(1, 3);
            say!("v = {} {} times {} and a {}", if front { "the other with v appended:" } else { "v with appended" }, n, a, b);
            let mut o = f.from_elem(a, n);
            o.push(b);
            if n >= room {
                if catch(|| v.append(&mut *o)).is_ok() {
                    return Err(format!("appending {} elements to {} does not panic, the length is {}", n + 1, len, v.len()));
                }
                if o.len() != n + 1 || o.get(n) != Some(b) {
                    return Err(format!("a refused append of {} elements leaves {}", n + 1, o.len()));
                }
                return Ok(what);
            }
            if o.len() != n + 1 || (n > 0 && o.get(0) != Some(a)) || o.get(n) != Some(b) {
                return Err("making the other went wrong".into());
            }
            let mut r = Rle(vec![]);
            r.add(n, a);
            r.add(1, b);
            // not aligned it goes element by element: only short ones there
            if front && (n + 1) % x.k == 0 || front && len < 1 << 25 {
                o.append(&mut **v);
                std::mem::swap(v, &mut o);
                std::mem::swap(m, &mut r);
            } else {
                v.append(&mut *o);
            }
            if o.len() != 0 {
                return Err(format!("append leaves {} elements behind", o.len()));
            }
            m.0.extend(r.0);
            m.tidy();
            x.touch(len);
            x.touch(n + 1);
        }
        Split => {
            // moving billions of elements one by one is slow: a short tail
            let at = if len < 1 << 26 { x.pos(src, len) } else { len - src.below(1 << 20) };
            say!("v.split_off({})", at);
            let o = v.split_off(at);
            let r = m.split_off(at);
            x.check(&format!("the part split off at {} of {}", at, len), &*o, &r)?;
            if src.chance(1, 3) && at < 1 << 26 {
                x.check("what remains", &**v, m)?;
                *v = o;
                *m = r;
            }
            x.touch(at);
        }
        Any | All => {
            let a = x.val(src);
            say!("v.{:?}({})", k, a);
            let (g, w) = match k {
                Any => (v.any(a), m.0.iter().any(|r| r.1 == a)),
                _ => (v.all(a), m.0.iter().all(|r| r.1 == a)),
            };
            if g != w {
                return Err(format!("{} of {} is {}", what, m.show(), g));
            }
        }
        Eq => {
            // the same or one different, made anew
            let mut r = m.clone();
            let mut o = f.new();
            for &(n, a) in &m.0 {
                o.resize(o.len() + n, a);
            }
            if len > 0 && src.chance(2, 3) {
                let i = x.pos(src, last);
                let a = x.val(src);
                o.set(i, a);
                r.set(i, a);
            }
            x.check("the other vector", &*o, &r)?;
            r.tidy();
            m.tidy();
            say!("v == {}", r.show());
            let (g, h) = (v.eq_dyn(&*o), o.eq_dyn(&**v));
            let want = r.0 == m.0;
            if g != want || h != want {
                return Err(format!("{} == {} is {} and {}", m.show(), r.show(), g, h));
            }
        }
        Clone => {
            say!("v = v.clone(), the old one emptied");
            let mut c = v.clone_box();
            std::mem::swap(v, &mut c);
            c.truncate(1);
            if c.len() == 1 {
                let y = x.val(src);
                c.set(0, y);
            }
        }
        Iter => {
            say!("iterating");
            let (mut lo, mut hi) = (0, len);
            let own = len < 1 << 26 && src.chance(1, 3);
            let c = if own { Some(v.clone_box()) } else { None };
            let mut it: Box<dyn DynIter> = match c {
                Some(c) => c.into_iter(),
                None => v.iter(),
            };
            let mut far = 0;
            for _ in 0..src.range(1, 12) {
                let q = src.below(5);
                let t = if q < 2 || far >= 2 {
                    src.below(3000)
                } else {
                    let y = x.pos(src, hi - lo);
                    // one by one
                    if q == 4 && y > 1 << 27 {
                        5
                    } else {
                        far += 1;
                        y
                    }
                };
                let (g, w, s);
                match q {
                    0 => {
                        s = "next".to_string();
                        g = it.next();
                        w = if lo < hi { m.get(lo) } else { None };
                        lo = lo.saturating_add(1).min(hi);
                    }
                    1 => {
                        s = "next_back".to_string();
                        g = it.next_back();
                        w = if lo < hi { m.get(hi - 1) } else { None };
                        hi = hi.saturating_sub(1).max(lo);
                    }
                    2 | 3 => {
                        s = format!("nth({})", t);
                        g = it.nth(t);
                        w = if t < hi - lo { m.get(lo + t) } else { None };
                        lo = lo.saturating_add(t).saturating_add(1).min(hi);
                    }
                    _ => {
                        s = format!("nth_back({})", t);
                        g = it.nth_back(t);
                        w = if t < hi - lo { m.get(hi - 1 - t) } else { None };
                        hi = hi.saturating_sub(t).saturating_sub(1).max(lo);
                    }
                }
                if g != w {
                    return Err(format!("{} gives {:?}, a Vec's iterator {:?}; {}..{} of {} were left after it", s, g, w, lo, hi, len));
                }
                if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
                    return Err(format!("after {} {} are left, len() is {}, size_hint() {:?}", s, hi - lo, it.len(), it.size_hint()));
                }
            }
        }
        Shrink => {
            say!("v.shrink_to_fit()");
            v.shrink_to_fit();
            let need = len.div_ceil(x.k);
            let inline = if f.info().storage == "smallvec_u32" { 4 } else { 0 };
            if v.storage_len() != need || v.storage_cap() > need.max(inline) {
                return Err(format!("after shrink_to_fit {} elements occupy {} blocks and keep {}, {} suffice", len, v.storage_len(), v.storage_cap(), need));
            }
        }
        Reserve => {
            let n = x.pos(src, x.max().saturating_sub(len));
            say!("v.reserve({})", n);
            v.reserve(n);
            if v.capacity() < len + n {
                return Err(format!("after reserve({}) at length {} the capacity is {}", n, len, v.capacity()));
            }
        }
        Oob => {
            let i = {
                let e: Vec<usize> = x.edges.iter().flat_map(|&e| [e, e.saturating_add(len), e.saturating_add(last)]).chain([len, len.saturating_add(1), len.saturating_add(x.k), usize::MAX, usize::MAX / 2]).filter(|&i| i >= len).collect();
                *src.pick(&e)
            };
            let a = x.val(src);
            let q = src.below(if room > 0 { 8 } else { 10 });
            say!("{} at {} of {}", ["get", "set", "remove", "swap_remove", "swap", "insert", "split_off", "reserve too much", "push", "insert"][q], i, len);
            x.touch(i);
            let g = match q {
                0 => {
                    if let Some(y) = v.get(i) {
                        return Err(format!("get({}) of {} is Some({})", i, len, y));
                    }
                    Err(String::new())
                }
                1 => catch(|| v.set(i, a)),
                2 => catch(|| drop(v.remove(i))),
                3 => catch(|| drop(v.swap_remove(i))),
                4 => catch(|| v.swap(i, 0)),
                5 => catch(|| v.insert(i.max(len.saturating_add(1)), a)),
                6 if room > 0 => catch(|| drop(v.split_off(i.max(len + 1)))),
                6 => Err(String::new()),
                7 if len > 0 => {
                    let y = room + 1 + src.below(2 * x.k).min(last);
                    catch(|| v.reserve(y))
                }
                7 => Err(String::new()),
                8 => catch(|| v.push(a)),
                _ => {
                    let y = x.pos(src, len);
                    catch(|| v.insert(y, a))
                }
            };
            if g.is_ok() {
                return Err(format!("{} does not panic", what));
            }
        }
        Raw => {
            if src.chance(1, 2) {
                let n = src.edgy(20 * x.k, &[0, 1, x.k]).min(room);
                let a = x.val(src);
                say!("reserve({}), write {} raw {} times, set_len", n, a, n);
                v.reserve(n);
                for i in 0..n {
                    unsafe { v.set_raw_unchecked(len + i, a) };
                }
                unsafe { v.set_len(len + n) };
                m.add(n, a);
                x.touch(len);
            } else {
                let n = x.pos(src, len);
                say!("truncate({}), set_len({})", n, len);
                v.truncate(n);
                if v.len() != n {
                    return Err(format!("truncate({}) leaves {}", n, v.len()));
                }
                unsafe { v.set_len(len) };
            }
            let len = m.len();
            for _ in 0..if len > 0 { 10 } else { 0 } {
                let i = x.pos(src, len - 1);
                let r = unsafe { v.get_raw_unchecked(i) };
                if Some(r) != m.get(i) {
                    return Err(format!("position {} of {} reads {} raw, the element is {:?}", i, len, r, m.get(i)));
                }
            }
        }
    }
    Ok(what)
}

const OTHER: [(K, u32); 7] = [(Set, 2), (Push, 1), (Truncate, 1), (Resize, 1), (Append, 1), (Split, 1), (Reserve, 1)];

macro_rules! props {
    ($($name:ident: [$($k:ident $w:expr),*] $more:expr;)*) => {
        $( fn $name(src: &mut Src, cx: &mut Cx) -> Case {
            let own = [$($k),*];
            let mut ws: Vec<(K, u32)> = vec![$(($k, $w)),*];
            if $more {
                ws.extend(OTHER.iter().filter(|x| !own.contains(&x.0)));
            }
            history(src, cx, &ws, &own)
        } )*
    };
}

props! {
    p01: [Set 4, Push 2, Pop 2, Swap 3, SwapRemove 2, Insert 2, Remove 2, Truncate 2, Resize 2, Retain 1, ForEach 1] false;
    p02: [Insert 3, Remove 3] true;
    p03: [From 2, Resize 4, Extend 2] true;
    p04: [Append 4, Split 4] true;
    p05: [Any 5, All 5] true;
    p06: [Clone 3, Eq 6] true;
    p07: [Iter 12] true;
    p08: [Shrink 10] true;
    p09: [Reserve 5, Shrink 3] true;
    p12: [Oob 12] true;
    p14: [Set 12] true;
    p17: [Raw 12] true;
}

fn main() {
    vt::engine::main(&[
        ("P01", p01), ("P02", p02), ("P03", p03), ("P04", p04), ("P05", p05), ("P06", p06), ("P07", p07), ("P08", p08), ("P09", p09), ("P12", p12), ("P14", p14), ("P17", p17),
    ]);
}
