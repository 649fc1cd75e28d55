//! Operations on packed vectors: generation, application to a real vector and to a plain Vec.
use crate::dynvec::*;
use crate::engine::*;
use std::fmt;

/// A list of elements that prints shortly.
#[derive(Clone, PartialEq, Eq)]
pub struct L(pub Vec<u64>);
impl fmt::Debug for L {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let v = &self.0;
        if v.len() > 3 && v.iter().all(|x| *x == v[0]) {
            write!(f, "[{}; {}]", v[0], v.len())
        } else if v.len() <= 40 {
            write!(f, "{:?}", v)
        } else {
            write!(f, "{:?}...({} items)", &v[..40], v.len())
        }
    }
}

/// What an iterator claims about its length.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    Exact,
    Zero,
    Less(usize),
    NoUpper,
    /// dishonest: claims more than it has
    Over(usize),
    /// dishonest: upper bound below what it has
    UpperLow,
    Panics,
}

pub struct HintIter<'a> {
    pub items: &'a [u64],
    pub pos: usize,
    pub hint: Hint,
    pub panic_at: Option<usize>,
    /// items offered after the first None (a non-fused iterator)
    pub ghost: bool,
    pub ended: bool,
}
impl<'a> HintIter<'a> {
    pub fn new(items: &'a [u64], hint: Hint) -> Self {
        HintIter { items, pos: 0, hint, panic_at: None, ghost: false, ended: false }
    }
}
impl<'a> Iterator for HintIter<'a> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        if self.panic_at == Some(self.pos) {
            panic!("iterator panics at item {}", self.pos);
        }
        match self.items.get(self.pos) {
            Some(&x) => {
                self.pos += 1;
                Some(x)
            }
            None if self.ended && self.ghost => self.items.first().copied(),
            None => {
                self.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len() - self.pos;
        match self.hint {
            Hint::Exact => (left, Some(left)),
            Hint::Zero => (0, None),
            Hint::Less(d) => (left.saturating_sub(d), Some(left + d)),
            Hint::NoUpper => (left, None),
            Hint::Over(d) => (left + d, Some(left + d)),
            Hint::UpperLow => (0, Some(0)),
            Hint::Panics => panic!("size_hint panics"),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pred {
    All,
    Nothing,
    Eq(u64),
    Ne(u64),
    /// by visit number
    Every(usize, usize),
    /// by visit number, pseudo-random
    Coin(u64),
}
impl Pred {
    pub fn keep(&self, i: usize, x: u64) -> bool {
        match *self {
            Pred::All => true,
            Pred::Nothing => false,
            Pred::Eq(y) => x == y,
            Pred::Ne(y) => x != y,
            Pred::Every(m, r) => i % m == r,
            Pred::Coin(s) => mix(s, i as u64) & 1 == 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Map {
    Id,
    Const(u64),
    /// by visit number: the others stay
    Every(usize, usize, u64),
    Table(L),
    Swap(u64, u64),
}
impl Map {
    pub fn map(&self, i: usize, x: u64) -> u64 {
        match self {
            Map::Id => x,
            Map::Const(y) => *y,
            Map::Every(m, r, y) => {
                if i % m == *r {
                    *y
                } else {
                    x
                }
            }
            Map::Table(t) => t.0[i % t.0.len()],
            Map::Swap(a, b) => {
                if x == *a {
                    *b
                } else if x == *b {
                    *a
                } else {
                    x
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ctor {
    New,
    Default,
    WithCapacity(usize),
    FromElem(u64, usize),
    FromSlice(L),
    FromVec(L),
    FromIter(L, Hint),
    MacroElem(u64, usize),
    MacroList(L),
}

/// How the other vector of a two-vector operation is made: its elements, then elements pushed
/// and truncated away again, then room reserved (its storage may then be longer than its length).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Other {
    pub items: L,
    pub junk: L,
    pub reserve: usize,
    pub shrink: bool,
}
impl Other {
    pub fn make(&self, f: &dyn Factory) -> Box<dyn DynVec> {
        let mut v = f.new();
        for &x in &self.items.0 {
            v.push(x);
        }
        for &x in &self.junk.0 {
            v.push(x);
        }
        v.truncate(self.items.0.len());
        if self.reserve > 0 {
            v.reserve(self.reserve);
        }
        if self.shrink {
            v.shrink_to_fit();
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Push(u64),
    Pop,
    Get(usize),
    Set(usize, u64),
    Swap(usize, usize),
    SwapRemove(usize),
    Insert(usize, u64),
    Remove(usize),
    Truncate(usize),
    Clear,
    Resize(usize, u64),
    Retain(Pred),
    ForEach(Map),
    Len,
    Extend(L, Hint),
    ExtendIter(Other),
    ExtendOwn(Other),
    Append(Other),
    /// at; go on with the tail?
    SplitOff(usize, bool),
    Reserve(usize),
    Shrink,
    CloneSelf,
    CloneFrom(Other),
    Rebuild(Ctor),
    Any(u64),
    All(u64),
    ToVec,
    Debug(bool),
    EqWith(Other),
    // callbacks that panic
    RetainPanic(Pred, usize),
    ForEachPanic(Map, usize),
    ExtendPanic(L, Hint, usize),
    /// clear/truncate, then set_len back to the old length
    RawTruncRestore(usize),
    /// reserve, raw writes, set_len
    RawAppend(L),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Unit,
    Val(Option<u64>),
    Num(usize),
    Bool(bool),
    List(L),
    Str(String),
    Panic,
}

pub fn make(f: &dyn Factory, c: &Ctor) -> Box<dyn DynVec> {
    match c {
        Ctor::New => f.new(),
        Ctor::Default => f.default(),
        Ctor::WithCapacity(n) => f.with_capacity(*n),
        Ctor::FromElem(x, n) => f.from_elem(*x, *n),
        Ctor::FromSlice(l) => f.from_slice(&l.0),
        Ctor::FromVec(l) => f.from_vec(&l.0),
        Ctor::FromIter(l, h) => f.from_iter(&mut HintIter::new(&l.0, *h)),
        Ctor::MacroElem(x, n) => f.macro_elem(*x, *n),
        Ctor::MacroList(l) => f.macro_list(&l.0),
    }
}

pub fn make_model(c: &Ctor) -> Vec<u64> {
    match c {
        Ctor::New | Ctor::Default | Ctor::WithCapacity(_) => vec![],
        Ctor::FromElem(x, n) | Ctor::MacroElem(x, n) => vec![*x; *n],
        Ctor::FromSlice(l) | Ctor::FromVec(l) | Ctor::FromIter(l, _) | Ctor::MacroList(l) => l.0.clone(),
    }
}

/// Applies `op` to the real vector; a panic is an outcome.
pub fn apply_real(f: &dyn Factory, v: &mut Box<dyn DynVec>, op: &Op) -> Out {
    catch(|| real(f, v, op)).unwrap_or(Out::Panic)
}

fn real(f: &dyn Factory, v: &mut Box<dyn DynVec>, op: &Op) -> Out {
    match op {
        Op::Push(x) => {
            v.push(*x);
            Out::Unit
        }
        Op::Pop => Out::Val(v.pop()),
        Op::Get(i) => Out::Val(v.get(*i)),
        Op::Set(i, x) => {
            v.set(*i, *x);
            Out::Unit
        }
        Op::Swap(i, j) => {
            v.swap(*i, *j);
            Out::Unit
        }
        Op::SwapRemove(i) => Out::Val(Some(v.swap_remove(*i))),
        Op::Insert(i, x) => {
            v.insert(*i, *x);
            Out::Unit
        }
        Op::Remove(i) => Out::Val(Some(v.remove(*i))),
        Op::Truncate(n) => {
            v.truncate(*n);
            Out::Unit
        }
        Op::Clear => {
            v.clear();
            Out::Unit
        }
        Op::Resize(n, x) => {
            v.resize(*n, *x);
            Out::Unit
        }
        Op::Retain(p) => {
            let mut seen = vec![];
            v.retain(&mut |x| {
                seen.push(x);
                p.keep(seen.len() - 1, x)
            });
            Out::List(L(seen))
        }
        Op::ForEach(m) => {
            let mut seen = vec![];
            v.for_each(&mut |x| {
                seen.push(x);
                m.map(seen.len() - 1, x)
            });
            Out::List(L(seen))
        }
        Op::Len => {
            if v.is_empty() != (v.len() == 0) {
                return Out::Str(format!("is_empty() = {} at length {}", v.is_empty(), v.len()));
            }
            Out::Num(v.len())
        }
        Op::Extend(l, h) => {
            v.extend(&mut HintIter::new(&l.0, *h));
            Out::Unit
        }
        Op::ExtendIter(o) => {
            let o = o.make(f);
            v.extend_iter(&*o);
            Out::Unit
        }
        Op::ExtendOwn(o) => {
            let o = o.make(f);
            v.extend_own(o);
            Out::Unit
        }
        Op::Append(o) => {
            let mut o = o.make(f);
            v.append(&mut *o);
            Out::Num(o.len())
        }
        Op::SplitOff(at, keep_tail) => {
            let mut t = v.split_off(*at);
            if *keep_tail {
                std::mem::swap(v, &mut t);
            }
            Out::List(L(contents(&*t).unwrap_or_default()))
        }
        Op::Reserve(n) => {
            v.reserve(*n);
            Out::Unit
        }
        Op::Shrink => {
            v.shrink_to_fit();
            Out::Unit
        }
        Op::CloneSelf => {
            let c = v.clone_box();
            *v = c;
            Out::Unit
        }
        Op::CloneFrom(o) => {
            let o = o.make(f);
            v.clone_from_dyn(&*o);
            Out::Unit
        }
        Op::Rebuild(c) => {
            *v = make(f, c);
            Out::Unit
        }
        Op::Any(x) => Out::Bool(v.any(*x)),
        Op::All(x) => Out::Bool(v.all(*x)),
        Op::ToVec => Out::List(L(v.to_vec())),
        Op::Debug(alt) => Out::Str(v.debug(*alt)),
        Op::EqWith(o) => {
            let o = o.make(f);
            Out::Bool(v.eq_dyn(&*o))
        }
        Op::RetainPanic(p, at) => {
            let mut n = 0;
            v.retain(&mut |x| {
                if n == *at {
                    panic!("predicate panics at {}", n);
                }
                n += 1;
                p.keep(n - 1, x)
            });
            Out::Unit
        }
        Op::ForEachPanic(m, at) => {
            let mut n = 0;
            v.for_each(&mut |x| {
                if n == *at {
                    panic!("closure panics at {}", n);
                }
                n += 1;
                m.map(n - 1, x)
            });
            Out::Unit
        }
        Op::ExtendPanic(l, h, at) => {
            let mut it = HintIter::new(&l.0, *h);
            it.panic_at = Some(*at);
            v.extend(&mut it);
            Out::Unit
        }
        Op::RawTruncRestore(n) => {
            let old = v.len();
            if *n == 0 {
                v.clear();
            } else {
                v.truncate(*n);
            }
            unsafe { v.set_len(old) };
            Out::Unit
        }
        Op::RawAppend(l) => {
            let n = v.len();
            v.reserve(l.0.len());
            for (i, &x) in l.0.iter().enumerate() {
                unsafe { v.set_raw_unchecked(n + i, x) };
            }
            unsafe { v.set_len(n + l.0.len()) };
            Out::Unit
        }
    }
}

/// The same on a plain Vec.  Callback panics in retain leave the model as it was (their effect is
/// not fixed by any property): callers resync.
pub fn apply_model(f: &dyn Factory, m: &mut Vec<u64>, op: &Op) -> Out {
    let n = m.len();
    match op {
        Op::Push(x) => {
            m.push(*x);
            Out::Unit
        }
        Op::Pop => Out::Val(m.pop()),
        Op::Get(i) => Out::Val(m.get(*i).copied()),
        Op::Set(i, x) => {
            if *i >= n {
                return Out::Panic;
            }
            m[*i] = *x;
            Out::Unit
        }
        Op::Swap(i, j) => {
            if *i >= n || *j >= n {
                return Out::Panic;
            }
            m.swap(*i, *j);
            Out::Unit
        }
        Op::SwapRemove(i) => {
            if *i >= n {
                return Out::Panic;
            }
            Out::Val(Some(m.swap_remove(*i)))
        }
        Op::Insert(i, x) => {
            if *i > n {
                return Out::Panic;
            }
            m.insert(*i, *x);
            Out::Unit
        }
        Op::Remove(i) => {
            if *i >= n {
                return Out::Panic;
            }
            Out::Val(Some(m.remove(*i)))
        }
        Op::Truncate(k) => {
            m.truncate(*k);
            Out::Unit
        }
        Op::Clear => {
            m.clear();
            Out::Unit
        }
        Op::Resize(k, x) => {
            m.resize(*k, *x);
            Out::Unit
        }
        Op::Retain(p) => {
            let seen = m.clone();
            let mut i = 0;
            m.retain(|x| {
                i += 1;
                p.keep(i - 1, *x)
            });
            Out::List(L(seen))
        }
        Op::ForEach(f) => {
            let seen = m.clone();
            for (i, x) in m.iter_mut().enumerate() {
                *x = f.map(i, *x);
            }
            Out::List(L(seen))
        }
        Op::Len => Out::Num(n),
        Op::Extend(l, h) => {
            if *h == Hint::Panics {
                return Out::Panic;
            }
            m.extend_from_slice(&l.0);
            Out::Unit
        }
        Op::ExtendIter(o) | Op::ExtendOwn(o) => {
            m.extend_from_slice(&o.items.0);
            Out::Unit
        }
        Op::Append(o) => {
            m.extend_from_slice(&o.items.0);
            Out::Num(0)
        }
        Op::SplitOff(at, keep_tail) => {
            if *at > n {
                return Out::Panic;
            }
            let mut t = m.split_off(*at);
            if *keep_tail {
                std::mem::swap(m, &mut t);
            }
            Out::List(L(t))
        }
        Op::Reserve(k) => {
            if n.checked_add(*k).is_none() {
                return Out::Panic;
            }
            Out::Unit
        }
        Op::Shrink | Op::CloneSelf => Out::Unit,
        Op::CloneFrom(o) => {
            *m = o.items.0.clone();
            Out::Unit
        }
        Op::Rebuild(c) => {
            *m = make_model(c);
            Out::Unit
        }
        Op::Any(x) => Out::Bool(m.iter().any(|y| y == x)),
        Op::All(x) => Out::Bool(m.iter().all(|y| y == x)),
        Op::ToVec => Out::List(L(m.clone())),
        Op::Debug(alt) => Out::Str(f.model_debug(m, *alt)),
        Op::EqWith(o) => Out::Bool(*m == o.items.0),
        Op::RetainPanic(p, at) => {
            if *at < n {
                Out::Panic
            } else {
                apply_model(f, m, &Op::Retain(p.clone()));
                Out::Unit
            }
        }
        Op::ForEachPanic(mp, at) => {
            for (i, x) in m.iter_mut().enumerate().take(*at) {
                *x = mp.map(i, *x);
            }
            if *at < n {
                Out::Panic
            } else {
                Out::Unit
            }
        }
        Op::ExtendPanic(l, h, at) => {
            if *h == Hint::Panics {
                return Out::Panic;
            }
            m.extend_from_slice(&l.0[..(*at).min(l.0.len())]);
            if *at <= l.0.len() {
                Out::Panic
            } else {
                Out::Unit
            }
        }
        Op::RawTruncRestore(_) => Out::Unit,
        Op::RawAppend(l) => {
            m.extend_from_slice(&l.0);
            Out::Unit
        }
    }
}

/// All elements through `get`.
pub fn contents(v: &dyn DynVec) -> Result<Vec<u64>, String> {
    let n = v.len();
    if n > 1 << 22 {
        return Err(format!("length is {}", n));
    }
    let mut r = Vec::with_capacity(n);
    for i in 0..n {
        match v.get(i) {
            Some(x) => r.push(x),
            None => return Err(format!("get({}) is None at length {}", i, n)),
        }
    }
    Ok(r)
}

/// Compares the vector with the model.
pub fn check_same(what: &dyn Fn() -> String, v: &dyn DynVec, m: &[u64]) -> Case {
    if v.len() != m.len() {
        return Err(format!("{}: length is {}, a Vec has {}", what(), v.len(), m.len()));
    }
    for (i, &x) in m.iter().enumerate() {
        match v.get(i) {
            Some(y) if x == y => {}
            y => return Err(format!("{}: element {} of {} is {:?}, a Vec has {}", what(), i, m.len(), y, x)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generation

pub struct Gen {
    pub n: usize,
    pub k: usize,
    pub pal: Vec<u64>,
    /// largest length aimed at
    pub cap: usize,
    /// tens of thousands of elements: counters of 8 and 16 bits are not enough
    pub big: bool,
}

/// How rare big cases are; set by properties whose cases do much work per element.
pub static BIG_ONE_IN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(4000);

/// Sizes at which something kept in 8 or 16 bits goes wrong: elements, or blocks of k.
fn big_edges(k: usize) -> [usize; 14] {
    let a = [256 * k, 65536, 32768, 131072, 65536 * k.min(2), 256, 255 * k];
    let mut r = [0; 14];
    for (i, x) in a.into_iter().enumerate() {
        r[2 * i] = x;
        r[2 * i + 1] = x + 1 - 2 * (i % 2);
    }
    r
}

pub fn value(src: &mut Src, n: usize) -> u64 {
    let h = 1usize << (width_of(n) - 1);
    src.edgy(n - 1, &[0, n - 1, n - 1, 1, h, h - 1, n / 2, n.saturating_sub(2)]) as u64
}

impl Gen {
    pub fn new(src: &mut Src, info: Info) -> Self {
        crate::engine::dict::units(info.k, width_of(info.n));
        let np = [1usize, 2, 2, 3, 4, 6][src.below(6)];
        let nonzero = src.chance(1, 3);
        let mut pal = vec![];
        for _ in 0..np {
            let mut x = value(src, info.n);
            if nonzero && x == 0 {
                x = info.n as u64 - 1;
            }
            pal.push(x);
        }
        let big = src.chance(1, BIG_ONE_IN.load(std::sync::atomic::Ordering::Relaxed));
        let cap = if big { 140_000 } else { (12 * info.k).clamp(48, 1400) };
        let cap = cap.max(src.extra_cap());
        Gen { n: info.n, k: info.k, pal, cap, big }
    }
    pub fn val(&self, src: &mut Src) -> u64 {
        *src.pick(&self.pal)
    }
    /// A number of elements, often near a multiple of the block or the bulk-fill threshold.
    pub fn count(&self, src: &mut Src, max: usize) -> usize {
        let k = self.k;
        if self.big && src.chance(1, 2) {
            return src.edgy(max, &big_edges(k));
        }
        src.edgy(
            max,
            &[0, 1, 2, k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, 3 * k, 4 * k - 1, 4 * k, 4 * k + 1, 5 * k - 1, 5 * k, 5 * k + 1, 6 * k, 7 * k + 2, 9 * k],
        )
    }
    /// A position in 0..=max.
    pub fn pos(&self, src: &mut Src, max: usize) -> usize {
        let k = self.k;
        let b = max / k * k;
        if self.big && src.chance(1, 2) {
            return src.edgy(max, &big_edges(k));
        }
        src.edgy(max, &[0, max, max.saturating_sub(1), 1, k - 1, k, k + 1, 2 * k - 1, 2 * k, b, b.saturating_sub(1), b + 1, max / 2])
    }
    pub fn list_len(&self, src: &mut Src, n: usize) -> L {
        let mode = src.weighted(&[3, 5, 2]);
        match mode {
            0 => {
                let x = self.val(src);
                L(vec![x; n])
            }
            1 => {
                let s = src.upto(0xffff);
                L((0..n).map(|i| self.pal[(mix(s, i as u64) % self.pal.len() as u64) as usize]).collect())
            }
            _ => {
                let x = self.val(src);
                let y = self.val(src);
                let j = src.below(n);
                let mut v = vec![x; n];
                if n > 0 {
                    v[j] = y;
                }
                L(v)
            }
        }
    }
    pub fn list(&self, src: &mut Src, max: usize) -> L {
        let n = self.count(src, max);
        self.list_len(src, n)
    }
    pub fn hint(&self, src: &mut Src) -> Hint {
        match src.weighted(&[5, 3, 2, 2]) {
            0 => Hint::Exact,
            1 => Hint::Zero,
            2 => Hint::Less(src.range(1, 2 * self.k + 1)),
            _ => Hint::NoUpper,
        }
    }
    pub fn bad_hint(&self, src: &mut Src) -> Hint {
        match src.weighted(&[6, 2, 1]) {
            0 => Hint::Over(src.range(1, 3 * self.k + 1)),
            1 => Hint::UpperLow,
            _ => Hint::Panics,
        }
    }
    pub fn pred(&self, src: &mut Src) -> Pred {
        match src.weighted(&[1, 1, 2, 2, 2, 4]) {
            0 => Pred::All,
            1 => Pred::Nothing,
            2 => Pred::Eq(self.val(src)),
            3 => Pred::Ne(self.val(src)),
            4 => {
                let m = src.range(2, 9);
                Pred::Every(m, src.below(m))
            }
            _ => Pred::Coin(src.upto(0xffff)),
        }
    }
    pub fn map(&self, src: &mut Src) -> Map {
        match src.weighted(&[1, 2, 3, 4, 2]) {
            0 => Map::Id,
            1 => Map::Const(self.val(src)),
            2 => {
                let m = src.range(2, 9);
                Map::Every(m, src.below(m), self.val(src))
            }
            3 => {
                let n = src.range(1, 7);
                Map::Table(self.list_len(src, n))
            }
            _ => Map::Swap(self.val(src), self.val(src)),
        }
    }
    pub fn other(&self, src: &mut Src, max: usize) -> Other {
        let items = self.list(src, max);
        let junk = if src.chance(1, 2) { self.list(src, 3 * self.k) } else { L(vec![]) };
        let reserve = if src.chance(1, 3) { self.count(src, 5 * self.k) } else { 0 };
        let shrink = src.chance(1, 6);
        Other { items, junk, reserve, shrink }
    }
    pub fn ctor(&self, src: &mut Src) -> Ctor {
        let max = self.cap;
        match src.weighted(&[2, 1, 3, 4, 2, 2, 3, 2, 1]) {
            0 => Ctor::New,
            1 => Ctor::Default,
            2 => Ctor::WithCapacity(self.count(src, max)),
            3 => {
                let x = self.val(src);
                Ctor::FromElem(x, self.count(src, max))
            }
            4 => Ctor::FromSlice(self.list(src, max)),
            5 => Ctor::FromVec(self.list(src, max)),
            6 => {
                let l = self.list(src, max);
                Ctor::FromIter(l, self.hint(src))
            }
            7 => {
                let x = self.val(src);
                Ctor::MacroElem(x, self.count(src, max))
            }
            _ => {
                let n = src.below(5);
                Ctor::MacroList(self.list_len(src, n))
            }
        }
    }
    /// One operation for a vector of length `len`; `ws` are the weights by kind (see KINDS).
    pub fn op(&self, src: &mut Src, len: usize, ws: &[u32]) -> Op {
        let kind = src.weighted(ws);
        let room = self.cap.saturating_sub(len);
        // kinds that need an element turn into push on an empty vector
        match kind {
            P_PUSH => Op::Push(self.val(src)),
            P_POP => Op::Pop,
            P_GET if len > 0 => Op::Get(self.pos(src, len - 1)),
            P_SET if len > 0 => {
                let i = self.pos(src, len - 1);
                Op::Set(i, self.val(src))
            }
            P_SWAP if len > 0 => Op::Swap(self.pos(src, len - 1), self.pos(src, len - 1)),
            P_SWAPREM if len > 0 => Op::SwapRemove(self.pos(src, len - 1)),
            P_INSERT => {
                let i = self.pos(src, len);
                Op::Insert(i, self.val(src))
            }
            P_REMOVE if len > 0 => Op::Remove(self.pos(src, len - 1)),
            P_TRUNC => {
                // sometimes past the end: nothing happens
                let n = self.pos(src, len + 2);
                Op::Truncate(n)
            }
            P_CLEAR => Op::Clear,
            P_RESIZE => {
                let n = if src.chance(1, 4) { self.pos(src, len) } else { len + self.count(src, room.max(4)) };
                Op::Resize(n, self.val(src))
            }
            P_RETAIN => Op::Retain(self.pred(src)),
            P_FOREACH => Op::ForEach(self.map(src)),
            P_LEN => Op::Len,
            P_EXTEND => {
                let l = self.list(src, room.max(4));
                Op::Extend(l, self.hint(src))
            }
            P_EXTITER => Op::ExtendIter(self.other(src, room.max(4))),
            P_EXTOWN => Op::ExtendOwn(self.other(src, room.max(4))),
            P_APPEND => Op::Append(self.other(src, room.max(4))),
            P_SPLIT => {
                let at = self.pos(src, len);
                Op::SplitOff(at, src.chance(1, 2))
            }
            P_RESERVE => Op::Reserve(self.count(src, room.max(4))),
            P_SHRINK => Op::Shrink,
            P_CLONE => Op::CloneSelf,
            P_CLONEFROM => Op::CloneFrom(self.other(src, self.cap / 2)),
            P_REBUILD => Op::Rebuild(self.ctor(src)),
            P_ANY => Op::Any(if src.chance(1, 2) { self.val(src) } else { value(src, self.n) }),
            P_ALL => Op::All(self.val(src)),
            P_TOVEC => Op::ToVec,
            P_DEBUG => Op::Debug(src.chance(1, 3)),
            P_EQ => Op::EqWith(self.other(src, room.max(4))),
            P_OOB => match src.below(8) {
                0 => Op::Get(self.oob(src, len)),
                1 => Op::Set(self.oob(src, len), self.val(src)),
                2 => Op::Remove(self.oob(src, len)),
                3 => Op::SwapRemove(self.oob(src, len)),
                4 => {
                    let a = self.oob(src, len);
                    let b = self.pos(src, len);
                    if src.chance(1, 2) {
                        Op::Swap(a, b)
                    } else {
                        Op::Swap(b, a)
                    }
                }
                5 => Op::Insert(self.oob(src, len + 1), self.val(src)),
                6 => Op::SplitOff(self.oob(src, len + 1), src.chance(1, 2)),
                _ if len > 0 => Op::Reserve(usize::MAX - src.below(len)),
                _ => Op::Remove(self.oob(src, len)),
            },
            P_CBPANIC => {
                let at = self.pos(src, len);
                match src.below(3) {
                    0 => Op::RetainPanic(self.pred(src), at),
                    1 => Op::ForEachPanic(self.map(src), at),
                    _ => {
                        let l = self.list(src, room.max(4));
                        let at = self.pos(src, l.0.len());
                        let h = if src.chance(1, 4) { self.bad_hint(src) } else { self.hint(src) };
                        Op::ExtendPanic(l, h, at)
                    }
                }
            }
            P_BADHINT => {
                let l = self.list(src, room.max(4));
                Op::Extend(l, self.bad_hint(src))
            }
            P_RAW => {
                if src.chance(1, 2) {
                    Op::RawTruncRestore(self.pos(src, len))
                } else {
                    Op::RawAppend(self.list(src, room.max(4)))
                }
            }
            _ => Op::Push(self.val(src)),
        }
    }
    /// A position at or past `len`.
    pub fn oob(&self, src: &mut Src, len: usize) -> usize {
        let k = self.k;
        match src.weighted(&[5, 3, 3, 2, 1, 1]) {
            0 => len,
            1 => len + src.below(k + 1),
            2 => len + src.below(4 * k + 8),
            3 => (len / k + 1) * k + src.below(2),
            4 => usize::MAX - src.below(2 * k + 2),
            _ => (1usize << src.range(7, usize::BITS as usize - 1)) + src.below(4),
        }
        .max(len)
    }
}

pub const P_PUSH: usize = 0;
pub const P_POP: usize = 1;
pub const P_GET: usize = 2;
pub const P_SET: usize = 3;
pub const P_SWAP: usize = 4;
pub const P_SWAPREM: usize = 5;
pub const P_INSERT: usize = 6;
pub const P_REMOVE: usize = 7;
pub const P_TRUNC: usize = 8;
pub const P_CLEAR: usize = 9;
pub const P_RESIZE: usize = 10;
pub const P_RETAIN: usize = 11;
pub const P_FOREACH: usize = 12;
pub const P_LEN: usize = 13;
pub const P_EXTEND: usize = 14;
pub const P_EXTITER: usize = 15;
pub const P_EXTOWN: usize = 16;
pub const P_APPEND: usize = 17;
pub const P_SPLIT: usize = 18;
pub const P_RESERVE: usize = 19;
pub const P_SHRINK: usize = 20;
pub const P_CLONE: usize = 21;
pub const P_CLONEFROM: usize = 22;
pub const P_REBUILD: usize = 23;
pub const P_ANY: usize = 24;
pub const P_ALL: usize = 25;
pub const P_TOVEC: usize = 26;
pub const P_DEBUG: usize = 27;
pub const P_EQ: usize = 28;
pub const P_OOB: usize = 29;
pub const P_CBPANIC: usize = 30;
pub const P_BADHINT: usize = 31;
pub const P_RAW: usize = 32;
pub const KINDS: usize = 33;

/// Weights: the given ones, each of them dropped with some chance (swarm), at least one kept.
pub fn swarm(src: &mut Src, base: &[(usize, u32)]) -> Vec<u32> {
    let mut w = vec![0; KINDS];
    for &(k, x) in base {
        w[k] = x;
    }
    if src.chance(2, 3) {
        for &(k, _) in base {
            if src.chance(1, 3) {
                w[k] = 0;
            }
        }
        if w.iter().all(|&x| x == 0) {
            for &(k, x) in base {
                w[k] = x;
            }
        }
    }
    w
}

/// A vector with a varied past.  Returns it with its contents as read through `get`
/// (only the calling property's own operations are judged), or None if making it went wrong.
pub fn junk_vec(src: &mut Src, cx: &mut Cx, f: &dyn Factory, g: &Gen, steps: usize) -> Option<(Box<dyn DynVec>, Vec<u64>)> {
    const W: &[(usize, u32)] = &[
        (P_PUSH, 3), (P_POP, 2), (P_SET, 2), (P_SWAPREM, 1), (P_INSERT, 2), (P_REMOVE, 2), (P_TRUNC, 4), (P_CLEAR, 1), (P_RESIZE, 3),
        (P_RETAIN, 1), (P_FOREACH, 1), (P_EXTEND, 3), (P_EXTITER, 1), (P_EXTOWN, 1), (P_APPEND, 2), (P_SPLIT, 2), (P_RESERVE, 2),
        (P_SHRINK, 1), (P_CLONE, 1), (P_CLONEFROM, 1),
    ];
    let c = g.ctor(src);
    cx.log(|| format!("let mut v = {:?}", c));
    let mut v = match catch(|| make(f, &c)) {
        Ok(v) => v,
        Err(_) => {
            cx.discarded = true;
            return None;
        }
    };
    let w = swarm(src, W);
    let n = src.below(steps + 1);
    for _ in 0..n {
        let len = v.len();
        if len > 1 << 20 {
            cx.discarded = true;
            return None;
        }
        let op = g.op(src, len, &w);
        cx.log(|| format!("v: {:?}", op));
        if apply_real(f, &mut v, &op) == Out::Panic {
            cx.discarded = true;
            return None;
        }
    }
    match contents(&*v) {
        Ok(c) => Some((v, c)),
        Err(_) => {
            cx.discarded = true;
            None
        }
    }
}
