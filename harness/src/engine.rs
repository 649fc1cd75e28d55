//! A small property-based testing engine with internal (choice-sequence) shrinking.
//!
//! A case is a function of a list of recorded integer choices.  In generation the choices come
//! from a seeded generator, in replay from a list (missing choices read as 0, too large ones are
//! clamped), so any list is a valid case and shrinking works on the list alone.
//! Shrinking and replay run every candidate in a forked child: a candidate that aborts or
//! segfaults is a failing candidate like any other.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut sm = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let a = sm();
        let b = sm() | 1;
        Rng(a, b)
    }
    // xoroshiro128+
    pub fn next(&mut self) -> u64 {
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(31)).next()
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    journal: Option<File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Rng::new(seed), replay: None, pos: 0, rec: Vec::with_capacity(128), journal: None }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { rng: Rng::new(0), replay: Some(v), pos: 0, rec: vec![], journal: None }
    }
    /// A choice in 0..=max; 0 is the simplest. `f` picks it in generation.
    pub fn draw(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0).min(max);
                self.pos += 1;
                v
            }
            None => f(&mut self.rng).min(max),
        };
        if let Some(j) = &mut self.journal {
            let _ = j.write_all(&v.to_le_bytes());
        }
        self.rec.push(v);
        v
    }
    pub fn upto(&mut self, max: u64) -> u64 {
        self.draw(max, |r| dict::pick(r, max, 5).unwrap_or_else(|| r.upto(max)))
    }
    /// A length to allow for beyond the usual one: 0, or as large as a number of the dictionary needs.
    pub fn extra_cap(&mut self) -> usize {
        self.draw(300_000, |r| dict::cap(r)) as usize
    }
    /// uniform in 0..n (0 when n == 0)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            self.upto(n as u64 - 1) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    /// true num times out of den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(1, |r| (r.upto(den - 1) < num) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|&w| w as u64).sum();
        assert!(total > 0);
        let i = self.draw(ws.len() as u64 - 1, |r| {
            let mut t = r.upto(total - 1);
            for (i, &w) in ws.iter().enumerate() {
                if t < w as u64 {
                    return i as u64;
                }
                t -= w as u64;
            }
            unreachable!()
        }) as usize;
        // shrinking does not know the weights
        if ws[i] == 0 {
            ws.iter().position(|&w| w > 0).unwrap()
        } else {
            i
        }
    }
    /// "another one?" flag for lists of mean length `mean`
    pub fn more(&mut self, mean: u64) -> bool {
        self.chance(mean, mean + 1)
    }
    /// One of the listed interesting numbers or anything in 0..=max.
    pub fn edgy(&mut self, max: usize, edges: &[usize]) -> usize {
        let e: Vec<usize> = edges.iter().copied().filter(|&e| e <= max).collect();
        self.draw(max as u64, |r| {
            if let Some(x) = dict::pick(r, max as u64, 20) {
                x
            } else if !e.is_empty() && r.upto(99) < 60 {
                e[r.upto(e.len() as u64 - 1) as usize] as u64
            } else {
                r.upto(max as u64)
            }
        }) as usize
    }
}

/// Numbers that the code under test has and the code this was written against has not
/// (`lib/build.py`): boundaries worth trying.
pub mod dict {
    use super::Rng;
    use std::cell::Cell;
    use std::sync::OnceLock;

    thread_local! {
        /// elements per block, bits per element
        static UNITS: Cell<(u64, u64)> = const { Cell::new((1, 1)) };
    }
    fn numbers() -> &'static [u64] {
        static D: OnceLock<Vec<u64>> = OnceLock::new();
        D.get_or_init(|| std::env::var("DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
    }
    pub fn units(k: usize, w: usize) {
        UNITS.with(|u| u.set((k as u64, w as u64)));
    }
    /// A number of the dictionary as a count of something.
    fn scaled(r: &mut Rng) -> u64 {
        let d = numbers();
        let x = d[r.upto(d.len() as u64 - 1) as usize];
        let (k, w) = UNITS.with(|u| u.get());
        match r.upto(9) {
            0..=4 => x,
            5 => x.saturating_mul(k),
            6 => x / w,
            7 => x.saturating_mul(8) / w,
            8 => x / k,
            _ => x.saturating_mul(2),
        }
    }
    pub fn pick(r: &mut Rng, max: u64, percent: u64) -> Option<u64> {
        if max < 3 || numbers().is_empty() || r.upto(99) >= percent {
            return None;
        }
        for _ in 0..3 {
            let x = scaled(r);
            let x = match r.upto(4) {
                0 => x.saturating_sub(1),
                1 => x.saturating_add(1),
                2 if x <= max => max - x,
                _ => x,
            };
            if x <= max {
                return Some(x);
            }
        }
        None
    }
    pub fn cap(r: &mut Rng) -> u64 {
        if numbers().is_empty() {
            return 0;
        }
        let x = scaled(r);
        if x > 200_000 || r.upto(6 + x / 64) > 0 {
            return 0;
        }
        x + x / 4 + 3 * UNITS.with(|u| u.get()).0 + 8
    }
}

/// Context of one case: trace, classification.
pub struct Cx {
    pub tracing: bool,
    pub trace: Vec<String>,
    trace_fd: Option<File>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub discarded: bool,
}
impl Cx {
    pub fn new(tracing: bool) -> Self {
        Cx { tracing, trace: vec![], trace_fd: None, labels: BTreeMap::new(), nontrivial: false, discarded: false }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            if let Some(fd) = &mut self.trace_fd {
                let _ = fd.write_all(s.as_bytes());
                let _ = fd.write_all(b"\n");
            }
            self.trace.push(s);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
}

pub type Case = Result<(), String>;
pub type Prop = fn(&mut Src, &mut Cx) -> Case;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static PANIC_PIPE: RefCell<Option<File>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{} at {}", m, l);
        PANIC_PIPE.with(|p| {
            if let Some(f) = &mut *p.borrow_mut() {
                let _ = f.write_all(format!("panic: {}\n", m).as_bytes());
            }
        });
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// Runs `f`; Err(message) if it panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_case(p: Prop, src: &mut Src, cx: &mut Cx) -> Case {
    match catch(|| p(src, cx)) {
        Ok(r) => r,
        Err(m) => Err(format!("unexpected panic: {}", m)),
    }
}

fn fnv(rec: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in rec {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))
}
fn jnums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(","))
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn setitimer(which: i32, new: *const [isize; 4], old: *mut [isize; 4]) -> i32;
}

#[repr(C)]
struct Timespec(isize, isize);
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread, in nanoseconds.
pub fn cpu() -> u64 {
    let mut t = Timespec(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}

/// SIGPROF kills the process when it has used so many seconds of processor time from now on.
/// A case takes milliseconds: one that is still running then does not end.
fn cpu_limit(secs: i64) {
    if !cfg!(miri) {
        unsafe {
            setitimer(2, &[0, 0, secs as isize, 0], std::ptr::null_mut());
        }
    }
}
pub const SIGPROF: i32 = 27;

/// Result of one candidate in a forked child: None = passes.
/// hang: None = running out of time is no failure, Some(s) = it is one, after s seconds.
fn run_forked(p: Prop, choices: &[u64], dir: &str, trace: bool, hang: Option<i64>) -> Option<(String, Vec<u64>, Vec<String>)> {
    let out = format!("{}/cand.out", dir);
    let rec = format!("{}/cand.rec", dir);
    let tr = format!("{}/cand.trace", dir);
    let fout = File::create(&out).unwrap();
    let frec = File::create(&rec).unwrap();
    let ftr = File::create(&tr).unwrap();
    unsafe {
        let pid = fork();
        if pid == 0 {
            cpu_limit(hang.unwrap_or(20));
            PANIC_PIPE.with(|p| *p.borrow_mut() = Some(fout.try_clone().unwrap()));
            let mut src = Src::replay(choices.to_vec());
            src.journal = Some(frec);
            let mut cx = Cx::new(trace);
            if trace {
                cx.trace_fd = Some(ftr);
            }
            let r = run_case(p, &mut src, &mut cx);
            if let Err(m) = r {
                let mut fout = fout;
                let _ = fout.write_all(format!("FAIL {}\n", m).as_bytes());
                _exit(1);
            }
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let sig = st & 0x7f;
        if st == 0 || sig == 9 || (sig == SIGPROF && hang.is_none()) {
            return None;
        }
        let mut s = String::new();
        File::open(&out).unwrap().read_to_string(&mut s).ok();
        let msg = match s.lines().find(|l| l.starts_with("FAIL ")) {
            Some(_) => s[s.find("FAIL ").unwrap() + 5..].trim().to_string(),
            None if sig == SIGPROF => format!("does not end ({} s of processor time)", hang.unwrap()),
            None => format!("process died with signal {}: {}", sig, s.lines().last().unwrap_or("")),
        };
        let mut b = vec![];
        File::open(&rec).unwrap().read_to_end(&mut b).ok();
        let r = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut t = String::new();
        File::open(&tr).unwrap().read_to_string(&mut t).ok();
        Some((msg, r, t.lines().map(|l| l.to_string()).collect()))
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// A case that ran out of time is run again with confirm seconds; only if it still does not end
/// is it a failure, and shrunk with the shorter limit hang.
fn shrink(p: Prop, start: Vec<u64>, dir: &str, budget: usize, hang: Option<i64>, confirm: i64) -> (Vec<u64>, String, Vec<String>, usize) {
    let mut runs = 0;
    let first = run_forked(p, &start, dir, false, hang.map(|_| confirm));
    let (mut msg, mut best) = match first {
        Some((m, r, _)) => (m, r),
        None => return (start, "NOT REPRODUCED".into(), vec![], 1),
    };
    let original = best.clone();
    let mut attempt = |c: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        if runs >= budget {
            return false;
        }
        runs += 1;
        if let Some((m, r, _)) = run_forked(p, &c, dir, false, hang) {
            if simpler(&r, best) {
                *best = r;
                *msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        for size in [64usize, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i = i.min(best.len());
                if i == 0 {
                    break;
                }
                let lo = i.saturating_sub(size);
                let mut c = best.clone();
                c.drain(lo..i);
                if !attempt(c, &mut best, &mut msg) {
                    i = if size > 4 { i.saturating_sub(size / 2 + 1) } else { i - 1 };
                }
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut msg) {
                    let (mut lo, mut hi) = (0u64, v);
                    while i < best.len() && hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(c, &mut best, &mut msg);
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    let (m, _, t) = match run_forked(p, &best, dir, true, hang.map(|_| 40)) {
        Some(x) => x,
        None if hang.is_some() => {
            // it was only slow: keep the case that was confirmed
            best = original;
            (msg, vec![], vec![])
        }
        None => (msg, vec![], vec![]),
    };
    (best, m, t, runs)
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// Command line of a check binary.
///   run    --prop P --seed S --shard K --shards M --cases N --journal FILE --hashes FILE
///   shrink --prop P (--case-seed S | --choices FILE) --dir DIR --out FILE
///   replay --prop P --choices FILE --dir DIR
pub fn main(props: &[(&str, Prop)]) {
    install_hook();
    let mode = std::env::args().nth(1).unwrap_or_default();
    if mode == "list" {
        for (n, _) in props {
            println!("{}", n);
        }
        return;
    }
    let name = arg("--prop").expect("--prop");
    let p = props.iter().find(|x| x.0 == name).unwrap_or_else(|| panic!("no property {}", name)).1;
    let cpu: i64 = arg("--cpu").map_or(30, |x| x.parse().unwrap());
    match mode.as_str() {
        "run" => {
            let seed: u64 = arg("--seed").unwrap().parse().unwrap();
            let shard: u64 = arg("--shard").unwrap().parse().unwrap();
            let shards: u64 = arg("--shards").unwrap().parse().unwrap();
            let cases: u64 = arg("--cases").unwrap().parse().unwrap();
            let journal = arg("--journal").map(|f| File::create(f).unwrap());
            let mut hashes: Vec<u8> = vec![];
            let mut seen = std::collections::HashSet::new();
            let (mut n, mut nt, mut disc) = (0u64, 0u64, 0u64);
            let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut samples: Vec<String> = vec![];
            let ps = mix(seed, fnv(&name.bytes().map(|b| b as u64).collect::<Vec<_>>()));
            let slow: Option<u128> = arg("--slow").map(|x| x.parse().unwrap());
            let mut i = shard;
            while i < cases {
                let cs = mix(ps, i);
                cpu_limit(cpu);
                if let Some(j) = &journal {
                    let _ = j.write_all_at(format!("{:020}\n", cs).as_bytes(), 0);
                }
                let want_sample = samples.len() < 2 && n < 400;
                let mut src = Src::random(cs);
                let mut cx = Cx::new(want_sample);
                let t0 = std::time::Instant::now();
                let r = run_case(p, &mut src, &mut cx);
                n += 1;
                if let Some(ms) = slow {
                    if t0.elapsed().as_millis() >= ms {
                        eprintln!("slow: {} ms, case {} {:?}", t0.elapsed().as_millis(), cs, cx.labels.keys());
                    }
                }
                if let Err(m) = r {
                    println!(
                        "{{\"failed\":true,\"case_seed\":{},\"message\":{},\"choices\":{},\"evaluations\":{}}}",
                        cs, jstr(&m), jnums(&src.rec), n
                    );
                    std::process::exit(1);
                }
                if cx.discarded {
                    disc += 1;
                } else if cx.nontrivial {
                    nt += 1;
                    let h = fnv(&src.rec);
                    if seen.insert(h) {
                        hashes.extend_from_slice(&h.to_le_bytes());
                    }
                    if want_sample && cx.trace.len() >= 2 {
                        let mut t = cx.trace.clone();
                        if t.len() > 40 {
                            t.truncate(40);
                            t.push("...".into());
                        }
                        for l in t.iter_mut() {
                            if l.len() > 300 {
                                let mut k = 300;
                                while !l.is_char_boundary(k) {
                                    k -= 1;
                                }
                                l.truncate(k);
                                l.push_str("...");
                            }
                        }
                        samples.push(format!("{{\"case_seed\":{},\"steps\":{}}}", cs, jlist(&t)));
                    }
                }
                for (k, v) in cx.labels {
                    *labels.entry(k).or_insert(0) += v;
                }
                i += shards;
            }
            if let Some(h) = arg("--hashes") {
                std::fs::write(h, hashes).unwrap();
            }
            let l: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
            println!(
                "{{\"failed\":false,\"evaluations\":{},\"nontrivial\":{},\"discarded\":{},\"labels\":{{{}}},\"samples\":[{}]}}",
                n, nt, disc, l.join(","), samples.join(",")
            );
        }
        "shrink" => {
            let dir = arg("--dir").unwrap();
            let start = if let Some(cs) = arg("--case-seed") {
                // the child may die: it journals its choices
                let f = format!("{}/crash.rec", dir);
                unsafe {
                    let pid = fork();
                    if pid == 0 {
                        cpu_limit(cpu);
                        let mut src = Src::random(cs.parse().unwrap());
                        src.journal = Some(File::create(&f).unwrap());
                        let _ = run_case(p, &mut src, &mut Cx::new(false));
                        _exit(0);
                    }
                    let mut st = 0;
                    waitpid(pid, &mut st, 0);
                }
                let mut b = vec![];
                File::open(&f).unwrap().read_to_end(&mut b).unwrap();
                b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
            } else {
                read_choices(&arg("--choices").unwrap())
            };
            let budget = arg("--budget").map(|b| b.parse().unwrap()).unwrap_or(6000);
            let confirm = arg("--confirm").map_or(120, |b| b.parse().unwrap());
            let hang = arg("--hang").map(|b| b.parse().unwrap());
            let (best, msg, trace, runs) = shrink(p, start, &dir, budget, hang, confirm);
            let ok = msg != "NOT REPRODUCED";
            std::fs::write(
                arg("--out").unwrap(),
                format!(
                    "{{\"reproduced\":{},\"choices\":{},\"message\":{},\"trace\":{},\"shrink_runs\":{}}}\n",
                    ok, jnums(&best), jstr(&msg), jlist(&trace), runs
                ),
            )
            .unwrap();
        }
        "replay" => {
            let c = read_choices(&arg("--choices").unwrap());
            match run_forked(p, &c, &arg("--dir").unwrap(), true, Some(20)) {
                Some((m, _, t)) => {
                    for l in t {
                        println!("  {}", l);
                    }
                    println!("FAILS: {}", m);
                    std::process::exit(1);
                }
                None => println!("passes"),
            }
        }
        _ => panic!("unknown mode"),
    }
}

fn read_choices(f: &str) -> Vec<u64> {
    let s = std::fs::read_to_string(f).unwrap();
    let s = match s.find("\"choices\":[") {
        Some(i) => {
            let r = &s[i + 11..];
            r[..r.find(']').unwrap()].to_string()
        }
        None => s,
    };
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
