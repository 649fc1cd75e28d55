"""Checks over generated Rust programs (P15, P18, P19, P20, P26, P29, P30)."""
import concurrent.futures as cf, hashlib, os, re, resource, subprocess, time

import build, gen
from choice import Src, mix, shrink

PRELUDE = open(os.path.join(build.VERIF, "progs", "prelude.rs")).read()
HEAD = "#![allow(warnings, arithmetic_overflow, unconditional_panic)]\n#![recursion_limit = \"512\"]\n"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def program(cases):
    """cases: [(number, Case)] -> source"""
    mods = "\n".join("pub mod case_%d {\n%s\n}" % (k, c.code) for k, c in cases)
    main = "fn main() { crate::check::cases(&[%s]); }" % ", ".join("(%d, case_%d::run)" % (k, k) for k, _ in cases)
    return HEAD + PRELUDE + "\n" + mods + "\n" + main + "\n"


class Runner:
    def __init__(self, work, jobs=8):
        self.work = work
        self.jobs = jobs
        self.pool = cf.ThreadPoolExecutor(jobs)
        os.makedirs(work, exist_ok=True)
        self.n = 0

    def analyse(self, lib, case, name):
        """Type-checks one case only: its errors, or None."""
        src = os.path.join(self.work, name + ".rs")
        with open(src, "w") as f:
            f.write(program([(0, case)]))
        r = subprocess.run(lib.command(src, src + ".meta", emit="metadata"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, env=build.env(), cwd=self.work)
        for x in (src, src + ".meta"):
            if os.path.exists(x):
                os.remove(x)
        return r.stderr if r.returncode != 0 else None

    def compile(self, lib, cases, name, run_timeout=120, opt=None):
        """Compiles and runs cases. Returns ('compile', text) | ('ran', {k: None or message})."""
        src = os.path.join(self.work, name + ".rs")
        exe = os.path.join(self.work, name + ".bin")
        with open(src, "w") as f:
            f.write(program(cases))
        try:
            r = subprocess.run(lib.command(src, exe, opt), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=build.env(), cwd=self.work)
        except subprocess.TimeoutExpired:
            return ("compile-timeout", "")
        if r.returncode != 0:
            return ("compile", r.stderr)
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=run_timeout, preexec_fn=limits, cwd=self.work, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b"").decode(errors="replace"), "timeout"
        finally:
            os.remove(exe)
        res, cur = {}, None
        for line in out.splitlines():
            w = line.split(" ", 2)
            if w[0] == "BEGIN":
                cur = int(w[1])
            elif w[0] == "PASS":
                res[int(w[1])] = None
                cur = None
            elif w[0] == "FAIL":
                res[int(w[1])] = w[2]
                cur = None
        if cur is not None:
            res[cur] = "does not end within %d s" % run_timeout if rc == "timeout" else "the program died (%s): %s" % (rc, p.stderr[-300:] if rc != "timeout" else "")
        if not out.rstrip().endswith("END") and cur is None:
            raise build.BuildError("program %s printed no END: rc %s" % (src, rc))
        return ("ran", res)


def error_text(stderr):
    m = re.findall(r"^error.*(?:\n.*){0,4}", stderr, re.M)
    return " / ".join(x.replace("\n", " ") for x in m[:2])[:700]


class Failure(Exception):
    def __init__(self, message, choices, text, code, lib):
        self.message, self.choices, self.text, self.code = message, choices, text, code
        self.release, self.edition, self.bits = lib.release, lib.edition, lib.bits


def one(runner, lib, make, choices, name):
    """Runs a single case: None, or (message, recorded choices, case)."""
    s = Src(choices=choices)
    c = make(s)
    k, r = runner.compile(lib, [(0, c)], name, run_timeout=30)
    if k == "compile-timeout":
        return None
    if k == "compile":
        return ("does not compile: " + error_text(r), s.rec, c)
    m = r.get(0)
    return None if m is None else (m, s.rec, c)


def check_harness(m):
    if m.startswith("harness:") or "panic: harness" in m:
        raise build.BuildError("the harness is wrong: " + m)


def batch_check(prop, make, libs, runner, seed, total, per_program, stats, deadline, shrink_s=60):
    """Generated cases, many to a program. Raises Failure."""
    progs = []
    n = 0
    while n < total:
        cs = []
        for k in range(n, min(total, n + per_program)):
            s = Src(seed=mix(seed, prop, k))
            cs.append((k, make(s), s.rec))
        n += len(cs)
        progs.append((len(progs), cs))

    def go(p):
        i, cs = p
        if time.time() > deadline:
            return (p, None, "skipped", None)
        lib = libs[i % len(libs)]
        k, r = runner.compile(lib, [(k, c) for k, c, _ in cs], "%s_%d" % (prop, i))
        return (p, lib, k, r)

    for (i, cs), lib, kind, r in runner.pool.map(go, progs):
        if kind == "skipped":
            stats["skipped_programs"] = stats.get("skipped_programs", 0) + 1
            continue
        src = os.path.join(runner.work, "%s_%d.rs" % (prop, i))
        bad = None
        if kind == "compile-timeout":
            raise build.BuildError("rustc did not finish " + src)
        if kind == "compile":
            # which case? compile each alone
            rs = list(runner.pool.map(lambda c: (c, runner.compile(lib, [(c[0], c[1])], "%s_%d_%d" % (prop, i, c[0]))), cs))
            for c, (k2, r2) in rs:
                if k2 == "compile":
                    bad = (c, "does not compile: " + error_text(r2))
                    break
            if bad is None:
                raise build.BuildError("program %s does not compile as a whole: %s" % (src, error_text(r)))
        else:
            for c in cs:
                m = r.get(c[0])
                if m is not None:
                    check_harness(m)
                    bad = (c, m)
                    break
        if bad:
            (k, c, rec), m = bad
            raise shrunk(prop, make, lib, runner, rec, m, c, time.time() + shrink_s)
        for k, c, rec in cs:
            stats["evaluations"] += 1
            if c.nontrivial:
                stats["nontrivial"].add(hashlib.sha1(c.code.encode()).digest()[:8])
                if len(stats["samples"]) < 4 and len(c.text) < 600:
                    stats["samples"].append({"case": k, "text": c.text})
        os.remove(src)


def shrunk(prop, make, lib, runner, rec, m, c, deadline):
    one = globals()["one"]
    if m.startswith("does not compile") and runner.analyse(lib, c, prop + "_analyse") is not None:
        # no need to generate code for the candidates

        def one(runner, lib, make, choices, name):
            s = Src(choices=choices)
            c = make(s)
            e = runner.analyse(lib, c, name)
            return None if e is None else ("does not compile: " + error_text(e), s.rec, c)

    best = {"m": m, "c": c}

    def fails(cands):
        def f(ix):
            i, ch = ix
            try:
                return one(runner, lib, make, ch, "%s_shrink_%d" % (prop, i))
            except Exception:
                return None

        out = []
        for x in runner.pool.map(f, enumerate(cands)):
            if x is not None and (x[0].startswith("harness") or "harness:" in x[0]):
                x = None
            out.append(None if x is None else x[1])
        return out

    small = shrink(rec, fails, deadline)
    x = one(runner, lib, make, small, prop + "_min")
    if x is None:
        return Failure(m, rec, c.text, c.code, lib)
    return Failure(x[0], x[1], x[2].text, x[2].code, lib)


# ---- P15, P30: programs that must and must not compile ----

VERDICT = {"P15": gen.p15, "P30": gen.p30}


def verdict_check(prop, libs, runner, seed, n_accept, n_reject, per, stats, deadline):
    """Half of the cases must compile (and run), the other half must not."""
    make = VERDICT[prop]
    batch_check(prop, lambda s: make(s, True)[0], libs, runner, mix(seed, "accept"), n_accept, per, stats, deadline)
    stats["accepted"] = n_accept

    jobs = []
    k = 0
    while len(jobs) < n_reject:
        s = Src(seed=mix(seed, prop + " reject", k))
        k += 1
        x = make(s, False)
        if x is not None:
            jobs.append((len(jobs), x[0], s.rec))

    def go(job):
        i, c, rec = job
        if time.time() > deadline:
            return job, None, "skipped", None
        lib = libs[i % len(libs)]
        k, r = compile_only(runner, lib, c, "%s_reject_%d" % (prop, i))
        return job, lib, k, r

    for (i, c, rec), lib, kind, r in runner.pool.map(go, jobs):
        if kind == "skipped":
            stats["skipped_programs"] = stats.get("skipped_programs", 0) + 1
            continue
        if kind == "ok":
            raise shrunk_reject(prop, lib, runner, rec, c, time.time() + 90)
        if "error[E0080]" not in r and not refused_by_evaluation(r):
            # refused, but for another reason? the same program with a type that fits settles it: see twin()
            if not twin_compiles(lib, runner, c, i):
                raise build.BuildError("the harness is wrong: %s does not compile for another reason: %s" % (c.text, error_text(r)))
        stats["evaluations"] += 1
        stats["rejected"] = stats.get("rejected", 0) + 1
        stats["nontrivial"].add(hashlib.sha1(c.code.encode()).digest()[:8])
        if stats["rejected"] <= 3:
            stats["samples"].append({"case": "reject %d" % i, "text": c.text})


def refused_by_evaluation(stderr):
    return "evaluation of" in stderr or "evaluation panicked" in stderr


def twin_compiles(lib, runner, c, i):
    """The program with its element type replaced by one of 5 values."""
    code = re.sub(r"type T = [^\n]*;\n", "type T = Leaf<5>;\n", c.code)
    code = re.sub(r"let x: T = .*?; go", "let x: T = <T as EnumLike>::from_discr(0); go", code)
    k, r = compile_only(runner, lib, gen.Case(code, "", True), "twin_%d" % i)
    return k == "ok"


def compile_only(runner, lib, c, name):
    src = os.path.join(runner.work, name + ".rs")
    obj = os.path.join(runner.work, name + ".o")
    with open(src, "w") as f:
        f.write(program([(0, c)]))
    r = subprocess.run(lib.command(src, obj, emit="obj"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=build.env(), cwd=runner.work)
    for x in (src, obj):
        if os.path.exists(x):
            os.remove(x)
    return ("ok", "") if r.returncode == 0 else ("error", r.stderr)


def shrunk_reject(prop, lib, runner, rec, c, deadline):
    make = VERDICT[prop]

    def f(ix):
        i, ch = ix
        s = Src(choices=ch)
        x = make(s, False)
        if x is None:
            return None
        k, _ = compile_only(runner, lib, x[0], prop + "_shrink_%d" % i)
        return s.rec if k == "ok" else None

    small = shrink(rec, lambda cands: list(runner.pool.map(f, enumerate(cands))), deadline)
    s = Src(choices=small)
    x = make(s, False)
    return Failure("compiles, but should not", s.rec, x[0].text, x[0].code, lib)


MAKERS = {"P18": gen.p18, "P19": gen.p19, "P20": gen.p20, "P26": gen.p26, "P29": gen.p29}
