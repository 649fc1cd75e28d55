#!/usr/bin/env python3
"""Runs the check of one property: check.py P01 [quick|thorough]; check.py replay FILE; check.py setup

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check could not decide (e.g. /repo does not build)."""
import concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build

os.environ["DICT"] = ",".join(map(str, build.dictionary()))
import props
from choice import mix

WORK = build.WORK
SHARDS = 8
SIGPROF = 27


class Violation(Exception):
    def __init__(self, replay, message):
        self.replay, self.message = replay, message


def say(*a):
    print(*a, flush=True)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Config:
    """One way of building and running the harness."""

    def __init__(self, name, exes, env=None, limited=True):
        self.name, self.exes, self.limited = name, exes, limited
        self.env = build.env(**(env or {}))

    def run(self, args, timeout=None, **kw):
        return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=self.env, preexec_fn=limits if self.limited else no_core, timeout=timeout, cwd=WORK, **kw)


ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:handle_sigprof=0:detect_stack_use_after_return=1"}
TRIPLE = "x86_64-unknown-linux-gnu"


def make_config(name, bins, features=()):
    if name in ("debug", "release"):
        return Config(name, build.harness(bins, name == "release", features))
    if name == "asan":
        target = os.path.join(WORK, "target-asan")
        args = ["build", "--target", TRIPLE, "--no-default-features"]
        for b in bins:
            args += ["--bin", b]
        build.cargo("harness", args, target, "nightly", {"RUSTFLAGS": "--cap-lints allow -Zsanitizer=address"})
        return Config(name, {b: os.path.join(target, TRIPLE, "debug", b) for b in bins}, ASAN_ENV, limited=False)
    if name in ("debug-32", "release-32"):
        return Config(name, build.harness32(bins, name == "release-32", features))
    raise ValueError(name)


def fresh_dir(*parts):
    d = os.path.join(WORK, *parts)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.by_config = {}


def memory_available():
    try:
        return int(re.search(r"MemAvailable:\s*(\d+)", open("/proc/meminfo").read()).group(1)) << 10
    except (OSError, AttributeError):
        return 0


def harness_round(inner, bin_, cfg, seed, cases, stats, scratch, pool, shards=SHARDS, more=()):
    """Submits the shards of one run of the harness's property `inner`; returns futures."""

    def shard(k):
        tag = "%s-%s-%s-%d" % (inner, bin_, cfg.name, k)
        j, h = os.path.join(scratch, tag + ".journal"), os.path.join(scratch, tag + ".hashes")
        for f in (j, h):
            if os.path.exists(f):
                os.remove(f)
        cmd = [cfg.exes[bin_], "run", "--prop", inner, "--seed", str(seed), "--shard", str(k), "--shards", str(shards), "--cases", str(cases), "--journal", j, "--hashes", h, *more]
        r = cfg.run(cmd)
        return inner, bin_, cfg, k, r, j, h, cmd

    return [pool.submit(shard, k) for k in range(shards)]


def harness_result(prop, f, stats, scratch):
    inner, bin_, cfg, k, r, journal, hashes, cmd = f.result()
    out = r.stdout.strip().splitlines()
    line = out[-1] if out else ""
    if r.returncode == 0 and line.startswith("{"):
        d = json.loads(line)
        stats.evaluations += d["evaluations"]
        stats.discarded += d["discarded"]
        for l, n in d["labels"].items():
            stats.labels[l] = stats.labels.get(l, 0) + n
        if len(stats.samples) < 4:
            stats.samples += d["samples"][:1]
        key = "%s/%s" % (bin_, cfg.name)
        stats.by_config[key] = stats.by_config.get(key, 0) + d["evaluations"]
        b = open(hashes, "rb").read()
        stats.nontrivial.update(b[i : i + 8] for i in range(0, len(b), 8))
        os.remove(hashes)
        return
    if r.returncode == 1 and line.startswith('{"failed":true'):
        d = json.loads(line)
        return violation(prop, inner, bin_, cfg, scratch, stats, d["message"], choices=d["choices"])
    if bin_ == "xl" and (r.returncode == -9 or "memory allocation of" in r.stderr):
        stats.labels["xl-out-of-memory"] = stats.labels.get("xl-out-of-memory", 0) + 1
        return
    if r.returncode < 0 and -r.returncode != 9:
        sig = -r.returncode
        seed = open(journal).read().strip() if os.path.exists(journal) else ""
        if not seed:
            raise build.BuildError("%s died with signal %d before the first case: %s" % (cmd, sig, r.stderr[-1000:]))
        tail = r.stderr.strip()[-2000:]
        if sig == SIGPROF:
            return violation(prop, inner, bin_, cfg, scratch, stats, "does not end", case_seed=seed, hang=True)
        return violation(prop, inner, bin_, cfg, scratch, stats, "the process died with signal %d: %s" % (sig, tail), case_seed=seed, died=True)
    raise build.BuildError("%s ended with %d: %s" % (cmd, r.returncode, r.stderr[-2000:]))


def violation(prop, inner, bin_, cfg, scratch, stats, message, choices=None, case_seed=None, hang=False, died=False):
    say("%s: a case of %s (%s build) fails: %s" % (prop, bin_, cfg.name, message[:1500]))
    out = os.path.join(scratch, "shrunk.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [cfg.exes[bin_], "shrink", "--prop", inner, "--dir", scratch, "--out", out]
    if choices is not None:
        f = os.path.join(scratch, "first.json")
        json.dump({"choices": choices}, open(f, "w"), separators=(",", ":"))
        cmd += ["--choices", f]
    else:
        cmd += ["--case-seed", case_seed]
    if bin_ == "xl":
        # a case takes a second
        cmd += ["--cpu", str(props.XL_CPU)] + (["--hang", "3", "--confirm", str(2 * props.XL_CPU), "--budget", "0"] if hang else ["--budget", "100"])
    else:
        cmd += ["--hang", "3", "--budget", "30"] if hang else ["--budget", "3000"]
    s = None
    try:
        cfg.run(cmd, timeout=420 if hang else 240)
        s = json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError):
        pass
    if s is None or not s["reproduced"]:
        if hang and s is not None:
            # slow, but it ends: the rest of its shard is not run
            stats.labels["case-slower-than-the-limit"] = stats.labels.get("case-slower-than-the-limit", 0) + 1
            return
        # the case alone does not show it (or shrinking took too long): the run does
        s = {"reproduced": False, "choices": choices or [], "message": message, "trace": [], "case_seed": case_seed}
    s.update(property=prop, inner=inner, kind="harness", bin=bin_, build=cfg.name)
    s["command"] = "python3 check.py replay <this file>"
    raise Violation(save_replay(prop, s), s["message"])


def save_replay(prop, d, suffix=".json"):
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    path = os.path.join(WORK, "replay", prop + suffix)
    with open(path, "w") as f:
        json.dump(d, f, indent=1) if suffix == ".json" else f.write(d)
        f.write("\n")
    return path


def miri(prop, small, seed, cases, stats, scratch, seconds):
    """Some short cases under Miri; skipped where Miri is not there."""
    e = build.env(CARGO_TARGET_DIR=os.path.join(WORK, "target-miri"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows")
    del e["RUSTFLAGS"]
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "vecs", "--no-default-features", "--"]
    cwd = os.path.join(VERIF, "harness")
    p = subprocess.run(base + ["list"], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        stats.labels["miri-not-available"] = 1
        return
    t0 = time.time()
    rnd = 0
    while time.time() - t0 < seconds:
        procs = []
        for k in range(SHARDS):
            j = os.path.join(scratch, "miri-%d.journal" % k)
            procs.append((j, subprocess.Popen(base + ["run", "--prop", small, "--seed", str(mix(seed, "miri", rnd)), "--shard", str(k), "--shards", str(SHARDS), "--cases", str(cases), "--journal", j], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        rnd += 1
        bad = None
        for j, p in procs:
            out, err = p.communicate()
            if p.returncode == 0:
                d = json.loads(out.strip().splitlines()[-1])
                stats.evaluations += d["evaluations"]
                stats.by_config["vecs/miri"] = stats.by_config.get("vecs/miri", 0) + d["evaluations"]
            elif "Undefined Behavior" in err:
                bad = (open(j).read().strip(), err[err.index("error: Undefined Behavior") :][:3000])
            else:
                raise build.BuildError("Miri ended with %d: %s %s" % (p.returncode, out[-500:], err[-1500:]))
        if bad:
            raise Violation(save_replay(prop, {"property": prop, "kind": "miri", "case_seed": bad[0], "message": bad[1]}), "Miri: " + bad[1])


def xl(prop, tier, seed, stats, scratch):
    """A few cases on vectors of hundreds of megabytes, not many at a time."""
    cfg = make_config("release", ["xl"])
    shards = min(2 if tier == "quick" else 4, (memory_available() - (2 << 30)) // (3 << 30))
    if shards < 1:
        stats.labels["xl-skipped-for-lack-of-memory"] = 1
        return
    with cf.ThreadPoolExecutor(shards) as pool:
        for f in harness_round(prop, "xl", cfg, seed, props.XL[prop] * (1 if tier == "quick" else 20), stats, scratch, pool, shards, ["--cpu", str(props.XL_CPU)]):
            harness_result(prop, f, stats, scratch)


def check_harness(prop, tier, seed, stats):
    bins, cases, _ = props.HARNESS[prop]
    scratch = fresh_dir("scratch-" + prop)
    names = ["debug", "release"] + (["asan"] if prop == "P10" else [])
    features = ["many"] if tier == "thorough" else []
    wide = {"debug": ["widths"] if prop in props.WIDTHS else [], "release": ["widths"] if prop in props.WIDTHS and tier != "quick" else []}
    with cf.ThreadPoolExecutor(4) as ex:
        cfgs = list(ex.map(lambda n: make_config(n, bins + wide.get(n, []), features), names))
    if prop in props.XL:
        xl(prop, tier, seed, stats, scratch)
    t0 = time.time()
    rounds = 1 if tier == "quick" else 60
    budget = 600
    with cf.ThreadPoolExecutor(SHARDS) as pool:
        for rnd in range(rounds):
            fs = []
            for c in cfgs:
                for b in c.exes:
                    n = props.WIDTHS[prop] if b in wide.get(c.name, []) else cases if isinstance(cases, int) else cases[b]
                    n = n if c.name != "asan" else n // 3
                    s = mix(seed, c.name, rnd) >> 1 if rnd or c.name != "debug" else seed
                    fs += harness_round(prop, b, c, s, n, stats, scratch, pool)
            try:
                for f in fs:
                    harness_result(prop, f, stats, scratch)
            except BaseException:
                for f in fs:
                    f.cancel()
                raise
            if time.time() - t0 > budget:
                break
    if prop == "P10" and tier == "thorough":
        miri(prop, "P10M", seed, 400, stats, scratch, 120)
    shutil.rmtree(scratch, ignore_errors=True)


def check_32(prop, tier, seed, stats):
    """All properties of the harness again where usize has 32 bits."""
    scratch = fresh_dir("scratch-" + prop)
    import gen, progs

    features = ["many"] if tier == "thorough" else []
    jobs = {"debug-32": ["vecs", "sets", "likes", "widths"], "release-32": ["vecs", "sets", "likes", "xl"]}
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            cfgs = ex.map(lambda n: make_config(n, jobs[n], features), jobs)
            libs = ex.map(build.Rlibs32, (False, True))
            cfgs, libs = list(cfgs), list(libs)
    except build.NotFor32 as e:
        d = {"property": prop, "kind": "compile", "message": "/repo compiles for 64-bit targets, but not for %s:\n%s" % (build.I686, e)}
        raise Violation(save_replay(prop, d), d["message"])
    t0 = time.time()
    gen.set_bits(32)
    runner = progs.Runner(fresh_dir("progs-" + prop))
    for rnd in range(1 if tier == "quick" else 60):
        for inner, n, per in props.W32_PROGRAMS:
            programs_round(prop, inner, n, per, libs, runner, mix(seed, inner, rnd) >> 1, stats)
        for xl in (True, False):
            workers = max(1, min(SHARDS, (memory_available() - (2 << 30)) // (3 << 30))) if xl else SHARDS
            with cf.ThreadPoolExecutor(workers) as pool:
                fs = []
                for c in cfgs:
                    s = mix(seed, c.name, rnd) >> 1
                    for inner, b, n in props.W32:
                        if b not in c.exes or (b == "xl") != xl:
                            continue
                        more = ["--cpu", str(props.XL_CPU)] if xl else []
                        fs += harness_round(inner, b, c, s, n, stats, scratch, pool, 1 if xl else 2, more)
                try:
                    for f in fs:
                        harness_result(prop, f, stats, scratch)
                except BaseException:
                    for f in fs:
                        f.cancel()
                    raise
        if time.time() - t0 > 600:
            break
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.rmtree(runner.work, ignore_errors=True)


def check_programs(prop, tier, seed, stats):
    import progs

    with cf.ThreadPoolExecutor(2) as ex:
        debug, release = ex.map(build.Rlibs, (False, True))
    libs = [debug, release, debug.in_edition("2024"), release.in_edition("2018"), debug.in_edition("2018"), release.in_edition("2024")]
    runner = progs.Runner(fresh_dir("progs-" + prop))
    t0 = time.time()
    rounds = 1 if tier == "quick" else 100
    known = known_findings(prop, libs, runner)
    for rnd in range(rounds):
        programs_round(prop, prop, *props.PROGRAM_CASES[prop], libs, runner, mix(seed, rnd) if rnd else seed, stats)
        if time.time() - t0 > 600:
            break
    stats.labels["known-findings-still-failing"] = known
    shutil.rmtree(runner.work, ignore_errors=True)


def programs_round(prop, inner, n, per, libs, runner, seed, stats):
    import progs

    st = {"evaluations": 0, "nontrivial": set(), "samples": []}
    deadline = time.time() + 700
    try:
        if inner in progs.VERDICT:
            progs.verdict_check(inner, libs, runner, seed, *n, per, st, deadline)
        else:
            progs.batch_check(inner, progs.MAKERS[inner], libs, runner, seed, n, per, st, deadline)
    except progs.Failure as e:
        say("%s: %s\n  in %s" % (prop, e.message, e.text))
        d = {"property": prop, "kind": "program", "release": e.release, "edition": e.edition, "bits": e.bits, "choices": e.choices, "message": e.message, "case": e.text, "code": e.code}
        raise Violation(save_replay(prop, d), e.message)
    if st.get("skipped_programs"):
        raise build.BuildError("%d programs were not run in time" % st["skipped_programs"])
    stats.evaluations += st["evaluations"]
    stats.nontrivial |= st["nontrivial"]
    stats.samples = (stats.samples + st["samples"])[:8]
    for k in ("accepted", "rejected"):
        if k in st:
            stats.labels[k] = stats.labels.get(k, 0) + st[k]
    key = "%s/programs of %d bits" % (inner, libs[0].bits)
    stats.by_config[key] = stats.by_config.get(key, 0) + st["evaluations"]


def known_findings(prop, libs, runner):
    n = 0
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            exe = os.path.join(runner.work, "probe")
            r = subprocess.run(libs[0].command(os.path.join(VERIF, "known", m.group(2)), exe), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=build.env(), cwd=runner.work)
            if r.returncode == 0:
                r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits)
            if r.returncode != 0:
                n += 1
                say("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
    return n


def evidence(prop, tier, seed, stats, wall, violations, message=None):
    rule = props.HARNESS[prop][2] if prop in props.HARNESS else props.PROGRAMS[prop]
    cov = {
        "evaluations": stats.evaluations,
        "distinct_nontrivial": len(stats.nontrivial),
        "rule": rule,
        "samples": stats.samples or [{"none": "the run ended before a sample was taken"}],
        "discarded": stats.discarded,
        "labels": dict(sorted(stats.labels.items())),
        "cases_by_build": stats.by_config,
    }
    if message:
        cov["violation"] = message[:2000]
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": props.ASSUME, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


def check(prop, tier, seed):
    stats = Stats()
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    try:
        (check_32 if prop == "P31" else check_harness if prop in props.HARNESS else check_programs)(prop, tier, seed, stats)
    except Violation as v:
        evidence(prop, tier, seed, stats, time.time() - t0, 1, v.message)
        say("%s: %s" % (prop, v.message[:3000]))
        say("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except build.BuildError as e:
        evidence(prop, tier, seed, stats, time.time() - t0, 0)
        say("ERROR: %s: %s" % (prop, e))
        return 2
    evidence(prop, tier, seed, stats, time.time() - t0, 0)
    say("%s: held on %d cases (%d distinct non-trivial) in %.0f s" % (prop, stats.evaluations, len(stats.nontrivial), time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    scratch = fresh_dir("scratch-replay")
    if d["kind"] == "harness":
        cfg = make_config(d["build"], [d["bin"]])
        r = cfg.run([cfg.exes[d["bin"]], "replay", "--prop", d.get("inner", d["property"]), "--choices", os.path.abspath(path), "--dir", scratch])
        say(r.stdout)
        return r.returncode
    if d["kind"] == "program":
        import gen, progs

        if d.get("bits") == 32:
            gen.set_bits(32)
        lib = (build.Rlibs32 if d.get("bits") == 32 else build.Rlibs)(d["release"]).in_edition(d.get("edition", "2021"))
        runner = progs.Runner(scratch)
        c = gen.Case.__new__(gen.Case)
        c.code, c.text, c.nontrivial = d["code"], d["case"], True
        r = progs.compile_only(runner, lib, c, "replay") if "should not" in d["message"] else runner.compile(lib, [(0, c)], "replay")
        say(d["case"], "\n", r[1] if r[0] == "compile" else r)
        return 0
    say(d["message"])
    return 0


def main():
    a = sys.argv[1]
    if a == "setup":
        for c in ("debug", "release"):
            build.harness(["vecs", "sets", "likes", "widths"] + (["xl"] if c == "release" else []), c == "release")
            build.Rlibs(c == "release")
            build.harness32(["vecs", "sets", "likes"] + (["xl"] if c == "release" else ["widths"]), c == "release")
            build.Rlibs32(c == "release")
        return 0
    if a == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER") or "quick"
    return check(a, tier, int(os.environ.get("VERIF_SEED") or "1") & ((1 << 63) - 1))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        # exit 1 is for violations
        traceback.print_exc()
        sys.exit(2)
