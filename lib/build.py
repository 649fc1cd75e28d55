"""Building /repo's crates and the harness from the current tree."""
import copy, collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
MAX = (1 << 64) - 1


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME", "RUSTUP_TOOLCHAIN"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cap-lints allow"
    e.update(kw)
    return e


REPO = "/repo"


def tree_hash():
    """Of everything in /repo that can take part in a build."""
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not os.path.islink(p):
                h.update(p.encode() + b"\0" + hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()


LITERAL = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?:\s*<<\s*([0-9]+))?(?![\w])")
NARROW = re.compile(r"\b(?:as\s+([ui](?:8|16|32))\b|([ui](?:8|16|32))\s*::\s*(?:MAX|max_value|try_from|from)\b)")


def constants():
    """How often each number occurs in the code of /repo's crates (without comments, strings and tests)."""
    n = collections.Counter()
    for f in sorted(glob.glob(os.path.join(REPO, "enum_*", "src", "**", "*.rs"), recursive=True)):
        s = open(f, errors="replace").read()
        s = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"", " ", s, flags=re.S)
        s = s.split("#[cfg(test)]")[0]
        for m in LITERAL.finditer(s):
            try:
                x = int(m.group(1).replace("_", ""), 0) << min(int(m.group(2) or 0), 64)
            except ValueError:
                continue
            n[x] += 1
        for m in NARROW.finditer(s):
            t = m.group(1) or m.group(2)
            n[1 << (int(t[1:]) - (t[0] == "i"))] += 1
    return n


def dictionary():
    """Numbers that the tree's code has more often than the code this was written against: boundaries for
    the generators. They choose what is tried, never what is right."""
    base = json.load(open(os.path.join(VERIF, "lib", "constants.json")))
    return sorted(x for x, k in constants().items() if 3 <= x <= MAX and k > base.get(str(x), 0))[:40]


def forget_other_tree(target):
    """Cargo goes by modification times, which a copied or restored tree may not tell apart: throw away
    what was built from /repo's crates if the tree is not the one it was built from."""
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "tree.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, "tree.sha256")
        now = tree_hash()
        was = open(stamp).read() if os.path.exists(stamp) else None
        if was != now:
            if was is not None:
                # Two layouts of cargo's: .fingerprint/<package>-<hash>, and (nightly) build/<package>/<hash>.
                for prof in [target] + [os.path.join(target, x) for x in os.listdir(target)]:
                    for sub in ("debug", "release", "miri", "miri/debug"):
                        for kind in (".fingerprint", "build"):
                            d = os.path.join(prof, sub, kind)
                            for x in os.listdir(d) if os.path.isdir(d) else ():
                                if x.startswith(("enum_", "vt-", "progs-", "smallvec_u32")) or x in ("vt", "progs"):
                                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
            with open(stamp, "w") as f:
                f.write(now)


def cargo(crate, args, target, toolchain=None, extra_env=None, timeout=800):
    forget_other_tree(target)
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args + ["--offline", "--target-dir", target]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env(**(extra_env or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s in %s failed:\n%s" % (" ".join(cmd), crate, r.stderr[-4000:]))
    return r.stdout


def harness(bins, release, features=()):
    """Builds harness binaries; returns {bin: path}."""
    target = os.path.join(WORK, "target")
    args = ["build"]
    for b in bins:
        args += ["--bin", b]
    if release:
        args.append("--release")
    if features:
        args += ["--features", ",".join(features)]
    cargo("harness", args, target)
    return {b: os.path.join(target, "release" if release else "debug", b) for b in bins}


I686 = "i686-unknown-linux-gnu"

START32 = """.globl _start
_start:
  xorl %ebp,%ebp
  popl %esi
  movl %esp,%ecx
  andl $-16,%esp
  pushl %eax
  pushl %esp
  pushl %edx
  pushl $0
  pushl $0
  pushl %ecx
  pushl %esi
  pushl $main
  call __libc_start_main
  hlt
.section .note.GNU-stack,"",@progbits
"""


def env32():
    """For building 32-bit programs: the C library's 32-bit part is installed, but not what is for linking with it."""
    d = os.path.join(WORK, "m32")
    os.makedirs(os.path.join(d, "lib"), exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ld = os.path.join(d, "ld.sh")
        if not os.path.exists(ld):
            for n in ("c.so.6", "gcc_s.so.1", "m.so.6", "pthread.so.0", "dl.so.2", "rt.so.1", "util.so.1"):
                x = "/usr/lib32/lib" + n
                if not os.path.exists(x):
                    raise BuildError("no 32-bit C library: %s" % x)
                y = os.path.join(d, "lib", "lib%s.so" % n.split(".")[0])
                if not os.path.lexists(y):
                    os.symlink(x, y)
            with open(os.path.join(d, "start.s"), "w") as f:
                f.write(START32)
            r = subprocess.run(["as", "--32", os.path.join(d, "start.s"), "-o", os.path.join(d, "start.o")], stderr=subprocess.PIPE, text=True)
            if r.returncode != 0:
                raise BuildError("cannot assemble: " + r.stderr)
            with open(ld + ".new", "w") as f:
                f.write('#!/bin/sh\nexec ld -m elf_i386 %s/start.o -L %s/lib "$@" --dynamic-linker /lib/ld-linux.so.2 -rpath /usr/lib32\n' % (d, d))
            os.chmod(ld + ".new", 0o755)
            os.rename(ld + ".new", ld)
    return {"RUSTFLAGS": "--cap-lints allow -C relocation-model=static -C linker-flavor=ld", "CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER": ld}


class NotFor32(Exception):
    pass


def harness32(bins, release, features=()):
    """The same for a 32-bit target, with a standard library built for it."""
    target = os.path.join(WORK, "target-32")
    args = ["build", "-Zbuild-std", "--target", I686]
    for b in bins:
        args += ["--bin", b]
    if release:
        args.append("--release")
    if features:
        args += ["--features", ",".join(features)]
    try:
        cargo("harness", args, target, "nightly", env32())
    except BuildError as e:
        if re.search(r"could not compile `(enum_|vt\b)", str(e)) and "--> /" in str(e):
            harness([b for b in bins], release)
            raise NotFor32(str(e))
        raise
    return {b: os.path.join(target, I686, "release" if release else "debug", b) for b in bins}


class Rlibs:
    """The crates of /repo, compiled, and how to compile a program against them."""

    bits = 64
    apart = False
    NAMES = ("enum_vec", "enum_like", "enum_like_derive", "enum_set", "enum_set2")

    def __init__(self, release):
        self.release = release
        self.edition = "2021"
        target = os.path.join(WORK, "target-progs")
        self.read(cargo("progs", ["build", "--lib", "--message-format=json"] + (["--release"] if release else []), target))
        self.deps = os.path.join(target, "release" if release else "debug", "deps")
        self.rustc = ["rustc"]

    def read(self, out):
        self.externs = {}
        self.rlibs = []
        for line in out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                self.rlibs += [f for f in m["filenames"] if f.endswith((".rlib", ".rmeta"))]
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in self.NAMES:
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        n = m["target"]["name"]
                        self.externs["enum_set" if n == "enum_set2" else n] = f
        missing = {"enum_vec", "enum_like", "enum_like_derive", "enum_set"} - set(self.externs)
        if missing:
            raise BuildError("no artifacts of %s" % missing)

    def in_edition(self, edition):
        x = copy.copy(self)
        x.edition = edition
        return x

    def command(self, src, out, opt=None, emit="link"):
        # generated code is compiled at opt-level 1 at most: it is compiled once and run once
        o = opt if opt is not None else (1 if self.release else 0)
        c = [*self.rustc, "--edition", self.edition, "--cap-lints", "allow", "--crate-name", "prog", "-C", "opt-level=%d" % o, "-C", "debuginfo=0", "-C", "codegen-units=4"]
        c += ["-C", "debug-assertions=%s" % ("off" if self.release else "on"), "-C", "overflow-checks=%s" % ("off" if self.release else "on")]
        c += ["-L", "dependency=" + self.deps]
        for n, f in sorted(self.externs.items()):
            c += ["--extern", "%s=%s" % (n, f)]
            # newer compilers keep the metadata apart
            if self.apart and f.endswith(".rlib"):
                c += ["--extern", "%s=%s" % (n, f[:-4] + "rmeta")]
        return c + ["--emit=" + emit, "-o", out, src]


class Rlibs32(Rlibs):
    """The same for a 32-bit target."""

    bits = 32

    def __init__(self, release):
        self.release = release
        self.edition = "2021"
        target = os.path.join(WORK, "target-32-progs")
        e = env32()
        self.read(cargo("progs", ["build", "--lib", "--message-format=json", "-Zbuild-std", "--target", I686] + (["--release"] if release else []), target, "nightly", e))
        # a place where rustc finds the standard library and what the crates depend on
        root = os.path.join(target, "sysroot-" + ("release" if release else "debug"))
        self.deps = os.path.join(root, "lib", "rustlib", I686, "lib")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(self.deps)
        for f in self.rlibs:
            if "/%s/" % I686 in f:
                os.symlink(f, os.path.join(self.deps, os.path.basename(f)))
        self.apart = all(os.path.exists(f[:-4] + "rmeta") for f in self.externs.values() if f.endswith(".rlib"))
        ld = e["CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER"]
        self.rustc = ["rustc", "+nightly", "--target", I686, "--sysroot", root, "-C", "relocation-model=static", "-C", "linker-flavor=ld", "-C", "linker=" + ld]
