"""Generates Rust type definitions with known numbers of values, and the cases of P15, P18, P19, P20, P26, P29, P30."""
import re

from choice import Src

# as many values as a usize counts
BITS = 64
MAX = (1 << 64) - 1


def set_bits(n):
    global BITS, MAX
    BITS, MAX = n, (1 << n) - 1


class Def:
    """A user type: kind 'struct'/'enum', params = names of type parameters, variants = [(name, style, [(field, type)])]."""

    def __init__(self, name, kind, params, variants):
        self.name, self.kind, self.params, self.variants = name, kind, params, variants
        self.attrs = []
        self.bounds = {}
        self.default = None
        self.where = ""
        self.lifetimes = []


def count(t, env=()):
    k = t[0]
    if k == "unit":
        return 1
    if k == "bool":
        return 2
    if k == "hole":
        return 3
    if k == "never":
        return 0
    if k == "leaf":
        return t[1]
    if k == "opt":
        return 1 + count(t[1], env)
    if k == "res":
        return count(t[1], env) + count(t[2], env)
    if k == "tup":
        c = 1
        for x in t[1]:
            c *= count(x, env)
        return c
    if k == "arr":
        return count(t[1], env) ** t[2]
    if k == "param":
        return env[t[1]]
    if k == "assoc":
        return 1 + env[t[1]]
    if k == "tag":
        return 2
    if k == "user":
        return def_count(t[1], [count(a, env) for a in t[2]])
    raise Exception(t)


def def_count(d, env):
    s = 0
    for _, _, fields in d.variants:
        p = 1
        for _, ft in fields:
            p *= count(ft, env)
        s += p
    return s


def fits(t, env=()):
    """No product on the way (before a zero factor) exceeds a machine word."""
    k = t[0]
    if k in ("opt",):
        return fits(t[1], env) and count(t, env) <= MAX
    if k == "res":
        return fits(t[1], env) and fits(t[2], env) and count(t, env) <= MAX
    if k == "tup":
        p = 1
        for x in t[1]:
            if not fits(x, env):
                return False
            p *= count(x, env)
            if p > MAX:
                return False
        return True
    if k == "arr":
        return fits(t[1], env) and count(t, env) <= MAX
    if k == "user":
        env2 = [count(a, env) for a in t[2]]
        if not all(fits(a, env) for a in t[2]):
            return False
        s = 0
        for _, _, fields in t[1].variants:
            p = 1
            for _, ft in fields:
                if not fits(ft, env2):
                    return False
                p *= count(ft, env2)
                if p > MAX:
                    return False
            s += p
        return s <= MAX
    return count(t, env) <= MAX


def size(t):
    k = t[0]
    if k in ("opt",):
        return 1 + size(t[1])
    if k == "res":
        return 1 + size(t[1]) + size(t[2])
    if k == "tup":
        return 1 + sum(size(x) for x in t[1])
    if k == "arr":
        return 1 + size(t[1])
    if k == "user":
        return 1 + sum(size(a) for a in t[2]) + sum(size(ft) for v in t[1].variants for _, ft in v[2])
    return 1


class TypeGen:
    def __init__(self, src, users=True, never=True):
        self.s = src
        self.defs = []
        self.users = users
        self.never = never
        self.lts = []
        self.assoc = True

    def leaf(self, limit):
        s = self.s
        w = [30 if limit < 2 else 8, 60 if limit >= 2 else 0, 30 if limit >= 3 else 0, 50 if limit >= 2 else 6, 1 if self.never else 0]
        k = s.weighted(w)
        if k == 0:
            return ("unit",)
        if k == 1 and limit >= 2:
            return ("bool",)
        if k == 2 and limit >= 3:
            return ("hole",)
        if k == 3:
            return ("leaf", max(1, min(limit, 1 + s.edgy(min(limit, MAX) - 1, [0, 1, 2, 3, 4, 6, 9, 15, 16, 254, 255, 256, 65535, limit - 1]))))
        if k == 4 and self.never:
            return ("never",)
        return ("unit",)

    def arm(self, depth, limit, env):
        if self.never and self.s.chance(1, 15):
            return ("never",)
        return self.ty(depth, limit, env)

    def share(self, left, n):
        """How many of `left` values one of n more factors may have."""
        if n == 1 or self.s.chance(1, 5):
            return left
        if left < 2:
            return left
        fair = max(2, 1 << ((left.bit_length() - 1) // n))
        return min(left, fair if self.s.chance(1, 2) else 2 + self.s.below(6))

    def ty(self, depth, limit, env=()):
        """A type of at most `limit` values (as long as parameters have the counts in env)."""
        s = self.s
        if limit < 1:
            return ("unit",)
        if depth <= 0:
            return self.plain(limit, env)
        k = s.weighted([4, 3, 3, 5, 3, 5 if self.users and self.defs else 0])
        if k == 0:
            return self.plain(limit, env)
        if k == 1:
            return ("opt", self.arm(depth - 1, limit - 1, env)) if limit >= 2 else ("unit",)
        if k == 2:
            a = self.arm(depth - 1, limit - 1 if limit > 1 else 1, env)
            rest = limit - count(a, env)
            b = self.arm(depth - 1, rest, env) if rest >= 1 else (("never",) if self.never else None)
            return ("res", a, b) if b else a
        if k == 3:
            room = limit.bit_length() + 2
            n = 1 + s.draw(31, lambda r: min(r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 11, 12, 15, 16, 19, 25, 30, 31]), room if r.randrange(8) else 31))
            left, xs = limit, []
            for j in range(n):
                d = depth - 1 if n < 6 else min(depth - 1, 1 if j % 5 == 0 else 0)
                share = self.share(left, n - j)
                x = self.ty(d, share, env)
                c = count(x, env)
                if c > 0:
                    left //= c
                xs.append(x)
            return ("tup", xs)
        if k == 4:
            n = s.draw(32, lambda r: r.choice([0, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 31, 32]))
            if n == 0:
                return ("arr", self.ty(depth - 1, limit, env), 0)
            b = 1
            while (b + 1) ** n <= limit and b < 1 << 20:
                b = b * 2 if (b * 2) ** n <= limit else b + 1
            return ("arr", self.ty(depth - 1, b, env), n)
        d = s.pick(self.defs)
        t = self.inst(d, depth, limit, env)
        return t if t else self.plain(limit, env)

    def inst(self, d, depth, limit, env=()):
        # arguments have to meet the bounds of the definition
        lts, self.lts, self.assoc = self.lts, [], False
        args = [self.ty(min(depth - 1, 1), min(limit, 6), env) for _ in d.params]
        self.lts, self.assoc = lts, True
        t = ("user", d, args)
        if fits(t, env) and count(t, env) <= limit:
            return t
        return None

    def plain(self, limit, env):
        ps = [i for i, c in enumerate(env) if c <= limit]
        if ps and self.s.chance(2, 3):
            i = self.s.pick(ps)
            if self.assoc and env[i] + 1 <= limit and self.s.chance(1, 12):
                return ("assoc", i)
            return ("param", i)
        if self.lts and limit >= 2 and self.s.chance(1, 3):
            return ("tag", self.s.pick(self.lts))
        return self.leaf(limit)

    FIELD_NAMES = ["a", "b", "c", "x", "xa", "value", "discr", "n", "i", "x0", "_0", "offset", "self_", "max", "T0", "xx", "é", "num_variants", "to_discr", "from_discr", "EnumLike"]
    VARIANT_NAMES = ["A", "B", "C", "D", "None", "Some", "Ok", "Err", "Self_", "x1", "Unit", "EnumLike", "E0", "NUM_VARIANTS", "bool", "usize", "value_", "É", "V1", "V2", "V3"]

    def fields(self, style, depth, left, env):
        """Fields of one struct or variant, of at most `left` values."""
        s = self.s
        if style == "unit":
            return []
        n = s.draw(40, lambda r: r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 12]) if r.randrange(50) else r.choice([17, 33, 40]))
        names = list(self.FIELD_NAMES)
        out = []
        for j in range(n):
            share = self.share(left, n - j)
            x = self.ty(depth - 1, max(1, min(share, left)), env)
            c = count(x, env)
            if c > 0:
                left //= c
            if style == "named":
                nm = names.pop(s.below(len(names)) if s.chance(1, 2) else 0) if names else "f%d" % j
            else:
                nm = str(j)
            out.append((nm, x))
        return out

    def definition(self, name, depth, limit):
        s = self.s
        env, params, samples = [], [], []
        if s.chance(2, 5):
            for i in range(s.range(1, 3)):
                a = self.ty(1, min(limit, 5))
                params.append(["T", "U", "W"][i])
                samples.append(a)
                env.append(count(a))
        used = lambda vs: {p for v in vs for _, ft in v[2] for p in params_in(ft)}
        lts = []
        if limit >= 2 and s.chance(1, 8):
            lts = ["'a", "'b"] if s.chance(1, 3) else ["'a"]
        self.lts = lts
        if s.chance(2, 5):
            style = s.pick(["unit", "tuple", "named", "tuple", "named"])
            vs = [(name, style, self.fields(style, depth, limit, env))]
            kind = "struct"
        else:
            kind = "enum"
            # rarely more than an index of 8 bits can tell apart
            n = s.draw(300, lambda r: r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 9, 20, 40]) if r.randrange(60) else r.choice([255, 256, 257, 258, 270, 300]))
            names = list(self.VARIANT_NAMES)
            vs, left = [], limit
            for j in range(n):
                if left < 1:
                    break
                style = s.pick(["unit", "tuple", "named", "tuple"]) if n < 12 or s.chance(1, 4 if n <= 40 else 30) or (n > 40 and j == n - 1) else "unit"
                vn = (names.pop(s.below(len(names)) if s.chance(1, 2) else 0)) if names else "Z%d" % j
                share = max(1, left // max(1, n - j)) if s.chance(3, 4) else left
                fs = self.fields(style, depth, share, env)
                vs.append((vn, style, fs))
                p = 1
                for _, ft in fs:
                    p *= count(ft, env)
                left -= p
        self.lts = []
        lost = [x for x in lts if not any(x in tags_in(ft) for v in vs for _, ft in v[2])]
        if lost:
            if kind == "struct":
                _, style, fs = vs[0]
                style = "tuple" if style == "unit" else style
                vs = [(name, style, fs + [("l" + x[1:] if style == "named" else str(len(fs) + j), ("tag", x)) for j, x in enumerate(lost)])]
            else:
                vs.append(("Life", "named", [("l" + x[1:], ("tag", x)) for x in lost]))
        # every parameter must be used
        missing = [i for i in range(len(params)) if i not in used(vs)]
        if missing:
            if kind == "struct":
                _, style, fs = vs[0]
                style = "tuple" if style == "unit" else style
                fs = fs + [("w%d" % i if style == "named" else str(len(fs) + j), ("param", i)) for j, i in enumerate(missing)]
                vs = [(name, style, fs)]
            else:
                vs.append(("Rest", "tuple", [(str(j), ("param", i)) for j, i in enumerate(missing)]))
        d = Def(name, kind, params, vs)
        d.lifetimes = [(x, s.pick(["", "", "'a"]) if x == "'b" else "") for x in lts]
        t = ("user", d, samples)
        if not fits(t):
            d.lifetimes = lts = []
            # over the limit because of the patch above: fall back to something small
            if kind == "struct":
                d.variants = [(name, "tuple", [(str(i), ("param", i)) for i in range(len(params))])]
            else:
                d.variants = [("V%d" % i, "tuple", [("0", ("param", i))]) for i in range(len(params))]
        for i, p in enumerate(params):
            d.bounds[p] = s.pick(["", "", "", "Copy", "EnumLike", "::enum_like::EnumLike + Copy", "Sized", "Send + Sync"] + (["'a", "'a + Copy"] if lts else []))
        if any(bounded_on_params(ft) for v in d.variants for _, ft in v[2]):
            # what the fields' own types demand
            for p in params:
                d.bounds[p] = s.pick(["EnumLike + Copy + Send + Sync + Assoc + 'static", "'static + Send + Sync + self::Assoc"])
        if params and s.chance(1, 5):
            d.default = "bool"
        if params and s.chance(1, 4):
            d.where = "where %s: %s" % (params[0], s.pick(["Copy", "EnumLike", "Clone + Copy", "::std::marker::Sized,", "Sized, for<'z> &'z %s: Sized" % params[0], "Copy, Option<%s>: EnumLike" % params[0]]))
        if lts and s.chance(1, 3):
            d.where = (d.where.rstrip(",") + ", " if d.where else "where ") + "'%s: 'a" % s.pick([x[1:] for x in lts])
        if s.chance(1, 5):
            d.attrs.append(s.pick(["/// Documented.", "#[must_use]", "#[must_use = \"why\"]", "#[rustfmt::skip]", "#[allow(clippy::all, dead_code)]", "#[cfg_attr(all(), allow(dead_code))]", "#[doc = concat!(\"a\", \"b\")]", "#[repr(align(64))]" if kind == "struct" else "#[doc(alias = \"é\")]", "#[non_exhaustive]", "#[repr(C)]" if kind == "struct" or vs else "#[must_use]", "#[cfg(all())]", "#[doc(hidden)]"]))
        self.defs.append(d)
        return ("user", d, samples)


def params_in(t):
    k = t[0]
    if k in ("param", "assoc"):
        return {t[1]}
    if k in ("opt", "arr"):
        return params_in(t[1])
    if k == "res":
        return params_in(t[1]) | params_in(t[2])
    if k == "tup":
        return set().union(*[params_in(x) for x in t[1]]) if t[1] else set()
    if k == "user":
        return set().union(*[params_in(x) for x in t[2]]) if t[2] else set()
    return set()


def tags_in(t):
    k = t[0]
    if k == "tag":
        return {t[1]}
    sub = [t[1]] if k in ("opt", "arr") else [t[1], t[2]] if k == "res" else t[1] if k == "tup" else t[2] if k == "user" else []
    return set().union(*[tags_in(x) for x in sub]) if sub else set()


def bounded_on_params(t):
    """Whether a type applies a user type with bounds to parameters, or needs `Assoc` of one."""
    k = t[0]
    if k == "assoc":
        return True
    if k in ("opt", "arr"):
        return bounded_on_params(t[1])
    if k == "res":
        return bounded_on_params(t[1]) or bounded_on_params(t[2])
    if k == "tup":
        return any(bounded_on_params(x) for x in t[1])
    if k == "user":
        if params_in(t) and (t[1].where or any(t[1].bounds.values())):
            return True
        return any(bounded_on_params(x) for x in t[2])
    return False


def show(t, params=(), s=None):
    """Rust syntax of a type; with `s`, sometimes in an unusual but equal form."""
    k = t[0]
    if k == "unit":
        r = "()"
    elif k == "bool":
        r = "bool"
    elif k == "hole":
        r = "Hole"
    elif k == "never":
        r = "Never"
    elif k == "leaf":
        r = "L%d" % t[1]
    elif k == "opt":
        r = "Option<%s>" % show(t[1], params, s)
    elif k == "res":
        r = "Result<%s, %s>" % (show(t[1], params, s), show(t[2], params, s))
    elif k == "tup":
        r = "(%s,)" % ", ".join(show(x, params, s) for x in t[1])
    elif k == "arr":
        n = str(t[2])
        if s and t[2] > 0 and s.chance(1, 8):
            n = s.pick(["%d + 1" % (t[2] - 1), "0x%x" % t[2], "%dusize" % t[2], "(%d)" % t[2], "N32 - %d" % (32 - t[2]), "::std::mem::size_of::<[u8; %d]>()" % t[2], "%d as usize" % t[2], "2 * %d / 2" % t[2], "ident(%d)" % t[2], "'\\x%02x' as usize" % t[2]])
        r = "[%s; %s]" % (show(t[1], params, s), n)
    elif k == "param":
        return params[t[1]]
    elif k == "assoc":
        return "%s::O" % params[t[1]] if s and s.chance(1, 2) else "<%s as Assoc>::O" % params[t[1]]
    elif k == "tag":
        r = "Tag<%s>" % t[1]
    else:
        r = t[1].name
        args = ["'static" for _ in t[1].lifetimes] + [show(a, params, s) for a in t[2]]
        if args:
            r += "<%s>" % ", ".join(args)
    if s and s.chance(1, 12):
        f = s.below(5)
        if f == 0:
            r = "(%s)" % r
        elif f == 1 and k == "opt":
            r = "::std::option::" + r
        elif f == 2 and not params:
            r = "the_type!(%s)" % r
        elif f == 3 and not params_in(t):
            r = "<%s as Same>::Out" % r
        elif f == 4 and k in ("user", "leaf", "hole"):
            r = "self::" + r
    return r


def fields_code(style, fields, params, s, vis=True):
    v = lambda: s.pick(["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "]) if vis else ""
    a = lambda: s.pick(["#[allow(unused)] ", "/** doc */ ", "#[cfg_attr(all(), allow(dead_code))] ", "#[cfg(any())] gone", "#[doc = r#\"a \"b\" c\"#] "]) if s.chance(1, 15) else ""
    gone = lambda t: t.replace("gone", ("" if style == "tuple" else "gone: ") + "L9, ")
    if style == "unit":
        return ""
    if style == "tuple":
        return "(%s)" % ", ".join(gone(a()) + v() + show(t, params, s) for _, t in fields)
    return " { %s }" % ", ".join(gone(a()) + v() + "%s: %s" % (n, show(t, params, s)) for n, t in fields)


def emit_def(d, s):
    ps = d.params
    lts = [x + (": " + b if b else "") for x, b in d.lifetimes]
    gen = ""
    if ps or lts:
        gen = "<%s>" % ", ".join(lts + [p + (": " + d.bounds[p] if d.bounds[p] else "") + (" = bool" if d.default and p == ps[-1] else "") for p in ps])
    out = list(d.attrs)
    out.append("#[derive(Copy, Clone, ::enum_like_derive::EnumLike)]" if s.chance(3, 4) else "#[derive(EnumLike, Clone, Copy)]")
    if d.kind == "struct":
        _, style, fields = d.variants[0]
        body = fields_code(style, fields, ps, s)
        if style == "named":
            out.append("pub struct %s%s %s%s" % (d.name, gen, d.where, body))
        else:
            out.append("pub struct %s%s%s %s;" % (d.name, gen, body, d.where))
    else:
        vs = []
        for n, style, fields in d.variants:
            a = s.pick(["#[allow(unused)] ", "/// doc\n", "#[cfg(all())] "]) if s.chance(1, 15) else ""
            if s.chance(1, 15):
                # stripped before the macro sees the definition
                a = "#[cfg(any())] Gone_%s(L7, ()), " % n + a
            vs.append(a + n + fields_code(style, fields, ps, s, vis=False))
        out.append("pub enum %s%s %s { %s%s }" % (d.name, gen, d.where, ", ".join(vs), "," if vs and s.chance(1, 2) else ""))
    # the independent description
    g = "<%s>" % ", ".join(lts + ["%s: Spec" % p + (" + " + d.bounds[p] if d.bounds[p] else "") for p in ps]) if gen else ""
    a = "<%s>" % ", ".join([x for x, _ in d.lifetimes] + ps) if gen else ""
    q = (lambda n: "%s::%s" % (d.name, n)) if d.kind == "enum" else (lambda n: d.name)
    cnt, nth, idx = [], [], []
    for n, style, fields in d.variants:
        c = " * ".join(["1u128"] + ["<%s as Spec>::count()" % show(t, ps) for _, t in fields])
        cnt.append(c)
        nth.append("let __c = %s; if __k < __c { return %s { %s }; } __k -= __c;" % (c, q(n), ", ".join("%s: take(&mut __k)" % f for f, _ in fields)))
        if d.kind == "enum" and not d.variants:
            continue
        pat = ", ".join("%s: ref p_%d" % (f, j) for j, (f, _) in enumerate(fields))
        idx.append(
            "%s { %s } => { let mut __ix = Mix::new(); %s %s + __ix.sum }"
            % (q(n), pat, " ".join("__ix.add(p_%d);" % j for j in range(len(fields))), " + ".join(["%du128" % cnt[:-1].count("1u128")] + [c for c in cnt[:-1] if c != "1u128"]))
        )
    out.append(
        "impl%s Spec for %s%s %s {\nfn count() -> u128 { %s }\nfn nth(mut __k: u128) -> Self { %s unreachable!() }\nfn index(&self) -> u128 { match *self { %s } }\n}"
        % (g, d.name, a, d.where, " + ".join(cnt) or "0", "\n".join(nth), ",\n".join(idx))
    )
    return "\n".join(out)


class Case:
    """code: a Rust module body with `pub fn run() -> R`; text: a short description."""

    def __init__(self, code, text, nontrivial):
        # the derive's parser does not know const generics (a known finding): name the leaves
        leaves = sorted(set(re.findall(r"\bL(\d+)\b", code)), key=int)
        self.code = "".join("pub type L%s = Leaf<%s>;\n" % (n, n) for n in leaves) + code
        self.text, self.nontrivial = text, nontrivial


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def limit_of(s):
    return s.draw(MAX - 1, lambda r: r.choice([1, 2, 3, 4, 8, 16, 40, 100, 100, 256, 256, 1000, 1000, 5000, 5000, 65536, 65536, 1 << 20, 1 << 24, 1 << 32, 1 << 33, 1 << 40, MAX, MAX]) - 1) + 1


USE = "use crate::base::*; use crate::check::R;\n"


def p18(s):
    """A nesting of built-in types."""
    g = TypeGen(s, users=False)
    if s.chance(1, 4):
        # one constructor with as many items as it takes
        n = s.range(1, 32)
        lim = limit_of(s)
        base = g.ty(1, max(1, int(min(lim, 1 << 50) ** (1.0 / n))))
        t = ("arr", base, n) if s.chance(1, 2) else ("tup", [g.leaf(max(1, int(min(lim, 1 << 50) ** (1.0 / n)))) for _ in range(n)])
    else:
        t = ("unit",)
        for _ in range(4):
            if size(t) < 2 or count(t) < 2:
                t = g.ty(s.range(1, 4), limit_of(s))
    if not fits(t):
        t = ("bool",)
    c = count(t)
    ts = show(t)
    code = USE + "pub fn run() -> R { crate::check::bijection::<%s>(%s, %d, %d) }" % (ts, q(ts), c, s.below(1 << 32))
    return Case(code, "%s: %d values" % (ts, c), c >= 2 and size(t) >= 2)


def user_types(s, depth=2):
    g = TypeGen(s)
    tops = []
    for k in range(s.draw(3, lambda r: r.choice([0, 0, 1, 1, 2, 3])) + 1):
        t = g.definition(["Foo", "Bar", "Baz", "Qux"][k], depth, max(1, limit_of(s)))
        tops.append(t)
        if t[2] and s.chance(1, 2):
            t2 = g.inst(t[1], 2, MAX)
            if t2:
                tops.append(t2)
    if s.chance(1, 3):
        t = g.ty(2, MAX)
        if fits(t):
            tops.append(t)
    tops = [t for t in tops if fits(t)]
    defs = "\n".join(emit_def(d, s) for d in g.defs)
    # items with the names a careless macro might use for its variables
    while s.chance(1, 12):
        nm = s.pick(["x", "value", "n", "i", "x0", "xa", "offset", "discr", "_value", "_x"])
        item = s.pick(["pub const %s: usize = 1;", "pub const %s: bool = true;", "pub struct %s;", "pub static %s: usize = 0;"]) % nm
        if " %s;" % nm not in defs and " %s:" % nm not in "".join(l for l in defs.split("\n") if l.startswith(("pub const", "pub static"))):
            defs += "\n" + item
    return g, tops, defs


def p19(s):
    """Derived implementations."""
    g, tops, defs = user_types(s)
    calls = "\n".join("crate::check::bijection::<%s>(%s, %d, %d)?;" % (show(t), q(show(t)), count(t), s.below(1 << 32)) for t in tops)
    code = USE + "use enum_like_derive::EnumLike;\n" + defs + "\npub fn run() -> R {\n%s\nOk(()) }" % calls
    plain_defs = [l for l in defs.split("\n") if l.startswith("pub struct") or l.startswith("pub enum")]
    return Case(code, "; ".join(plain_defs) + " -- " + ", ".join("%s: %d values" % (show(t), count(t)) for t in tops), any(count(t) >= 2 and size(t) >= 2 for t in tops))


def p20(s):
    """Unit-only enums."""
    n = s.draw(300, lambda r: r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 300]))
    repr_ = s.pick(["", "", "", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "C", "C, u8"]) if n else ""
    lo, hi = {"u8": (0, 255), "C, u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767)}.get(repr_, (-(1 << 31), (1 << 31) - 1))
    if repr_ in ("u32", "u64", "usize"):
        lo = 0
    n = min(n, hi - lo + 1)
    names = list(TypeGen.VARIANT_NAMES)
    vs, cur, used, hi_used = [], 0, set(), -1
    order = s.pick(["implicit", "some", "all", "reverse"])
    seen = []
    for j in range(n):
        nm = (names.pop(s.below(len(names))) if names and s.chance(1, 2) else "V_%d" % j)
        d = None
        if order == "all" or (order == "some" and s.chance(1, 3)):
            d = lo + s.edgy(hi - lo, [-lo, -lo + 1, n - lo, n - 1 - lo, hi - lo, 0, 100 - lo])
        elif order == "reverse":
            d = n - 1 - j
        if d is not None and (d in used or not lo <= d <= hi):
            d = None
        nxt = cur
        if d is None and (nxt in used or nxt > hi):
            d = next(x for x in range(lo, hi + 1) if x not in used)
        val = nxt if d is None else d
        used.add(val)
        seen.append(val)
        cur = val + 1
        form = ""
        if d is not None:
            if d >= 0:
                form = " = %s" % (s.pick(["%d", "%d", "(%d)", "%d + 0", "0x%x", "0 | %d", "!!%d", "%d << 0", "1 * (%d)", "::std::convert::identity(%d)", "%d as " + (repr_.replace("C, u8", "u8").replace("C", "isize") or "isize")]) % d)
            else:
                form = " = %s" % (s.pick(["%d" % d, "%d" % d, "!%d" % ~d, "%d - 1" % (d + 1)]) if d > lo else "%d" % d)
        a = s.pick(["#[allow(unused)] ", "/// doc\n", "#[cfg(all())] ", "#[doc(hidden)] "]) if s.chance(1, 12) else ""
        if s.chance(1, 12):
            # stripped before the macro sees the definition
            a = "#[cfg(%s)] Gone%d, " % (s.pick(["any()", "not(all())", "windows", "feature = \"gone\""]), j) + a
        vs.append((nm, a, form))
    if len(set(v[0] for v in vs)) != len(vs):
        vs = [("V_%d" % j, a, f) for j, (_, a, f) in enumerate(vs)]
    name = s.pick(["Foo", "Foo", "Bits", "EnumLike", "Abc", "É"])
    attrs = ("#[repr(%s)]\n" % repr_ if repr_ else "") + (s.pick(["#[non_exhaustive]\n", "/// doc\n", "#[allow(dead_code)]\n"]) if s.chance(1, 6) else "")
    body = "pub enum %s { %s }" % (name, ", ".join(a + nm + f for nm, a, f in vs))
    extra = sorted({x for x in [n, n + 1, n + 2, 2 * n, 255, 256, 257, 65536, 1 << 32, (1 << 32) + 1, 1 << 63, MAX, MAX - 1] + [x for x in seen if x >= 0][:40] + [(x & MAX) for x in seen[:10]] + [n + s.below(1000) for _ in range(3)] if n <= x <= MAX})
    code = USE.replace("use crate::base::*; ", "") + attrs + "#[derive(Copy, Clone, ::enum_like_derive::EnumLike)]\n" + body
    code += "\npub fn run() -> R { crate::check::in_order::<%s>(%s, &[%s], |x| match *x { %s }, &[%s]) }" % (
        name,
        q(name),
        ", ".join("%s::%s" % (name, v[0]) for v in vs),
        ", ".join("%s::%s => %d" % (name, v[0], j) for j, v in enumerate(vs)),
        ", ".join(str(x) for x in extra),
    )
    return Case(code, attrs.replace("\n", " ") + body, n >= 2)


BLOCKS = [("vec8", 8), ("vec16", 16), ("vec32", 32), ("vec64", 64), ("vec128", 128), ("small32", 32)]


def p29(s):
    """Derived types in containers that several threads use."""
    return p26(s, "threads_")


def p26(s, prefix=""):
    """End to end: derived types in every container that accepts them."""
    g, tops, defs = user_types(s, depth=2)
    calls = []
    for t in tops:
        c, ts = count(t), show(t)
        fs = []
        if c >= 2:
            fs += [f for f, b in BLOCKS if c <= 1 << b]
        if c <= 1 << 20:
            fs.append("set")
        if c <= 256:
            fs.append("packed8")
        if c <= 65536:
            fs.append("packed16")
        # instantiating all of them for every type is slow to compile
        if len(fs) > 4:
            keep = []
            for _ in range(4):
                keep.append(fs.pop(s.below(len(fs))))
            fs = keep
        for f in fs:
            calls.append("crate::check::%s%s::<%s>(%s, %d)?;" % (prefix, f, ts, q(ts), s.below(1 << 32)))
    code = USE + "use enum_like_derive::EnumLike;\n" + defs + "\npub fn run() -> R {\n%s\nOk(()) }" % "\n".join(calls)
    plain_defs = [l for l in defs.split("\n") if l.startswith("pub struct") or l.startswith("pub enum")]
    return Case(code, "; ".join(plain_defs) + " -- " + "; ".join(c.replace("crate::check::", "") for c in calls), any(count(t) >= 2 for t in tops) and bool(calls))


# P15: one program per case, with an expected verdict.
STORES = [
    ("push", "let mut v = V::new(); v.push(x); n += v.len();"),
    ("insert", "let mut v = V::new(); v.insert(0, x); n += v.len();"),
    ("collect", "let v: V = vec![x, x].into_iter().collect(); n += v.len();"),
    ("from vec", "let v: V = vec![x, x].into(); n += v.len();"),
    ("from_slice", "let v = V::from_slice(&[x, x]); n += v.len();"),
    ("from_elem", "let v = V::from_elem(x, 3); n += v.len();"),
    ("extend", "let mut v = V::new(); v.extend(Some(x)); n += v.len();"),
    ("resize", "let mut v = V::new(); v.resize(2, x); n += v.len();"),
    ("push in dead code", "if std::env::args().count() > 1000 { let mut v = V::new(); v.push(x); n += v.len(); }"),
    ("push then read", "let mut v = V::new(); v.push(x); v.push(x); n += v.iter().count(); n += v.get(0).is_some() as usize;"),
]
MODS = [("vec_u8", 8), ("vec_u16", 16), ("vec_u32", 32), ("vec_u64", 64), ("vec_u128", 128), ("smallvec_u32", 32)]


def sized(s, n, reject):
    """A type with exactly n values, as (definitions, type, expression of a value) -- n >= 1."""
    forms = ["leaf"]
    if n == 1:
        forms += ["unit", "one"]
    if n & (n - 1) == 0 and 2 <= n <= 1 << 32:
        forms += ["bools", "tuple"]
    if n >= 2:
        forms += ["opt", "derived enum"]
    if 2 <= n <= 300:
        forms += ["c-like"]
    if n % 2 == 0:
        forms += ["derived struct"]
    f = s.pick(forms)
    if f == "leaf":
        return "", "L%d" % n
    if f == "unit":
        return "", s.pick(["()", "[bool; 0]", "((), ())", "Option<Never>", "[(); 5]"])
    if f == "one":
        return "#[derive(Copy, Clone, EnumLike)] pub struct Foo;", "Foo"
    if f == "bools":
        return "", "[bool; %d]" % (n.bit_length() - 1)
    if f == "tuple":
        return "", "(%s,)" % ", ".join(["bool"] * (n.bit_length() - 1))
    if f == "opt":
        return "", "Option<L%d>" % (n - 1)
    if f == "derived enum":
        return "#[derive(Copy, Clone, EnumLike)] pub enum Foo { A, B(L%d) }" % (n - 1), "Foo"
    if f == "c-like":
        return "#[derive(Copy, Clone, EnumLike)] pub enum Foo { %s }" % ", ".join("V%d" % i for i in range(n)), "Foo"
    return "#[derive(Copy, Clone, EnumLike)] pub struct Foo { a: bool, b: L%d }" % (n // 2), "Foo"


def p15(s, accept):
    """A program that stores elements of a type with n values, and whether it must compile."""
    c = s.below(8)
    if c < 6:
        mod, bits = MODS[c]
        lo, hi = 2, min(1 << bits, MAX)
        store, body = s.pick(STORES)
        what = "enum_vec::%s::EnumVec, %s" % (mod, store)
        alias = "use enum_vec::%s::EnumVec; type V = EnumVec<T>;" % mod
        if s.chance(1, 6):
            store, body = s.pick([("enum_vec![x; n]", "let v = enum_vec::enum_vec![x; 3]; n += v.len();"), ("enum_vec![x, x]", "let v: V = enum_vec::enum_vec![x, x]; n += v.len();")])
            what = "enum_vec!, " + store
    else:
        bits = [8, 16][c - 6]
        lo, hi = 1, 1 << bits
        what = "PackedU%d" % bits
        alias = ""
        body = "n += (enum_like::PackedU%d::new(x).get().to_discr() < usize::MAX) as usize;" % bits
    if accept:
        n = lo + s.edgy(hi - lo, [0, 1, 2, hi - lo, hi - lo - 1, (hi - lo) // 2, 127, 254, 255])
    else:
        too_many = hi < MAX
        few = lo == 2
        if not too_many and not few:
            return None
        if few and (not too_many or s.chance(1, 4)):
            n = 1
        else:
            n = hi + 1 + s.edgy(MAX - hi - 1, [0, 1, 2, hi - 1, hi, (1 << 16) - hi - 1, (1 << 32) - hi - 1, (1 << 32) - hi, (1 << 33) - hi - 1, MAX - hi - 1])
    d, t = sized(s, n, not accept)
    # the value is made at run time, without evaluating anything of the container
    code = (
        USE
        + "use enum_like_derive::EnumLike;\n%s\ntype T = %s;\n%s\n#[inline(never)] fn go(x: T) -> usize { let mut n = 0; %s n }\n" % (d, t, alias, body)
        + "pub fn run() -> R { let x: T = <T as Spec%s>::%s; go(x); Ok(()) }" % ("", "nth(0)")
    )
    if d:
        code = code.replace("<T as Spec>::nth(0)", "<T as EnumLike>::from_discr(0)")
    return Case(code, "%s of %s (%s): %d values, %s" % (what, t, d, n, "fits" if accept else "must not compile"), True), (d, t, n, lo, hi)


# P30: types of more values than a machine word counts.


class Limit:
    """Types of exactly n values, and types just above and just below the limit of 2^64-1."""

    def __init__(self, s):
        self.s = s
        self.defs = []

    def define(self, kind, variants, params=(), args=()):
        if len(self.defs) >= 4:
            return None
        d = Def(["Foo", "Bar", "Baz", "Qux"][len(self.defs)], kind, list(params), variants)
        d.bounds = {p: "" for p in params}
        self.defs.append(d)
        return ("user", d, list(args))

    def struct(self, fields):
        """A product in the form of a type definition."""
        s = self.s
        params, args, fs = [], [], []
        named = s.chance(1, 2)
        for j, t in enumerate(fields):
            if len(params) < 3 and s.chance(1, 4):
                args.append(t)
                t = ("param", len(params))
                params.append(["T", "U", "W"][len(params)])
            fs.append(("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQR"[j] if named else str(j), t))
        style = "named" if named else "tuple"
        if s.chance(1, 3):
            # one of the variants of an enum
            vs = [("P", style, fs)]
            for k in range(s.below(3)):
                vs.insert(s.below(len(vs) + 1), ("U%d" % k, "unit", []))
            t = self.define("enum", vs, params, args)
        else:
            t = self.define("struct", [("Foo", style, fs)], params, args)
            if t:
                t[1].variants = [(t[1].name, style, fs)]
        return t if t else ("tup", fields)

    def product(self, fields):
        return self.struct(fields) if self.s.chance(1, 2) else ("tup", fields)

    def sum(self, parts):
        """A sum of types: Option, Result or a derived enum; a part of None is a variant without data."""
        s = self.s
        if s.chance(1, 2):
            vs = []
            for j, t in enumerate(parts):
                vs.append(("V%d" % j, "unit" if t is None else s.pick(["tuple", "named"]), [] if t is None else [("x", t)]))
            vs = [(n, st, [("0" if st == "tuple" else f, t) for f, t in fs]) for n, st, fs in vs]
            t = self.define("enum", vs)
            if t:
                return t
        t = None
        for x in parts:
            if t is None:
                t = x if x is not None else ("unit",)
            elif x is None:
                t = ("opt", t)
            else:
                t = ("res", t, x) if s.chance(1, 2) else ("res", x, t)
        return t

    def exact(self, n, depth=1):
        """A type of n values."""
        s = self.s
        forms = ["leaf", "leaf"]
        if n == 1:
            return ("unit",)
        if n == 2:
            return s.pick([("bool",), ("leaf", 2)])
        if depth > 0:
            forms += ["one more", "two"]
            if n & (n - 1) == 0 and n <= 1 << 32:
                forms += ["bools", "bools"]
            fs = [f for f in (2, 3, 4, 5, 7, 16, 17, 255, 256, 257, 641, 65537) if n % f == 0]
            if fs:
                forms += ["product", "product"]
        f = s.pick(forms)
        if f == "one more":
            return self.sum([self.exact(n - 1, depth - 1), None])
        if f == "two":
            a = 1 + s.edgy(n - 2, [0, 1, (n - 2) // 2, n - 2])
            return self.sum([self.exact(a, depth - 1), self.exact(n - a, depth - 1)])
        if f == "bools":
            return ("arr", ("bool",), n.bit_length() - 1)
        if f == "product":
            a = s.pick(fs)
            xs = [self.exact(a, 0), self.exact(n // a, depth - 1)]
            return ("tup", xs if s.chance(1, 2) else xs[::-1])
        return ("leaf", n)

    def near(self, over, depth):
        """A type of slightly more (over), or just at most, 2^64-1 values."""
        s = self.s
        if depth > 0 and s.chance(1, 3):
            if over:
                x = self.near(True, depth - 1)
                w = s.below(6)
                small = self.exact(1 + s.below(4), 1)
                if w == 0:
                    return ("opt", x)
                if w == 1:
                    return ("arr", x, s.pick([1, 1, 2, 3, 32]))
                if w == 2:
                    return self.product([x, small] if s.chance(1, 2) else [small, x])
                if w == 3:
                    return ("tup", [x])
                return self.sum([x, small] if s.chance(1, 2) else [small, x])
            x = self.near(False, depth - 1)
            return s.pick([("arr", x, 1), ("tup", [x]), ("tup", [x, ("unit",)]), ("tup", [("unit",), x]), ("arr", ("arr", x, 1), 1)])
        f = s.below(5)
        e = s.draw(1000, lambda r: r.choice([0, 0, 0, 1, 1, 2, r.randrange(1001)]))
        goal = MAX + 1 + e if over else MAX - e
        if f == 0:
            # many small steps
            k = 1 + s.below(5)
            k = max(k, goal - MAX) if goal - MAX < 40 else k
            x = self.exact(max(1, min(MAX, goal - k)), depth)
            return self.sum([x] + [None] * k)
        if f == 1:
            a = 1 + s.edgy(min(MAX, goal - 1) - 1, [0, 1, 2, e, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, (1 << 63) - 2, MAX // 2, MAX - 1])
            a = max(a, goal - MAX)
            return self.sum([self.exact(a, depth), self.exact(goal - a, depth)])
        if f == 2:
            k = s.range(2, 7)
            p, fs = 1, []
            for j in range(k - 1):
                room = MAX // p
                if room < 4:
                    break
                c = 2 + s.edgy(min(room // 2, 1 << 48) - 2, [0, 1, 2, 3, 14, 254, 255, (1 << 16) - 2, (1 << 31) - 2, (1 << 32) - 2, (1 << 32) - 1])
                c = min(c, room // 2)
                fs.append(self.exact(c, depth))
                p *= c
            last = MAX // p + (1 if over else 0)
            if over and s.chance(1, 3):
                # as far over as a whole multiple of the word
                last = min(MAX, last * s.range(1, 4) + s.below(3))
            fs.insert(s.below(len(fs) + 1), self.exact(last, depth))
            return self.product(fs)
        if f == 3:
            n = s.range(2, 32)
            lo, hi = 1, 1 << 33
            while hi - lo > 1:
                m = (lo + hi) // 2
                lo, hi = (m, hi) if m**n <= MAX else (lo, m)
            return ("arr", self.exact(min(hi + (s.below(3) if s.chance(1, 3) else 0), MAX) if over else lo, depth), n)
        # a variant of many values among others: a sum of products
        a = 2 + s.edgy(min((1 << 33) - 3, MAX - 2), [0, 1, 2, 255, 65535, (1 << 32) - 2, (1 << 32) - 3, (1 << 31)])
        b = goal // a
        b = min(b, MAX // a)
        rest = goal - a * b
        parts = [self.product([self.exact(a, 0), self.exact(b, depth)])]
        while rest > 0:
            r = min(rest, MAX)
            parts.append(self.exact(r, depth))
            rest -= r
        if len(parts) > 1 and s.chance(1, 2):
            parts.reverse()
        return self.sum(parts)


LIMIT_USES = [
    ("NUM_VARIANTS", "<T as EnumLike>::NUM_VARIANTS"),
    ("NUM_VARIANTS in a constant", "{ const N: usize = <T as EnumLike>::NUM_VARIANTS; N }"),
    ("NUM_VARIANTS in a static", "{ static N: usize = <T as EnumLike>::NUM_VARIANTS; N }"),
    ("NUM_VARIANTS in a generic function", "{ fn n<E: EnumLike>() -> usize { E::NUM_VARIANTS } n::<T>() }"),
    ("NUM_VARIANTS in a constant of a trait", "{ trait Has { const N: usize; } impl<E: EnumLike> Has for E { const N: usize = E::NUM_VARIANTS; } <T as Has>::N }"),
    ("values().size_hint()", "<T as enum_like::EnumValues>::values().size_hint().0"),
    ("values().count()", "<T as enum_like::EnumValues>::values().count()"),
    ("PackedU8::new", "match std::hint::black_box(None::<T>) { Some(x) => { enum_like::PackedU8::new(x); 1 } None => 0 }"),
    ("PackedU16::new", "match std::hint::black_box(None::<T>) { Some(x) => { enum_like::PackedU16::new(x); 1 } None => 0 }"),
    ("EnumSet::insert", "match std::hint::black_box(None::<T>) { Some(x) => { let mut e = enum_set::EnumSet::<T>::new(); e.insert(x); e.len() } None => 0 }"),
    ("collect into EnumSet", "std::hint::black_box(None::<T>).into_iter().collect::<enum_set::EnumSet<T>>().len()"),
] + [("%s, %s" % (m, w), "match std::hint::black_box(None::<T>) { Some(x) => { type V = enum_vec::%s::EnumVec<T>; let mut n = 0; %s n } None => 0 }" % (m, b)) for m, _ in MODS for w, b in STORES if "dead code" not in w]


def p30(s, accept):
    """A type of about 2^64 values, and whether the compiler must accept a use of it."""
    for _ in range(6):
        g = Limit(s)
        t = g.near(not accept, s.range(0, 2))
        n = count(t)
        if fits(t) == accept and (n > MAX) != accept and n > 0 and (accept or small_parts(t)):
            break
    else:
        g = Limit(s)
        t = ("leaf", MAX) if accept else ("opt", ("leaf", MAX))
        n = count(t)
    defs = "\n".join(emit_def(d, s) for d in g.defs)
    ts = show(t)
    code = USE + "use enum_like_derive::EnumLike;\n%s\ntype T = %s;\n" % (defs, ts)
    if accept:
        what = "compared with its description"
        code += "pub fn run() -> R { crate::check::bijection::<T>(%s, %d, %d) }" % (q(ts), n, s.below(1 << 32))
    else:
        what, use = s.pick(LIMIT_USES[:5]) if s.chance(1, 2) else s.pick(LIMIT_USES)
        code += "#[inline(never)] fn go() -> usize { %s }\npub fn run() -> R { std::hint::black_box(go()); Ok(()) }" % use
    plain_defs = [l for l in defs.split("\n") if l.startswith("pub struct") or l.startswith("pub enum")]
    return Case(code, "; ".join(plain_defs + ["%s: 2^%d%+d values" % (ts, BITS, n - MAX - 1) if n < MAX * 1000 else "%s: many more than 2^%d values" % (ts, BITS), what + ("" if accept else ": must not compile")]), True), None


def small_parts(t):
    """Every leaf is a type of its own (not beyond the limit)."""
    k = t[0]
    if k == "leaf":
        return 1 <= t[1] <= MAX
    sub = [t[1]] if k in ("opt", "arr") else [t[1], t[2]] if k == "res" else t[1] if k == "tup" else t[2] + [ft for v in t[1].variants for _, ft in v[2]] if k == "user" else []
    return all(small_parts(x) for x in sub)
