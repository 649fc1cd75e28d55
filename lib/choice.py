"""Choice sequences: a case is a function of a list of integers, so shrinking works on the list."""
import os, random

MASK = (1 << 64) - 1
# numbers that the code under test has and the code this was written against has not (build.py)
DICT = [int(x) for x in os.environ.get("DICT", "").split(",") if x]


def mix(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            for b in x.encode():
                h = ((h ^ b) * 0x100000001B3) & MASK
        else:
            h = ((h ^ (x & MASK)) * 0xBF58476D1CE4E5B9) & MASK
        h ^= h >> 29
    return h


class Src:
    """Random when given a seed, replaying when given a list (missing choices are 0, too large ones clamped)."""

    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.replay = choices
        self.pos = 0
        self.rec = []

    def draw(self, top, pick=None):
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            v = min(v, top)
        elif DICT and top >= 3 and self.rng.randrange(100) < 8:
            v = self.rng.choice(DICT) + self.rng.choice([-1, 0, 0, 1])
            v = v if v <= top else self.rng.randint(0, top) if not pick else min(pick(self.rng), top)
        elif pick:
            v = min(pick(self.rng), top)
        else:
            v = self.rng.randint(0, top)
        self.rec.append(v)
        return v

    def below(self, n):
        return self.draw(n - 1)

    def range(self, lo, hi):
        return lo + self.draw(hi - lo)

    def chance(self, num, den):
        return self.draw(1, lambda r: int(r.randrange(den) < num)) == 1

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, ws):
        def f(r):
            t = r.randrange(sum(ws))
            for i, w in enumerate(ws):
                if t < w:
                    return i
                t -= w

        i = self.draw(len(ws) - 1, f)
        # shrinking does not know the weights
        return i if ws[i] else next(j for j, w in enumerate(ws) if w)

    def more(self, mean):
        return self.chance(mean, mean + 1)

    def edgy(self, top, edges):
        e = [x for x in edges if 0 <= x <= top]

        def f(r):
            if e and r.randrange(100) < 60:
                return r.choice(e)
            return r.randint(0, top)

        return self.draw(top, f)


def simpler(a, b):
    return (len(a), a) < (len(b), b)


def shrink(start, fails_batch, deadline, width=8):
    """`fails_batch(list of choice lists)` -> list of None or the recorded choices of a failing run.
    Deletes chunks, then lowers values; several candidates are tried at once."""
    import time

    best = start
    improved = True
    while improved and time.time() < deadline:
        improved = False

        def attempt(cands):
            nonlocal best, improved
            got = False
            for i in range(0, len(cands), width):
                if time.time() > deadline:
                    return got
                ok = [r for r in fails_batch(cands[i : i + width]) if r is not None and simpler(r, best)]
                if ok:
                    best = min(ok, key=lambda r: (len(r), r))
                    improved = got = True
                    return True
            return got

        for size in (64, 32, 16, 8, 4, 2, 1):
            while time.time() < deadline:
                if size > len(best):
                    break
                step = max(1, size // 2)
                c = [best[:i] + best[i + size :] for i in range(0, len(best) - size + 1, step)]
                if size == 1 and len(c) > 80:
                    c = c[:80]
                if not attempt(c):
                    break
        c = [best[:i] + [0] + best[i + 1 :] for i in range(len(best)) if best[i] > 0]
        while attempt(c) and time.time() < deadline:
            c = [best[:i] + [0] + best[i + 1 :] for i in range(len(best)) if best[i] > 0]
        c = [best[:i] + [best[i] // 2] + best[i + 1 :] for i in range(len(best)) if best[i] > 1]
        c += [best[:i] + [best[i] - 1] + best[i + 1 :] for i in range(len(best)) if best[i] > 1]
        attempt(c)
    return best
