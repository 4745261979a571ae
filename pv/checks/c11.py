from ..core import Check, Fail
from ..model import *


LIM = 2 ** 63


def gen_axis(src, mode, near):
    """non-inverted [f, t[ with extent below 2^63"""
    if mode == 0:
        f = src.draw(-4, 6)
        return f, f + src.draw(0, 6)
    if mode == 1:
        # near the borders of another one
        f = near[0] + src.draw(-1, 1) if src.chance(60) else near[1] + src.draw(-1, 1)
        t = near[1] + src.draw(-1, 1) if src.chance(60) else f + src.draw(0, 2)
        f, t = min(f, t), max(f, t)
        return max(f, -LIM), min(t, LIM - 1)
    if mode == 2:
        k = src.pick([31, 32, 40, 53, 61, 62])
        f = src.draw(-2, 2) + src.pick([-1, 1]) * 2 ** k
        return f, f + src.draw(0, 3) * 2 ** src.draw(0, k - 1)
    a = src.pick([-LIM, LIM - 1, -LIM + 1, LIM - 2, 0, -1, 2 ** 62, -2 ** 62])
    b = src.pick([-LIM, LIM - 1, -LIM + 3, LIM - 5, 0, 1, 2 ** 31])
    a, b = min(a, b), max(a, b)
    return (a, b) if b - a < LIM else (a, a + 7)


def gen_range(src, dims, other=None):
    r = []
    m = src.weighted((4, 0), (2, 2), (2, 3))
    for d in range(dims):
        if other and src.chance(65):
            if src.chance(25):
                f, t = other[2 * d], other[2 * d + 1]
            else:
                f, t = gen_axis(src, 1, (other[2 * d], other[2 * d + 1]))
        else:
            f, t = gen_axis(src, m, None)
        f, t = (max(-LIM, min(LIM - 1, q)) for q in (f, t))
        r += [f, t] if t - f < LIM else [f, f + 1]
    return r


def empty(b):
    return any(b[k] >= b[k + 1] for k in range(0, len(b), 2))


def size(b):
    n = 1
    for k in range(0, len(b), 2):
        n *= max(0, b[k + 1] - b[k])
    return n


def inter(a, b):
    return [(max if k % 2 == 0 else min)(a[k], b[k]) for k in range(len(a))]


def bound(a, b):
    return [(min if k % 2 == 0 else max)(a[k], b[k]) for k in range(len(a))]


def within(a, b):
    return empty(a) or all(a[k] >= b[k] and a[k + 1] <= b[k + 1] for k in range(0, len(a), 2))


def wrap64(x):
    return (x + LIM) % (2 * LIM) - LIM


class C11(Check):
    id = "C11"
    rule = "at least one pair of ranges overlaps partially (neither contained in the other), and an index-by-index comparison or exact 64-bit arithmetic applies"
    quick, thorough = 6000, 60000
    technique = ("property-based testing: generated pairs of 1D-3D ranges (small, touching, empty, near the 64-bit limits) and space changes; "
                 "compared with sets of indexes (small ranges, enumerated) and exact integer arithmetic (all); shrinking")
    assumptions = ["ranges are not inverted (from <= to in every dimension), the extent of one dimension is below 2^63",
                   "the size is compared if below 2^64", "bounding box: exact for two ranges with indexes; with an empty one, at least containing both and no more than the hull of the borders",
                   "equality of two empty ranges with different borders is not checked"]

    def generate(self, src, tier):
        sp = []
        pairs = []
        for s in range(src.draw(1, 3)):
            dims = src.draw(1, 3)
            b = gen_range(src, dims)
            ch = [gen_range(src, dims) for _ in range(src.draw(0, 2))]
            sp.append([dims, b, ch])
            cur = (ch or [b])[-1]
            for _ in range(src.draw(1, 30)):
                r1 = gen_range(src, dims, cur if src.chance(50) else None)
                r2 = gen_range(src, dims, r1 if src.chance(85) else None)
                if src.chance(12):
                    r2 = list(r1)
                if src.chance(50):
                    r1, r2 = r2, r1
                pairs.append([s, r1, r2])
        return {"n": 1, "spaces": sp, "pairs": pairs}

    def summary(self, case):
        s = Script(1, "fake 1")
        for i, (dims, b, ch) in enumerate(case["spaces"]):
            s.add("space %d %d %s" % (i, dims, bs(b)), "dumps %d" % i)
        for i, (dims, b, ch) in enumerate(case["spaces"]):
            for c in ch:
                s.add("chspace %d %d %s" % (i, dims, bs(c)), *["dumps %d" % j for j in range(len(case["spaces"]))])
        for i, a, b in case["pairs"]:
            s.add("range2 %d %s %s %d" % (i, bs(a), bs(b), self.addable(a, b)))
        s.add("finalize")
        return s.text()

    def addable(self, a, b):
        return all(-LIM <= a[k] + b[k + 1] < LIM and -LIM <= b[k + 1] - a[k] < LIM for k in range(0, len(a), 2))

    def evaluate(self, case, eng):
        res = eng.run(self.summary(case))
        res.require_ok()
        L = res.ranks[0]
        for l in L:
            if l in ("INITDIFF", "COPYDIFF"):
                raise Fail("initialised range differs: " + l)
        cl = set()
        nontriv = False
        # spaces
        sl = [l.split() for l in L if l.startswith("SPACE ")]
        cur = {}
        exp = []
        for i, (dims, b, ch) in enumerate(case["spaces"]):
            cur[i] = (dims, b)
            exp.append(cur[i])
        for i, (dims, b, ch) in enumerate(case["spaces"]):
            for c in ch:
                cur[i] = (dims, c)
                exp += [cur[j] for j in range(len(case["spaces"]))]
        if len(sl) != len(exp):
            raise Fail("space output")
        for w, (dims, b) in zip(sl, exp):
            w = [int(x) for x in w[1:]]
            if w[0] != dims or w[2:] != b or (size(b) < 2 * LIM and w[1] != size(b)):
                raise Fail("space %dd %s: reported dims %d size %d range %s" % (dims, b, w[0], w[1], w[2:]))
        # pairs
        rl = [l for l in L if l.startswith("RANGE2 ")]
        iv = [l for l in L if l.startswith("RINV ")]
        ix = [l for l in L if l.startswith("RIDX ")]
        if not len(rl) == len(iv) == len(ix) == len(case["pairs"]):
            raise Fail("range output")
        pts = 0
        for (s, a, b), l, v, x in zip(case["pairs"], rl, iv, ix):
            dims, sb = cur[s]
            what = "ranges %s and %s (space %s): " % (a, b, sb)
            w = l.split()
            i = 0

            def take(name, n):
                nonlocal i
                if w[i] != name:
                    raise Fail(what + "output")
                if w[i + 1] == "-":
                    i += 2
                    return None
                r = [int(q) for q in w[i + 1:i + 1 + n]]
                i += n + 1
                return r
            i = 1
            o = {k: take(k, n) for k, n in (("empty", 2), ("size", 2), ("eq", 2), ("within", 2), ("insp", 2),
                                            ("int", 2 * dims), ("int2", 2 * dims), ("exp", 2 * dims), ("exp2", 2 * dims))}
            if o["empty"] != [int(empty(a)), int(empty(b))]:
                raise Fail(what + "empty: %s" % o["empty"])
            for r, q in ((a, o["size"][0]), (b, o["size"][1])):
                if size(r) < 2 * LIM and q != size(r):
                    raise Fail(what + "size of %s: %d" % (r, q))
            if o["eq"][0] != o["eq"][1] or (a == b and not o["eq"][0]) or (a != b and not (empty(a) and empty(b)) and o["eq"][0]):
                raise Fail(what + "equal: %s" % o["eq"])
            if o["within"] != [int(within(a, b)), int(within(b, a))]:
                raise Fail(what + "containment: %s" % o["within"])
            if o["insp"] != [int(within(a, sb)), int(within(b, sb))]:
                raise Fail(what + "containment in space: %s" % o["insp"])
            it = inter(a, b)
            for k in ("int", "int2"):
                if empty(it):
                    if o[k] is not None:
                        raise Fail(what + "intersection is empty, but got %s" % o[k])
                elif o[k] != it:
                    raise Fail(what + "intersection: %s, expected %s" % (o[k], it))
            bb = bound(a, b)
            for k, dst, oth in (("exp", a, b), ("exp2", b, a)):
                if not empty(a) and not empty(b):
                    if o[k] != bb:
                        raise Fail(what + "bounding box: %s, expected %s" % (o[k], bb))
                elif not (within(a, o[k]) and within(b, o[k]) and (within(o[k], bb))):
                    raise Fail(what + "bounding box with an empty range: %s" % o[k])
            if v.split()[1:] != "1 0 0 0 0 0 0 0 0 0".split():
                raise Fail(what + "invalid range: %s" % v)
            q = [int(z) for z in x.split()[1:]]
            fa, tb = a[::2], b[1::2]
            if q[0] != (fa == tb) or q[1] != 1:
                raise Fail(what + "index equality: %s" % q)
            if self.addable(a, b):
                pad = [0] * (3 - dims)
                if q[2:] != [m + n for m, n in zip(fa, tb)] + pad + [n - m for m, n in zip(fa, tb)] + pad:
                    raise Fail(what + "index sum/difference: %s" % q)
            # enumerated sets, for small ranges
            if size(a) <= 400 and size(b) <= 400 and size(bb) <= 3000 and not empty(a) and not empty(b):
                A, B = set(box_idx(a)), set(box_idx(b))
                pts += len(A) + len(B)
                I = set(box_idx(o["int"])) if o["int"] else set()
                if I != A & B or (o["within"][0] == 1) != (A <= B) or o["size"] != [len(A), len(B)] or (o["eq"][0] == 1) != (A == B):
                    raise Fail(what + "differs from enumerated sets")
                cl.add("enumerated")
            if not empty(it) and not within(a, b) and not within(b, a):
                nontriv = True
            if empty(a) or empty(b):
                cl.add("empty")
            if max(abs(q) for q in a + b) > 2 ** 60:
                cl.add("64-bit")
            cl.add("dims%d" % dims)
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"pairs": len(case["pairs"]), "indexes": pts}}


CHECK = C11()
