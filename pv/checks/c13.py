from ..core import Check, Fail
from ..model import *


def gen_sbox(src, dims, dmin=1):
    b = []
    for d in range(dims):
        f = src.weighted((3, 0), (3, src.draw(-9, 20)), (1, src.pick([-2 ** 40, 2 ** 40 + 3, 2 ** 31 - 2])))
        b += [f, f + max(dmin, src.weighted((6, src.draw(1, 9)), (4, src.draw(1, 40)), (1, src.draw(1, 3000)), (1, src.pick([2 ** 20 + 1, 2 ** 32 + 3]))))]
    return b


def cuts(bs_, d):
    return sorted({b[2 * d] for b in bs_})


class C13(Check):
    id = "C13"
    rule = "at least two processes own a part of the space (bisection or grid), so block borders had to be computed"
    quick, thorough = 12000, 150000
    technique = ("property-based testing: generated spaces (1D-3D, any borders), group sizes, shrunken groups, grid shapes; partitionings checked for exact tiling "
                 "and for the block sizes demanded by recursive bisection / grid division; all processes compared; shrinking")
    assumptions = ["nonempty spaces; grid: 3D, at least as many processes as blocks", "bisection splits a widest dimension proportionally to the processes (rounding up or down)"]

    def generate(self, src, tier):
        n = src.weighted((5, src.draw(1, 4)), (3, src.draw(1, 9)), (1, src.draw(1, 32)))
        gone = src.subset(list(range(n)), 25, 0) if n > 1 and src.chance(30) else []
        if len(gone) == n:
            gone = gone[1:]
        m = n - len(gone)
        sp = []
        for _ in range(src.draw(1, 4)):
            dims = src.draw(1, 3)
            box = gen_sbox(src, dims)
            kinds = []
            for _ in range(src.draw(1, 3)):
                k = src.weighted((4, "bisection"), (4 if dims == 3 else 0, "grid"), (1, "all"), (1, "master"))
                if k == "grid":
                    x = src.draw(1, m)
                    y = src.draw(1, m // x)
                    z = src.draw(1, m // x // y)
                    if src.chance(50):
                        z = m // x // y
                    k = "grid %s" % bs(src.shuffle([x, y, z]))
                elif k in ("all", "master") and src.chance(50):
                    k = k.capitalize()
                kinds.append(k)
            sp.append([dims, box, kinds])
        return {"n": n, "gone": gone, "spaces": sp}

    def fixed_cases(self, tier):
        # many processes (only some of them run the partitioners)
        o = []
        for n, box, k in ((343, [0, 64, 0, 64, 0, 64], "bisection"), (343, [-5, 64, 3, 64, 0, 20], "grid 7 7 7"), (600, [0, 30, 0, 40, 1, 17], "grid 3 20 10"),
                          (511, [0, 900, 0, 100], "bisection"), (1000, [7, 10 ** 9], "bisection"), (217, [0, 6, 0, 6, 0, 6], "bisection")):
            o.append({"n": n, "gone": [], "ask": [0, 1, n - 1], "spaces": [[len(box) // 2, box, [k]]]})
        return o

    def summary(self, case):
        n = case["n"]
        s = Script(n, "fake %d" % n)
        mem = [t for t in range(n) if t not in case["gone"]]
        g = 0
        if case["gone"]:
            s.add("shrink 1 0 %d %s" % (len(case["gone"]), bs(case["gone"])))
            g = 1
        p = 0
        for i, (dims, box, kinds) in enumerate(case["spaces"]):
            s.add("space %d %d %s" % (i, dims, bs(box)))
            for k in kinds:
                s.add("pr %d %s" % (p, k))
                s.at(case.get("ask", mem), "part %d %d %d %d -1 0" % (p, g, i, p))
                s.at(case.get("ask", mem), "dumpp %d all" % p)
                p += 1
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        res = eng.run(self.summary(case))
        res.require_ok()
        mem = [t for t in range(case["n"]) if t not in case["gone"]]
        m = len(mem)
        nontriv = False
        cl = set()
        p = 0
        for dims, box, kinds in case["spaces"]:
            for k in kinds:
                what = "%s of %s with %d processes: " % (k, box, m)
                ask = case.get("ask", mem)
                L = parse_lists(res.ranks[ask[0]], "%d all" % p)
                for t in ask[1:]:
                    if parse_lists(res.ranks[t], "%d all" % p) != L:
                        raise Fail(what + "process %d has another result" % t)
                p += 1
                own = {}
                for task, mn, tag, data, b in L:
                    if task in own or not 0 <= task < m:
                        raise Fail(what + "process %d has several ranges or does not exist" % task)
                    if empty_box(b) or any(b[2 * d] < box[2 * d] or b[2 * d + 1] > box[2 * d + 1] for d in range(dims)):
                        raise Fail(what + "range %s" % b)
                    own[task] = b
                w = k.split()
                cl.add(w[0].lower())
                cl.add("dims%d" % dims)
                if w[0].lower() == "all":
                    if own != {t: box for t in range(m)}:
                        raise Fail(what + "%s" % own)
                    continue
                if w[0].lower() == "master":
                    if own != {0: box}:
                        raise Fail(what + "%s" % own)
                    continue
                # exact tiling: disjoint, sizes add up
                bl = list(own.values())
                if sum(box_size(b) for b in bl) != box_size(box):
                    raise Fail(what + "%d indexes are owned of %d: %s" % (sum(box_size(b) for b in bl), box_size(box), own))
                for i in range(len(bl)):
                    for j in range(i):
                        if all(max(bl[i][q], bl[j][q]) < min(bl[i][q + 1], bl[j][q + 1]) for q in range(0, 2 * dims, 2)):
                            raise Fail(what + "ranges %s and %s overlap" % (bl[i], bl[j]))
                if len(bl) > 1:
                    nontriv = True
                if w[0] == "grid":
                    nb = [int(x) for x in w[1:]]
                    z = 1
                    for d in range(3):
                        ext = box[2 * d + 1] - box[2 * d]
                        c = sorted({(b[2 * d], b[2 * d + 1]) for b in bl})
                        if len(c) != min(nb[d], ext):
                            raise Fail(what + "dimension %d divided into %d blocks" % (d, len(c)))
                        s = [b - a for a, b in c]
                        if max(s) - min(s) > 1:
                            raise Fail(what + "dimension %d: block sizes %s" % (d, s))
                        z *= len(c)
                    if z != len(bl):
                        raise Fail(what + "no grid: %s" % own)
                else:
                    self.bisect(own, dims, box, 0, m, what)
                    if box_size(box) < m:
                        cl.add("small")
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"partitionings": p}}

    def bisect(self, own, dims, box, a, b, what):
        """box is distributed to processes a..b-1"""
        ts = [t for t in range(a, b) if t in own]
        ext = [box[2 * d + 1] - box[2 * d] for d in range(dims)]
        if b - a == 1 or max(ext) == 1:
            if len(ts) != 1 or own[ts[0]] != box:
                raise Fail(what + "processes %d-%d should own %s: %s" % (a, b - 1, box, own))
            return
        err = "no split found"
        for mid in sorted({(a + b) // 2, (a + b + 1) // 2}):
            for d in range(dims):
                if ext[d] != max(ext):
                    continue
                # all parts of the first processes before the others
                lo = [own[t] for t in ts if t < mid]
                hi = [own[t] for t in ts if t >= mid]
                if not lo or not hi:
                    continue
                for fst, snd, k in ((lo, hi, mid - a), (hi, lo, b - mid)):
                    c = max(x[2 * d + 1] for x in fst)
                    if min(x[2 * d] for x in snd) != c:
                        continue
                    w = c - box[2 * d]
                    if abs(w - max(ext) * k / (b - a)) >= 1 and w not in (1, ext[d] - 1):
                        err = "processes %d-%d get width %d of %d" % (a, mid - 1, w, max(ext))
                        continue
                    x, y = list(box), list(box)
                    x[2 * d + 1] = c
                    y[2 * d] = c
                    try:
                        f, g = (x, y) if fst is lo else (y, x)
                        self.bisect(own, dims, f, a, mid, what)
                        self.bisect(own, dims, g, mid, b, what)
                        return
                    except Fail as e:
                        err = str(e)
        raise Fail(what + "no bisection of %s for processes %d-%d (%s): %s" % (box, a, b - 1, err, own))


def empty_box(b):
    return any(b[k] >= b[k + 1] for k in range(0, len(b), 2))


CHECK = C13()
