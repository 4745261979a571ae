from ..core import Check, Fail
from ..model import *


def gen_weights(src, base, n):
    w = src.weighted((4, "none"), (3, "hash"), (3, "tab"))
    if w == "none":
        return "none"
    if w == "hash":
        return "hash %d %d" % (src.draw(1, 999), src.pick([1, 2, 3, 7, 50]))
    pool = src.pick([[1, 2], [0, 1], [0.25, 0.5], [1, 100], [0, 3, 0.1], [5], [0.001, 1, 1000], [0, 0, 1]])
    k = min(n, 300) if src.chance(80) else src.draw(1, min(n, 300))
    return "tab %d %d %s" % (base, k, " ".join(str(src.pick(pool)) for _ in range(k)))


def weight(w, i):
    w = w.split()
    if w[0] == "none":
        return 1.0
    if w[0] == "hash":
        return float(1 + mix(int(w[1]), i, 0, 0, 0) % int(w[2]))
    i -= int(w[1])
    return float(w[3 + i]) if 0 <= i < int(w[2]) else 1.0


class C12(Check):
    id = "C12"
    rule = "at least two processes and three indexes in the distributed dimension, with at least two processes owning indexes"
    quick, thorough = 8000, 100000
    technique = ("property-based testing: generated spaces, group sizes, cycle counts, index and process weights; the partitioning of every process "
                 "is compared with an independent model of the requested cumulative weights; shrinking")
    assumptions = ["nonempty spaces, 1 to 10 cycles, weights not negative with at least one positive process weight",
                   "each block border may deviate from the requested cumulative weight by one index (or half a unit weight)"]

    def generate(self, src, tier):
        n = src.weighted((5, src.draw(1, 4)), (3, src.draw(1, 9)), (1, src.draw(1, 32)))
        dims = src.weighted((5, 1), (2, 2), (2, 3))
        box = []
        for d in range(dims):
            f = src.weighted((3, 0), (3, src.draw(-9, 20)), (1, src.pick([-2 ** 40, 2 ** 40 + 3, -2 ** 33])))
            box += [f, f + src.weighted((5, src.draw(1, 12)), (3, src.draw(1, 40)), (1, src.draw(1, 1500 if dims == 1 else 60)))]
        ps = []
        for _ in range(src.draw(1, 5)):
            pd = src.draw(0, dims - 1)
            cyc = src.weighted((5, 1), (3, src.draw(2, 4)), (1, src.draw(1, 10)))
            iw = gen_weights(src, box[2 * pd], box[2 * pd + 1] - box[2 * pd])
            tw = gen_weights(src, 0, n) if src.chance(60) else "none"
            if sum(weight(tw, t) for t in range(n)) <= 0:
                tw = "none"
            how = src.draw(0, 1)
            if pd == 0 and "none" in (iw, tw) and src.chance(40):
                how = 2
            ps.append([pd, cyc, how, iw, tw])
        return {"n": n, "dims": dims, "box": box, "ps": ps}

    def summary(self, case):
        s = Script(case["n"], "fake %d" % case["n"])
        s.add("space 0 %d %s" % (case["dims"], bs(case["box"])))
        for i, (pd, cyc, how, iw, tw) in enumerate(case["ps"]):
            s.add("pr %d block %d %d %d %s %s" % (i, pd, cyc, how, iw, tw), "part %d 0 0 %d -1 0" % (i, i), "dumpp %d all" % i)
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        n, dims, box = case["n"], case["dims"], case["box"]
        res = eng.run(self.summary(case))
        res.require_ok()
        nontriv = False
        cl = {"dims%d" % dims}
        idx = 0
        for i, (pd, cyc, how, iw, tw) in enumerate(case["ps"]):
            what = "partitioner %d (dim %d, %d cycles, weights %s / %s) on %s with %d processes: " % (i, pd, cyc, iw[:60], tw[:60], box, n)
            L = parse_lists(res.ranks[0], "%d all" % i)
            for t in range(1, n):
                if parse_lists(res.ranks[t], "%d all" % i) != L:
                    raise Fail(what + "process %d has another result than process 0" % t)
            f, t = box[2 * pd], box[2 * pd + 1]
            rs = []
            for task, mn, tag, data, b in L:
                if not 0 <= task < n:
                    raise Fail(what + "process %d" % task)
                for d in range(dims):
                    if d != pd and b[2 * d:2 * d + 2] != box[2 * d:2 * d + 2]:
                        raise Fail(what + "range %s does not span dimension %d" % (b, d))
                rs.append((b[2 * pd], b[2 * pd + 1], task))
            rs.sort()
            # every index exactly once
            p = f
            for a, b, task in rs:
                if a != p or b <= a:
                    raise Fail(what + "index %d not assigned exactly once: ranges %s" % (min(a, p), rs))
                p = b
            if p != t:
                raise Fail(what + "indexes from %d not assigned: %s" % (p, rs))
            # cumulative weights at range borders
            cum, W, wmax = {f: 0.0}, 0.0, 0.0
            for k in range(f, t):
                w = weight(iw, k)
                W += w
                wmax = max(wmax, w)
                cum[k + 1] = W
            idx += t - f
            tws = [weight(tw, q) for q in range(n)]
            tt = sum(tws)
            tol = max(0.5, wmax) + 1e-6 * (1 + W)
            # parts in order: each is empty or the next range. all consistent numbers of ranges consumed so far:
            pos = {0}
            T = 0.0
            for k in range(n * cyc):
                T += W / cyc * tws[k % n] / tt
                nxt = set()
                for q in pos:
                    nxt.add(q)
                    if q < len(rs) and rs[q][2] == k % n:
                        nxt.add(q + 1)
                brd = lambda q: f if q == 0 else rs[q - 1][1]
                pos = {q for q in nxt if abs(cum[brd(q)] - T) <= tol}
                if W == 0:
                    pos = nxt
                if not pos:
                    raise Fail(what + "block %d (cycle %d, process %d) should end at weight %.3f of %.3f (+-%.3f): ranges %s" %
                               (k, k // n, k % n, T, W, tol, rs))
            if len(rs) not in pos:
                raise Fail(what + "blocks not ordered by process within cycles: %s" % rs)
            if iw == "none" and tw == "none":
                cl.add("equal")
                # equal weights: block sizes differ by at most one
                if len(rs) == n * cyc:
                    z = [b - a for a, b, _ in rs]
                    if max(z) - min(z) > 1:
                        raise Fail(what + "block sizes %s" % z)
                elif t - f > n * cyc:
                    raise Fail(what + "%d blocks for %d indexes" % (len(rs), t - f))
                elif max(b - a for a, b, _ in rs) > 1:
                    raise Fail(what + "blocks with more than one index, others empty: %s" % rs)
            if n > 1 and t - f > 2 and len({r[2] for r in rs}) > 1:
                nontriv = True
            for c, v in (("iw-" + iw.split()[0], 1), ("tw-" + tw.split()[0], 1), ("cycles", cyc > 1), ("small", t - f < n), ("setters", how == 1), ("short", how == 2)):
                if v:
                    cl.add(c)
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"indexes": idx, "partitionings": len(case["ps"])}}


CHECK = C12()
