from ..core import Check, Fail
from ..model import *
from .. import hist
from .c12 import gen_weights, weight


def count(rs):
    """index -> number of ranges with it"""
    c = {}
    for a, b in rs:
        for i in range(a, b):
            c[i] = c.get(i, 0) + 1
    return c


class C17(Check):
    id = "C17"
    rule = "indexes of a removed process were distributed to at least two surviving processes, or to one by at least two rounds of removals"
    quick, thorough = 8000, 90000
    technique = ("property-based testing: generated base partitionings, sets of removed processes, index weights and repeated removals; invariants over "
                 "the result (kept ranges, each lost index given once, load bound), compared between all processes; shrinking")
    assumptions = ["1D spaces, base partitionings covering the space, weights not negative (as required by the partitioner)",
                   "balanced: the additional load of a survivor differs from the average by at most the weight of one index (exceeds it by at most this if an index weighs more than the average)"]

    def generate(self, src, tier):
        n = src.weighted((6, src.draw(2, 6)), (3, src.draw(2, 10)), (1, src.draw(2, 24)))
        f = src.weighted((3, 0), (3, src.draw(-9, 20)), (1, src.pick([-2 ** 40, 2 ** 40 + 3])))
        box = [f, f + src.weighted((5, src.draw(1, 20)), (3, src.draw(1, 60)), (1, src.draw(1, 900)))]
        w = src.weighted((5, "custom"), (4, "block"), (1, "bisection"), (1, "all"), (1, "master"))
        if w == "custom":
            k = src.draw(1, 3 * n)
            rs = [(src.draw(0, n - 1), src.draw(0, 3) if src.chance(60) else 0, b) for b in tiling(src, box, k)]
            if src.chance(25):       # overlapping
                rs += [(src.draw(0, n - 1), src.draw(0, 2), hist.gen_subbox(src, box)) for _ in range(src.draw(1, 3))]
            p = "custom %d 1 %d %s" % (PF_GROUP | (PF_MERGE if src.chance(30) else 0), len(rs),
                                       " ".join("%d %d %s" % (t, g, bs(b)) for t, g, b in src.shuffle(rs)))
        elif w == "block":
            p = "block 0 %d 0 %s none" % (src.draw(1, 3), gen_weights(src, box[0], box[1] - box[0]))
        else:
            p = w
        sh = []
        m = n
        while m > 1 and len(sh) < 4 and (not sh or src.chance(55)):
            rm = src.subset(list(range(m)), src.pick([20, 40, 70]), 0 if src.chance(10) else 1)
            if len(rm) == m:
                rm.pop(src.draw(0, m - 1))
            sh.append([rm, gen_weights(src, box[0], box[1] - box[0]), src.chance(30)])
            m -= len(rm)
        return {"n": n, "box": box, "p": p, "sh": sh}

    def groups(self, case):
        gs = [list(range(case["n"]))]
        for rm, _, _ in case["sh"]:
            gs.append([p for i, p in enumerate(gs[-1]) if i not in rm])
        return gs

    def summary(self, case):
        n = case["n"]
        gs = self.groups(case)
        s = Script(n, "fake %d" % n)
        s.add("space 0 1 %s" % bs(case["box"]), "pr 0 " + case["p"], "part 0 0 0 0 -1 0", "dumpp 0 all")
        for k, (rm, iw, api) in enumerate(case["sh"]):
            for c in ["shrink %d %d %d %s" % (k + 1, k, len(rm), bs(rm)),
                      "pr %d reassign %d %s" % (k + 1, k + 1, iw), "part %d %d 0 %d %d 0" % (k + 1, k, k + 1, k), "dumpp %d all" % (k + 1),
                      "pmigrate %d %d" % (k + 1, k + 1), "echo MIG%d" % (k + 1), "dumpp %d all" % (k + 1)]:
                s.at(gs[k], c)
            if api:
                s.at(gs[k + 1], "dumpp %d own" % (k + 1))
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        res = eng.run(self.summary(case))
        res.require_ok()
        gs = self.groups(case)
        nontriv, cl = False, {case["p"].split()[0]}
        moved = 0
        old = parse_lists(res.ranks[0], "0 all")
        for k, (rm, iw, api) in enumerate(case["sh"]):
            g = gs[k]
            what = "round %d, removing %s of %d, weights %s, from %s: " % (k + 1, rm, len(g), iw[:60], [(x[0], x[4]) for x in old])
            L = None
            for p in g:
                l = parse_lists(res.ranks[p], "%d all" % (k + 1))
                if L is not None and l != L:
                    raise Fail(what + "process %d has another result than process %d: %s, %s" % (p, g[0], l, L))
                L = l
            surv = [t for t in range(len(g)) if t not in rm]
            ranges = lambda M, t: sorted((x[4][0], x[4][1]) for x in M if x[0] == t)
            if any(x[0] in rm or not 0 <= x[0] < len(g) for x in L):
                raise Fail(what + "ranges for removed processes: %s" % L)
            lost = count([r for t in rm for r in ranges(old, t)])
            extra, load = {}, {}
            for t in surv:
                o, c = count(ranges(old, t)), count(ranges(L, t))
                load[t] = 0.0
                for i in o:
                    if c.get(i, 0) < o[i]:
                        raise Fail(what + "process %d loses index %d: %s" % (t, i, ranges(L, t)))
                for i, v in c.items():
                    v -= o.get(i, 0)
                    if v:
                        extra[i] = extra.get(i, 0) + v
                        load[t] += v * weight(iw, i)
                        moved += v
            if extra != lost:
                d = [i for i in set(extra) | set(lost) if extra.get(i, 0) != lost.get(i, 0)]
                raise Fail(what + "index %d of removed processes given %d times instead of %d: %s" %
                           (d[0], extra.get(d[0], 0), lost.get(d[0], 0), L))
            if lost:
                W = sum(weight(iw, i) * v for i, v in lost.items())
                wm = max(weight(iw, i) for i in lost)
                for t in surv:
                    if load[t] > W / len(surv) + wm + 1e-6 * (1 + W):
                        raise Fail(what + "process %d gets additional weight %.3f, average is %.3f, one index at most %.3f" %
                                   (t, load[t], W / len(surv), wm))
                    if wm <= W / len(surv) and load[t] < W / len(surv) - wm - 1e-6 * (1 + W):
                        raise Fail(what + "process %d gets additional weight %.3f only, average is %.3f, one index at most %.3f" %
                                   (t, load[t], W / len(surv), wm))
                if iw == "none" and max(load.values()) - min(load.values()) > 1:
                    raise Fail(what + "additional indexes differ by more than one: %s" % sorted(load.items()))
                if len([t for t in surv if load[t] > 0]) > 1 or k > 0:
                    nontriv = True
                cl.add("rounds%d" % (k + 1))
                cl.add("iw-" + iw.split()[0])
                if len(lost) < len(surv):
                    cl.add("few")
                if any(ranges(old, t) == [] for t in surv):
                    cl.add("empty-survivor")
                if any(v > 1 for v in lost.values()):
                    cl.add("overlap")
            if not rm:
                cl.add("none-removed")
            # after migration: the same with new numbers
            mig = [(surv.index(x[0]),) + tuple(x[1:]) for x in L]
            for p in g:
                j = res.ranks[p].index("ECHO MIG%d" % (k + 1))
                m = [tuple(x) for x in parse_lists(res.ranks[p][j:], "%d all" % (k + 1))]
                if m != mig:
                    raise Fail(what + "after migration on process %d: %s, expected %s" % (p, m, mig))
            old = mig
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"rounds": len(case["sh"]), "moved": moved}}


CHECK = C17()
