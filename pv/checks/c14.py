from ..core import Check, Fail
from ..model import *


def clip(b, box):
    return [(max if k % 2 == 0 else min)(b[k], box[k]) for k in range(len(b))]


def halo(b, box, d, corner):
    """boxes with all indexes within distance d"""
    n = len(b) // 2
    if corner:
        return [clip([b[k] + (-d if k % 2 == 0 else d) for k in range(2 * n)], box)]
    o = [list(b)]
    for q in range(n):
        x = list(b)
        x[2 * q] -= d
        x[2 * q + 1] += d
        o.append(clip(x, box))
    return o


def sets(L, idx):
    """L: (task, tag, box)"""
    o = {}
    for task, tag, b in L:
        o.setdefault((task, tag), set()).update(idx(b))
    return {k: v for k, v in o.items() if v}


class C14(Check):
    id = "C14"
    rule = "a halo, corner halo or copy extends at least two processes' ranges to other indexes, and some of it is clipped at the space border or overlaps other processes"
    quick, thorough = 10000, 100000
    technique = ("property-based testing: generated base partitionings (custom, built-in, derived), depths and spaces; index sets per process and tag "
                 "compared with enumerated neighbourhoods; all processes compared; shrinking")
    assumptions = ["halo partitioner: base ranges have tags > 0 (required)", "the result covers the space (checked by LAIK by default)"]

    def generate(self, src, tier):
        n = src.weighted((5, src.draw(1, 4)), (2, src.draw(1, 8)))
        dims = src.weighted((3, 1), (4, 2), (3, 3))
        box = gen_box(src, dims, {1: 30, 2: 8, 3: 5}[dims])
        spaces = [box]
        ps = []
        k = src.weighted((6, "custom"), (1, "bisection"), (1, "block"), (1, "all"), (1, "master"))
        far = None
        if k == "custom":
            rs = []
            for b in tiling(src, box, src.draw(1, 2 * n)):
                rs.append((src.draw(0, n - 1), b))
            for _ in range(src.draw(0, 2)):
                b = []
                for q in range(dims):
                    x, y = src.draw(box[2 * q], box[2 * q + 1] - 1), src.draw(box[2 * q] + 1, box[2 * q + 1])
                    b += [min(x, y), max(x, y)] if x != y else [x, x + 1]
                b = clip(b, box)
                rs.append((src.draw(0, n - 1), b))
            lo = 0 if src.chance(25) else 1
            hi = src.pick([1, 1, 3])
            rs = [(t, src.draw(lo, hi), b) for t, b in src.shuffle(rs)]
            if hi > 1:
                # an application groups ranges explicitly
                pass
            if src.chance(10):
                far = Far(src, box, False)
                box = spaces[0] = far(box)
                rs = [(t, g, far(b)) for t, g, b in rs]
            p = CustomP(dims, rs, PF_GROUP)
            tg = min(g for _, g, _ in rs) > 0
            ps.append({"pr": p.cmd(0).split(" ", 2)[2], "s": 0, "o": -1, "tag": tg})
        else:
            if k == "block":
                k = "block %d %d 0 none none" % (src.draw(0, dims - 1), src.draw(1, 3))
            ps.append({"pr": k, "s": 0, "o": -1, "tag": k == "bisection"})
        if dims == 3 and src.chance(10):
            x = src.draw(1, n)
            ps[0] = {"pr": "grid %d %d 1" % (x, n // x), "s": 0, "o": -1, "tag": True}
        for _ in range(src.draw(1, 4)):
            o = src.draw(0, len(ps) - 1)
            w = src.weighted((4 if ps[o]["tag"] else 0, "halo"), (4, "cornerhalo"), (3, "copy"))
            if w == "copy":
                sb = spaces[ps[o]["s"]]
                fd = src.draw(0, len(sb) // 2 - 1)
                if src.chance(40) and len(sb) == 2 * dims:
                    td, s = None, ps[o]["s"]
                    c = [q for q in range(dims) if sb[2 * q:2 * q + 2] == sb[2 * fd:2 * fd + 2]]
                    td = src.pick(c)
                else:
                    d2 = src.draw(1, 3)
                    nb = gen_box(src, d2, {1: 30, 2: 8, 3: 5}[d2])
                    td = src.draw(0, d2 - 1)
                    nb[2 * td:2 * td + 2] = sb[2 * fd:2 * fd + 2]
                    spaces.append(nb)
                    s = len(spaces) - 1
                ps.append({"pr": "copy %d %d" % (fd, td), "s": s, "o": o, "tag": ps[o]["tag"]})
            else:
                ps.append({"pr": "%s %d" % (w, src.weighted((4, src.draw(1, 2)), (2, src.draw(0, 12)), (1, 1000))), "s": ps[o]["s"], "o": o, "tag": ps[o]["tag"]})
        return dict({"n": n, "spaces": spaces, "ps": ps}, **({"far": 1} if far else {}))

    def summary(self, case):
        n = case["n"]
        s = Script(n, "fake %d" % n)
        for i, b in enumerate(case["spaces"]):
            s.add("space %d %d %s" % (i, len(b) // 2, bs(b)))
        for i, p in enumerate(case["ps"]):
            s.add("pr %d %s" % (i, p["pr"]), "part %d 0 %d %d %d 0" % (i, p["s"], i, p["o"]), "dumpp %d all" % i)
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        n = case["n"]
        res = eng.run(self.summary(case))
        res.require_ok()
        L = []
        nontriv = False
        cl = {"far-apart"} if case.get("far") else set()
        cnt = 0
        for i, p in enumerate(case["ps"]):
            L.append(parse_lists(res.ranks[0], "%d all" % i))
            for t in range(1, n):
                if parse_lists(res.ranks[t], "%d all" % i) != L[i]:
                    raise Fail("partitioning %d (%s): process %d has another result" % (i, p["pr"], t))
            if p["o"] < 0:
                continue
            w = p["pr"].split()
            box = case["spaces"][p["s"]]
            exp = []
            clipped = False
            for task, mn, tag, data, b in L[p["o"]]:
                if any(b[k] >= b[k + 1] for k in range(0, len(b), 2)):
                    continue
                if w[0] == "copy":
                    fd, td = int(w[1]), int(w[2])
                    x = list(box)
                    x[2 * td:2 * td + 2] = b[2 * fd:2 * fd + 2]
                    r = [x]
                else:
                    d = int(w[1])
                    r = halo(b, box, d, w[0] == "cornerhalo")
                    clipped |= any(b[k] - d < box[k] or b[k + 1] + d > box[k + 1] for k in range(0, len(b), 2)) and d > 0
                exp += [(task, tag, x) for x in r]
            got = [(task, tag, b) for task, mn, tag, data, b in L[i]]
            idx = Cells([x[2] for x in exp + got]).idx
            exp, got = sets(exp, idx), sets(got, idx)
            if got != exp:
                for k in sorted(set(got) | set(exp)):
                    g, e = got.get(k, set()), exp.get(k, set())
                    if g != e:
                        raise Fail("partitioning %d (%s of partitioning %d, space %s) process %d tag %d: missing %s, not expected %s; base ranges %s" %
                                   (i, p["pr"], p["o"], box, k[0], k[1], sorted(e - g)[:5], sorted(g - e)[:5], [x[4] for x in L[p["o"]] if (x[0], x[2]) == k]))
            cnt += sum(len(v) for v in exp.values())
            cl.add(w[0])
            cl.add("dims%d" % (len(box) // 2))
            if w[0] != "copy":
                cl.add("depth0" if w[1] == "0" else "deep" if int(w[1]) > 6 else "depth")
            if clipped:
                cl.add("clipped")
            if len({k[0] for k in exp}) > 1 and (clipped or w[0] == "copy"):
                nontriv = True
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"indexes": cnt}}


CHECK = C14()
