from ..core import Check, Fail
from ..model import *
from .. import hist
from .c15 import C15

_c15 = C15()


def mapnos(L):
    """normal form of (task, tag, data, box) in given order with mapping numbers"""
    o = []
    lt = None
    for t, g, d, b in L:
        if t != lt:
            lt, m, lg = t, -1, -1
        if g == 0 or g != lg:
            m += 1
            lg = g
        o.append((t, m, g, d, b))
    return o


def meets(b, own):
    return any(b[0] < y and x < b[1] for x, y in own)


class C16(Check):
    id = "C16"
    rule = ("a filtered run was compared which had to drop at least one and keep at least one range, or a preserving/reducing switch between partitionings "
            "stored with filters only moved or reduced values")
    quick, thorough = 6000, 60000
    technique = ("property-based testing: generated range lists and built-in partitioners run with own-range and intersection filters, compared with the filtered "
                 "complete run (reference model); generated switch histories on filtered partitionings in the simulated MPI against the value model; shrinking")
    assumptions = ["intersection filters: 1D (as implemented)", "switch histories: 1D", "index ranges of one process in one partitioning do not overlap for switches"]

    def generate(self, src, tier):
        if src.chance(35):
            if src.chance(50):
                c = hist.gen_hist(src, tier, dims=1)
            else:
                c = hist.gen_rhist(src, tier, dims=1, init_pct=5)
            if any(s[0] not in ("sw", "swf", "fill") for s in c["steps"]):
                c["steps"] = c["steps"]
            need = set()
            cur = {}
            for s in c["steps"]:
                if s[0] == "sw":
                    if s[1] in cur:
                        need.add((cur[s[1]], s[2]))
                        need.add((s[2], cur[s[1]]))
                    cur[s[1]] = s[2]
                elif s[0] == "swf":
                    need.add((cur[s[1]], cur[s[1]]))
                elif s[0] == "trans":
                    need |= {(s[3], s[2]), (s[2], s[3])}
                elif s[0] in ("ex", "exa"):
                    cur[s[1]] = s[4]
                elif s[0] == "gone":
                    cur.pop(s[1], None)
            c["filt"] = src.shuffle(sorted(list(x) for x in need))
            return c
        n = src.weighted((5, src.draw(1, 4)), (2, src.draw(1, 9)))
        dims = src.weighted((8, 1), (1, 2), (1, 3))
        box = gen_box(src, dims, {1: 30, 2: 7, 3: 5}[dims])
        ps = []
        for _ in range(src.draw(1, 4)):
            w = src.weighted((7, "custom"), (1, "all"), (1, "master"), (2, "block"), (1, "bisection"), (2, "halo"), (1, "copy"))
            if w == "custom":
                p = _c15.gen_list(src, dims, box, n)
                ps.append({"ranges": [list(r) for r in p.ranges], "flags": p.flags})
            elif w == "halo":
                bt = [(src.draw(0, n - 1), src.draw(1, 2), b) for b in tiling(src, box, src.draw(1, 2 * n))]
                ps.append({"pr": "%s %d" % (src.pick(["halo", "cornerhalo"]), src.draw(1, 4)), "base": CustomP(dims, bt, PF_GROUP).cmd(0).split(" ", 2)[2], "bt": bt})
            elif w == "copy":
                bt = [(src.draw(0, n - 1), src.draw(0, 2), b) for b in tiling(src, box, src.draw(1, 2 * n))]
                d = src.draw(0, dims - 1)
                ps.append({"pr": "copy %d %d" % (d, d), "base": CustomP(dims, bt, PF_GROUP).cmd(0).split(" ", 2)[2], "bt": bt})
            elif w == "block":
                ps.append({"pr": "block %d %d 0 none none" % (src.draw(0, dims - 1), src.draw(1, 3))})
            else:
                ps.append({"pr": w})
        far = None
        si = any(p.get("flags", 0) & PF_SINGLE for p in ps)
        derived = any("bt" in p for p in ps)        # result has to cover the space
        if src.chance(15) and not (si and derived) and not any(p.get("pr", "").split(" ")[0] in ("block", "bisection") for p in ps):
            far = Far(src, box, si or (False if derived else None))
            box = far(box)
            for p in ps:
                if "ranges" in p:
                    p["ranges"] = [[t, g, far(b)] for t, g, b in p["ranges"]]
                    if not covers(box, [r[2] for r in p["ranges"]]):
                        p["flags"] |= PF_NOCOVER
                elif "base" in p:
                    p["base"] = CustomP(dims, [(t, g, far(b)) for t, g, b in p.pop("bt")], PF_GROUP | PF_NOCOVER).cmd(0).split(" ", 2)[2]
        for p in ps:
            p.pop("bt", None)
        inter = []
        if dims == 1:
            for _ in range(src.draw(1, 5)):
                inter.append([src.draw(0, len(ps) - 1), src.draw(0, len(ps) - 1)])
            inter = [list(x) for x in dict.fromkeys(map(tuple, inter))]
        # how own ranges get known: my run or complete run (of the other one)
        return {"n": n, "dims": dims, "box": box, "ps": ps, "inter": inter, "lists": True, "far": far is not None, "full": [src.chance(15) for _ in ps]}

    def summary(self, case):
        if "lists" not in case:
            return hist.render(case)
        n, dims = case["n"], case["dims"]
        s = Script(n, "fake %d" % n)
        s.add("space 0 %d %s" % (dims, bs(case["box"])))
        for i, p in enumerate(case["ps"]):
            o = -1
            if "base" in p:
                o = 100 + i
                s.add("pr %d %s" % (o, p["base"]), "part %d 0 0 %d -1 0" % (o, o))
            if "ranges" in p:
                s.add(CustomP(dims, [tuple(r) for r in p["ranges"]], p["flags"]).cmd(i))
            else:
                s.add("pr %d %s" % (i, p["pr"]))
            s.add("part %d 0 0 %d %d 0" % (50 + i, i, o), "dumpp %d all" % (50 + i))
            s.add("part %d 0 0 %d %d %d" % (i, i, o, 1 if i % 2 else 3))
            if i % 2:
                s.add("pstore %d my" % i)
            s.add("dumpp %d all" % i, "dumpp %d my" % i, "dumpp %d own" % i)
        for i, f in enumerate(case["full"]):
            if f:
                s.add("pstore %d all" % i)
        for a, b in case["inter"]:
            s.add("pstore %d inter %d" % (a, b))
        for k, (a, b) in enumerate(case["inter"]):
            s.add("echo INTER%d" % k, "dumpp %d inter %d" % (a, b))
        for i, p in enumerate(case["ps"]):
            s.add("echo AGAIN%d" % i, "dumpp %d own" % i)
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        res = eng.run(self.summary(case))
        res.require_ok()
        if "lists" not in case:
            mem = [r for r in range(case["n"]) if r not in case["rm"]]
            own = hist.check_parts(case, res, mem)
            m = hist.run_model(case, res, mem, own)
            return {"nontrivial": m.moved > 0 or m.reduced > 0, "classes": ["switch"] + hist.classes(case, own, m),
                    "counts": {"moved": m.moved, "reduced": m.reduced}}
        n, dims = case["n"], case["dims"]
        nontriv = False
        cl = {"lists", "dims%d" % dims} | ({"far-apart"} if case.get("far") else set())
        for t in range(n):
            lines = res.ranks[t]
            # sequence of appended ranges (task, tag, data, box) per partitioning; own ranges
            app, own = [], []
            for i, p in enumerate(case["ps"]):
                L = parse_lists(lines, "%d all" % (50 + i))
                cl.add(p["pr"].split()[0] if "pr" in p else "custom")
                if "ranges" in p:
                    own.append([r[2] for r in p["ranges"] if r[0] == t])
                else:
                    own.append([x[4] for x in L if x[0] == t])
                app.append(L)
                what = "partitioning %d (%s) on process %d of %d: " % (i, p.get("pr", "custom"), t, n)
                if parse_lists(lines, "%d all" % i) is not None:
                    raise Fail(what + "complete list known after storing own ranges")
                exp = self.filtered(case, p, L, lambda q, b: q == t)
                self.cmp(parse_lists(lines, "%d my" % i), exp, p, what + "own ranges: ")
                if 0 < len(exp) < len(L):
                    nontriv = True
                if not exp:
                    cl.add("no-own")
                o = [l for l in lines[lines.index("PART %d own" % i):]][1:len(exp) + 2]
                j = lines.index("ECHO AGAIN%d" % i)
                # own ranges do not change with more stored lists (merging aside, the same list)
                o2 = lines[j + 2:j + 2 + len(o)]
                if o2 != o:
                    raise Fail(what + "own ranges changed: %s, before %s" % (o2, o))
            for k, (a, b) in enumerate(case["inter"]):
                p = case["ps"][a]
                what = "partitioning %d (%s) on process %d of %d, intersection with partitioning %d: " % (a, p.get("pr", "custom"), t, n, b)
                j = lines.index("ECHO INTER%d" % k)
                got = parse_lists(lines[j:], "%d inter" % a)
                both = own[a] + own[b]
                exp = self.filtered(case, p, app[a], lambda q, x: meets(x, both))
                try:
                    self.cmp(got, exp, p, what)
                except Fail:
                    if not case["full"][a]:
                        raise
                    exp = app[a]         # the complete list also includes everything needed
                    self.cmp(got, exp, p, what)
                if len(exp) < len(app[a]) and exp:
                    nontriv = True
                    cl.add("intersect")
                if not both:
                    cl.add("intersect-nothing")
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"lists": n * (len(case["ps"]) + len(case["inter"]))}}

    def filtered(self, case, p, L, keep):
        if "ranges" in p and p["flags"] & (PF_MERGE | PF_SINGLE):
            return CustomP(case["dims"], [tuple(r) for r in p["ranges"] if keep(r[0], r[2])], p["flags"]).normal()
        return mapnos([(t, g, d, b) for t, m, g, d, b in L if keep(t, b)])

    def cmp(self, got, exp, p, what):
        if got is None:
            raise Fail(what + "no list")
        _c15.same(got, exp, what)


CHECK = C16()
