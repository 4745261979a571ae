from ..core import Check, Fail
from ..model import *
from .. import hist
from .c07 import addr_block
from .c08 import hull


class C09(Check):
    id = "C09"
    rule = "a process owns at least 2 indexes whose addresses were compared over all access functions, after the memory was allocated, reused, reserved or provided"
    quick, thorough = 5000, 50000
    technique = ("property-based testing: generated sequences of partitionings (fresh, reused, reserved, application-provided memory); addresses and translations of "
                 "all access functions compared with each other and with the index sets; shrinking")
    assumptions = ["base pointers with strides only for the default layout", "1D local indexes with the default layout",
                   "an index between the ranges sharing one mapping counts as locally mapped (documented)"]

    def generate(self, src, tier):
        n = src.draw(1, 4)
        dims = src.weighted((5, 1), (4, 2), (3, 3))
        box = gen_box(src, dims, {1: 30, 2: 8, 3: 5}[dims])
        ds = []
        np = src.draw(1, 4)
        ps = []
        tagged = src.chance(60)
        for _ in range(np):
            # every process: own disjoint ranges
            rs = []
            for t in range(n):
                b = list(box) if src.chance(50) else hist.gen_subbox(src, box)
                for x in src.shuffle(tiling(src, b, src.draw(1, 4))):
                    if not rs or src.chance(60):
                        rs.append((t, 0, x))
            if dims == 1 and src.chance(10):
                p = CustomP(1, [(t, 0, [b[0], b[0] + 1]) for t, g, b in rs], PF_SINGLE | PF_NOCOVER)
            else:
                rs, how = gen_tags(src, rs, src.draw(1, 2) if tagged else None)
                p = CustomP(dims, src.shuffle(rs), PF_NOCOVER | (PF_GROUP if how else 0))
            ps.append({"ranges": p.ranges, "flags": p.flags, "pr": p.cmd(0).split(" ", 2)[2]})
        for _ in range(src.draw(1, 2)):
            ds.append({"ty": src.pick(["int32", "double", "char", "int64", "t:3", "t:24"]), "gen": dims > 1 and src.chance(15)})
        steps = []
        seed = 0
        for _ in range(src.draw(1, 7)):
            d = src.draw(0, len(ds) - 1)
            w = src.weighted((8, "sw"), (2 if tagged else 0, "res"), (1, "no"), (1, "prov"))
            if w == "res":
                steps.append(["res", d, src.subset(list(range(np)), 60, 1)])
            elif w == "no":
                steps.append(["no", d])
            elif w == "prov":
                p = src.draw(0, np - 1)
                steps.append(["prov", d, p])
            else:
                p = src.draw(0, np - 1)
                steps.append(["sw", d, p])
        return {"n": n, "dims": dims, "box": box, "parts": ps, "datas": ds, "steps": steps, "seed": src.draw(1, 10 ** 6),
                "own": dims < 3 and not any(box[::2]) and src.chance(40)}

    def maps(self, case, p, t):
        """{mapNo: [boxes]} of task t"""
        q = case["parts"][p]
        o = {}
        for tt, m, g, _, b in CustomP(case["dims"], [tuple(r) for r in q["ranges"]], q["flags"]).normal():
            if tt == t:
                o.setdefault(m, []).append(b)
        return o

    def summary(self, case):
        dims, n = case["dims"], case["n"]
        s = Script(n, "fake %d" % n)
        tn = []
        for d, x in enumerate(case["datas"]):
            tn.append("t%d" % d if x["ty"][0] == "t" else x["ty"])
            if x["ty"][0] == "t":
                s.add("type %d %s" % (d, x["ty"][2:]))
        if case.get("own"):
            # space created with the first container
            s.add("datan 0 0 %s %s" % (tn[0], bs(case["box"][1::2])))
        else:
            s.add("space 0 %d %s" % (dims, bs(case["box"])))
        for i, p in enumerate(case["parts"]):
            s.add("pr %d %s" % (i, p["pr"]), "part %d 0 0 %d -1 0" % (i, i))
        for d, x in enumerate(case["datas"]):
            if d > 0 or not case.get("own"):
                s.add("data %d 0 %s" % (d, tn[d]))
            if x["gen"]:
                s.add("genlayout %d" % d)
            s.add("mapq %d start 0" % d, "dget %d start -1" % d)
            if dims == 1:
                s.add("dquery %d %d" % (d, case["box"][0]))
        nr = 0
        for k, st in enumerate(case["steps"]):
            d = st[1]
            x = case["datas"][d]
            if st[0] == "res":
                s.add("res %d %d" % (nr, d), *["resadd %d %d" % (nr, p) for p in st[2]])
                s.add("resalloc %d" % nr, "resuse %d %d" % (d, nr))
                nr += 1
                continue
            if st[0] == "no":
                s.add("switch %d -1 0 0" % d, "mapq %d q%d %d" % (d, k, 0), "dget %d q%d -1" % (d, k))
                continue
            if st[0] == "prov":
                # without memory before, and only for processes with one mapping: the mapping gets the provided memory
                s.add("switch %d -1 0 0" % d, "resunuse %d" % d)
                es = int(x["ty"][2:]) if x["ty"][0] == "t" else TYPES[x["ty"]][0]
                for t in range(n):
                    m = self.maps(case, st[2], t)
                    if len(m) == 1:
                        s.at([t], "provide %d %d" % (d, box_size(hull(m[0])) * es))
            s.add("switch %d %d 0 0" % (d, st[2]), "mapq %d q%d %d" % (d, k, not x["gen"]), "dget %d q%d %d" % (d, k, st[2]), "addrs %d a%d %d" % (d, k, 1 if x["gen"] else -1))
            if st[0] == "prov":
                s.add("provide %d 0" % d)
            a, b = case["seed"] + k, case["seed"] // 7 + k
            s.add("fill %d %d 1 0 %d" % (d, case["seed"] + k, 1 if x["gen"] else a % 3), "dump %d v%d %d" % (d, k, 1 if x["gen"] else b % 3))
            if dims == 1:
                q = case["box"]
                s.add("dquery %d %s" % (d, bs(range(q[0] - 2, q[1] + 3))))
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        dims, n = case["dims"], case["n"]
        res = eng.run(self.summary(case))
        res.require_ok()
        nontriv = False
        cl = {"dims%d" % dims}
        cnt = 0
        for t in range(n):
            lines = res.ranks[t]
            q1 = [l for l in lines if l.startswith("Q1 ")]
            qi = 0
            if dims == 1:
                for _ in case["datas"]:
                    if q1[qi].split(" : ")[0] != "Q1 %d 0" % case["box"][0]:
                        raise Fail("index local without partitioning")
                    qi += 1
            self.dget(case, lines, "start", {}, "start: ", 0)
            for k, st in enumerate(case["steps"]):
                what = "step %d %s task %d: " % (k, st, t)
                d = st[1]
                x = case["datas"][d]
                if st[0] == "res":
                    cl.add("reserved")
                    continue
                if st[0] == "no":
                    if "MAPQ q%d 0" % k not in lines:
                        raise Fail(what + "mappings without partitioning")
                    self.dget(case, lines, "q%d" % k, {}, what, t)
                    continue
                if st[0] == "prov":
                    cl.add("provided")
                maps = self.maps(case, st[2], t)
                self.mapq(case, lines, "q%d" % k, maps, x, what)
                self.dget(case, lines, "q%d" % k, maps, what, t)
                own = [(m, i) for m in sorted(maps) for b in maps[m] for i in box_idx(b)]
                ad = addr_block(lines, "a%d" % k)
                pad = lambda i: tuple(list(i) + [0, 0, 0])[:3]
                if sorted((m, i) for m, i, *_ in ad) != sorted((m, pad(i)) for m, i in own):
                    raise Fail(what + "owned indexes differ")
                es = int(x["ty"][2:]) if x["ty"][0] == "t" else TYPES[x["ty"]][0]
                al = []
                for m, i, a0, a1, a2 in ad:
                    if not a0 == a1 == a2 or a0 == 0:
                        raise Fail(what + "index %s map %d: addresses differ: base/stride %d, layout offset %d, address of index %d" % (i, m, a0, a1, a2))
                    al.append((a0, i))
                al.sort()
                for (a, i), (b, j) in zip(al, al[1:]):
                    if b - a < es:
                        raise Fail(what + "indexes %s and %s share memory" % (i, j))
                # written through one function, read through another
                dm = parse_dump(lines, "v%d" % k, x["ty"], dims)
                for m, tag, b, vals in dm:
                    for i, v in zip(box_idx(b), vals):
                        if v != val(x["ty"], case["seed"] + k, i, t + 1):
                            raise Fail(what + "value at %s read as %s" % (i, v))
                cnt += len(al)
                if len(al) > 1:
                    nontriv = True
                if dims == 1:
                    hs = {m: hull(maps[m]) for m in maps}
                    ba = {}
                    for m, i, a0, *_ in ad:
                        ba[m, i[0]] = a0
                    for g in range(case["box"][0] - 2, case["box"][1] + 3):
                        self.q1(q1[qi], g, hs, maps, what)
                        qi += 1
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"addresses": cnt}}

    def q1(self, line, g, hs, maps, what):
        a, b = line.split(" : ")
        a, b = a.split()[1:], b.split()
        cand = [m for m in hs if hs[m][0] <= g < hs[m][1]]
        if int(a[0]) != g:
            raise Fail(what + "query output")
        if not cand:
            if a[1] != "0" or b[0] != "0" or b[1] != "-1":
                raise Fail(what + "index %d is not mapped, but reported as local: %s" % (g, line))
            return
        if a[1] != "1" or b[0] != "1":
            raise Fail(what + "index %d is mapped, but reported as not local: %s" % (g, line))
        m, l, m2, l2 = int(a[2]), int(a[3]), int(b[1]), int(b[2])
        if m not in cand or m2 not in cand or l != g - hs[m][0] or l2 != g - hs[m2][0]:
            raise Fail(what + "index %d in mappings %s (%s): translated to %s" % (g, cand, hs, line))
        if b[3] != "back" or int(b[4]) != g or (len(hs) == 1 and (b[5] != "single" or int(b[6]) != g)):
            raise Fail(what + "index %d: translating back gives %s" % (g, line))

    def dget(self, case, lines, label, maps, what, t):
        """container reports partitioning, group, space and own ranges"""
        for l in lines:
            if not l.startswith("DGET %s " % label):
                continue
            a, *r = l.split(" | ") if " |" in l else [l]
            r = sorted(tuple(int(v) for v in x.replace("|", " ").split()) for x in r)
            want = sorted(tuple(b) + (t,) for m in maps for b in maps[m])
            if a.split()[2:] != ["1", "1", "1", str(case["dims"]), str(box_size(case["box"]))] or r != want:
                raise Fail(what + "container reports %s, expected ranges %s" % (l, want))

    def mapq(self, case, lines, label, maps, x, what):
        k = next((k for k, l in enumerate(lines) if l.startswith("MAPQ %s " % label)), None)
        if k is None or int(lines[k].split()[2]) != len(maps):
            raise Fail(what + "number of mappings: %s, expected %d" % (lines[k], len(maps)))
        for j in range(-1, len(maps) + 2):
            w = [int(v) for v in lines[k + 2 + j].split()[1:]]
            if w[0] != j or w[1] != (j in maps):
                raise Fail(what + "mapping %d: %s" % (j, lines[k + 2 + j]))
            if j not in maps:
                # no mapping: null results
                if w[2:] != [-1, 1] + [0] * case["dims"] + [1]:
                    raise Fail(what + "invalid mapping %d: %s" % (j, w))
                continue
            if w[2] != j:
                raise Fail(what + "mapping %d has number %d" % (j, w[2]))
            if x["gen"]:
                continue
            h = hull(maps[j])
            if w[3] != 1 or w[-1] != 1 or w[4:-1] != [h[2 * q + 1] - h[2 * q] for q in range(case["dims"])]:
                raise Fail(what + "mapping %d of size %s is reported as %s" % (j, h, w))


CHECK = C09()
