from ..core import Check, Fail
from ..model import *
from .. import hist
from .c06 import edge


class C19(Check):
    id = "C19"
    rule = ("a switch between partitionings of different groups moved or reduced values between processes, or values were moved by a switch from/to a "
            "migrated partitioning")
    quick, thorough = 5000, 60000
    technique = ("property-based testing: generated histories of shrinking/cloning groups, partitionings on all of them, switches within and across groups, "
                 "migration and reassignment, executed with the MPI backend in the simulated MPI and compared with a model of values per physical process; shrinking")
    assumptions = ["switches between groups directly derived from each other (others are refused by LAIK)",
                   "all processes of the larger group take part in a switch between groups",
                   "1D: ranges of one process in one partitioning do not overlap; reductions only in 1D"]

    def generate(self, src, tier):
        n = src.weighted((1, 1), (12, src.draw(2, 5 if tier == "quick" else 7)))
        dims = src.weighted((6, 1), (2, 2), (1, 3))
        box = gen_box(src, dims, {1: 30, 2: 8, 3: 4}[dims])
        gs = [{"m": list(range(n)), "p": None, "know": set(range(n))}]
        ps, steps, ds = [], [], []
        seed = src.draw(1, 10000)
        for _ in range(src.weighted((3, 1), (1, 2))):
            ty = src.pick(["int32", "double", "char", "int64", "uchar", "uint32", "uint64", "float"])
            gl = bool(dims > 1 and src.chance(20))
            ds.append({"ty": ty, "gen": gl, "am": 1 if gl else src.pick([0, 1, 2])})
        cur = [None] * len(ds)
        view = [set(range(n)) for _ in ds]

        def related(a, b):
            return gs[a]["p"] == b or gs[b]["p"] == a

        def newgroup():
            a = src.draw(0, len(gs) - 1)
            m = gs[a]["m"]
            if src.chance(12) or len(m) == 1:
                steps.append(["clone", a])
                gs.append({"m": list(m), "p": a, "know": set(m)})
                return
            rm = src.subset(list(range(len(m))), src.pick([20, 50, 70]), 1)
            if len(rm) == len(m):
                rm.pop(src.draw(0, len(m) - 1))
            steps.append(["shrink", a, rm])
            gs.append({"m": [p for i, p in enumerate(m) if i not in rm], "p": a, "know": set(m)})

        def newpart(g, want=None):
            p = hist.gen_part(src, dims, box, len(gs[g]["m"]), want or ("single" if src.chance(40) else "multi" if dims == 1 and src.chance(60) else None))
            p["twin"] = int(src.chance(40))
            ps.append(dict(p, g=g, know=set(gs[g]["know"]), mig=None))
            steps.append(["part", len(ps) - 1, g, p])
            return len(ps) - 1

        def switchable(d, p):
            if cur[d] is None:
                return view[d] >= set(gs[ps[p]["g"]]["m"])
            a, b = ps[cur[d]]["g"], ps[p]["g"]
            u = set(gs[a]["m"]) | set(gs[b]["m"])
            return (a == b or related(a, b)) and u <= view[d] and u <= ps[p]["know"] and u <= ps[cur[d]]["know"]

        def switch(d, p):
            nonlocal seed
            flow, op = NONE, RO_NONE
            g = ps[p]["g"]
            u = set(gs[g]["m"])
            if cur[d] is not None:
                flow, op = edge(src, dims, box, 2, ps, cur[d], p, ds[d]["ty"])
                u |= set(gs[ps[cur[d]]["g"]]["m"])
            steps.append(["sw", d, p, flow, op, sorted(u)])
            view[d] = u
            cur[d] = p
            if src.chance(85 if flow == NONE or flow == INIT else 50):
                seed += 1
                ty = ds[d]["ty"]
                useid = int(dims == 1 and src.chance(70))
                mode = src.pick([0, 1]) if ty in INTTYPES else src.pick([1, 2])
                steps.append(["fill", d, seed, mode, hist.gen_subbox(src, box) if src.chance(20) else None, useid])

        INTTYPES = hist.INTTYPES
        if src.chance(50):
            newgroup()
        for g in range(len(gs)):
            newpart(g, "single")
        for _ in range(src.draw(4, 12)):
            w = src.weighted((2 if len(gs) < 5 else 0, "group"), (4 if len(ps) < 20 else 0, "part"), (10, "sw"), (3, "mig"), (2 if dims == 1 else 0, "reassign"))
            if w == "group":
                newgroup()
                newpart(len(gs) - 1)
            elif w == "part":
                newpart(src.draw(0, len(gs) - 1))
            elif w == "sw":
                c = [(d, p) for d in range(len(ds)) for p in range(len(ps)) if switchable(d, p)]
                x = [(d, p) for d, p in c if cur[d] is not None and ps[cur[d]]["g"] != ps[p]["g"]]
                if x and src.chance(60):
                    c = x
                if c:
                    switch(*src.pick(c))
            elif w == "mig":
                # move a partitioning to a related group
                c = []
                for i, p in enumerate(ps):
                    if "ranges" not in p and p["pr"].split()[0] != "Master":
                        if not p.get("reas"):
                            continue
                    for h in range(len(gs)):
                        if not related(p["g"], h):
                            continue
                        u = set(gs[p["g"]]["m"]) | set(gs[h]["m"])
                        if not u <= p["know"] or any(cur[d] == i and not u <= view[d] for d in range(len(ds))):
                            continue
                        # members without the group: no ranges
                        have = p.get("have") or p.get("reas") or \
                            ({gs[p["g"]]["m"][r[0]] for r in p["ranges"]} if "ranges" in p else {gs[p["g"]]["m"][0]})
                        if not set(have) <= set(gs[h]["m"]):
                            continue
                        c.append((i, h, sorted(have), u))
                if c:
                    i, h, have, u = src.pick(c)
                    steps.append(["mig", i, h, sorted(u)])
                    ps[i]["g"] = h
                    ps[i]["know"] = u
                    ps[i]["have"] = have
                    ps[i]["mig"] = True
                    for d in range(len(ds)):
                        if cur[d] == i:
                            view[d] = u
                    # use it
                    c = [(d, p) for d in range(len(ds)) for p in range(len(ps)) if switchable(d, p) and (p == i or cur[d] == i) and cur[d] is not None]
                    if c and src.chance(80):
                        switch(*src.pick(c))
            else:
                c = []
                for i, p in enumerate(ps):
                    for h in range(len(gs)):
                        if gs[h]["p"] == p["g"] and hist.cover1d(p, box) == set(range(*box)) and set(gs[p["g"]]["m"]) <= p["know"] and not p.get("reas"):
                            c.append((i, h))
                if c:
                    i, h = src.pick(c)
                    g = ps[i]["g"]
                    if ps[i]["k"] != "single":
                        continue
                    ps.append({"k": "single", "pr": "reassign", "g": g, "know": set(gs[g]["m"]), "reas": list(gs[h]["m"])})
                    steps.append(["reas", len(ps) - 1, i, h])
                    for d in range(len(ds)):
                        if cur[d] == i and switchable(d, len(ps) - 1):
                            switch(d, len(ps) - 1)
        # end with a switch between groups, if possible
        c = [(d, p) for d in range(len(ds)) for p in range(len(ps)) if switchable(d, p) and cur[d] is not None and ps[cur[d]]["g"] != ps[p]["g"]]
        if c:
            switch(*src.pick(c))
        return {"n": n, "head": gen_sim_head(src) + gen_mpi_env(src), "dims": dims, "box": box, "datas": ds, "steps": steps, "rm": []}

    def summary(self, case):
        n, dims = case["n"], case["dims"]
        s = Script(n, "mpi")
        s.head = list(case["head"])
        s.add("space 0 %d %s" % (dims, bs(case["box"])))
        for i, d in enumerate(case["datas"]):
            s.add("data %d 0 %s" % (i, d["ty"]))
            if d["gen"]:
                s.add("genlayout %d" % i)
        gs, know = [list(range(n))], [list(range(n))]
        pg = {}
        cur = {}
        twins = {}
        for k, st in enumerate(case["steps"]):
            if st[0] in ("shrink", "clone"):
                m = gs[st[1]]
                if st[0] == "shrink":
                    s.at(m, "shrink %d %d %d %s" % (len(gs), st[1], len(st[2]), bs(st[2])))
                    gs.append([p for i, p in enumerate(m) if i not in st[2]])
                else:
                    s.at(m, "clone %d %d" % (len(gs), st[1]))
                    gs.append(list(m))
                know.append(m)
            elif st[0] == "part":
                _, i, g, p = st
                w, o = know[g], -1
                if "base" in p:
                    o = 100 + i
                    s.at(w, "pr %d %s" % (o, p["base"]["pr"]))
                    s.at(w, "part %d %d 0 %d -1 0" % (o, g, o))
                s.at(w, "pr %d %s" % (i, p["pr"]))
                s.at(w, "part %d %d 0 %d %d 0" % (i, g, i, o))
                s.at(gs[g], "echo K%d" % k)
                s.at(gs[g], "dumpp %d own" % i)
                if p.get("twin"):
                    # the same, with only the own ranges stored
                    s.at(w, "part %d %d 0 %d %d 3" % (200 + i, g, i, o))
                    twins[i] = gs[g]
                pg[i] = g
            elif st[0] == "reas":
                _, i, b, h = st
                g = pg[b]
                s.at(gs[g], "pr %d reassign %d none" % (i, h))
                s.at(gs[g], "part %d %d 0 %d %d 0" % (i, g, i, b))
                s.at(gs[g], "echo K%d" % k)
                s.at(gs[g], "dumpp %d own" % i)
                pg[i] = g
            elif st[0] == "mig":
                _, i, h, u = st
                s.at(u, "pmigrate %d %d" % (i, h))
                if i in twins:
                    s.at(u, "pmigrate %d %d" % (200 + i, h))
                pg[i] = h
                s.at(gs[h], "echo K%d" % k)
                s.at(gs[h], "dumpp %d own" % i)
                if i in twins:
                    # only processes in the group when the ranges were stored have some
                    s.at([r for r in gs[h] if r in twins[i]], "dumpp %d own" % (200 + i))
            elif st[0] == "sw":
                _, d, p, flow, op, u = st
                s.at(u, "switch %d %d %d %d" % (d, p, flow, op))
                s.at(gs[pg[p]], "dump %d s%d %d" % (d, k, case["datas"][d]["am"]))
                cur[d] = p
            elif st[0] == "fill":
                _, d, seed, mode, b, useid = st
                s.at(gs[pg[cur[d]]], "fill %d %d %d %d %d%s" % (d, seed, useid, mode, case["datas"][d]["am"], " %d %s" % (dims, bs(b)) if b else ""))
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        n, dims, box = case["n"], case["dims"], case["box"]
        res = eng.run(self.summary(case))
        res.require_ok()
        gs = [list(range(n))]
        pg, own, desc, stored = {}, {}, {}, {}
        mig = set()
        m = hist.Model(case)
        cl = {"dims%d" % dims}
        nontriv = False

        def ownlists(k, i, g, twin=0):
            o = {}
            for tid, r in enumerate(gs[g]):
                ls = res.ranks[r]
                j = ls.index("ECHO K%d" % k)
                ls = ls[j + 1:]
                if twin:
                    if r not in stored[twin - 1]:
                        continue
                    i = 200 + twin - 1
                    ls = ls[ls.index("PART %d own" % i):]
                assert ls[0] == "PART %d own" % i, ls[0]
                cnt = int(ls[1].split()[1])
                x = []
                for l in ls[2:2 + cnt]:
                    v = [int(y) for y in l.split(" nd")[0].split()[1:]]
                    if v[0] != tid:
                        raise Fail("step %d: own range with task %d reported to task %d" % (k, v[0], tid))
                    x.append((v[1], v[2], v[4:]))
                o[r] = x
            return o

        for k, st in enumerate(case["steps"]):
            what = "step %d (%s)" % (k, " ".join(map(str, st)))
            if st[0] == "shrink":
                gs.append([p for i, p in enumerate(gs[st[1]]) if i not in st[2]])
            elif st[0] == "clone":
                gs.append(list(gs[st[1]]))
                cl.add("clone")
            elif st[0] == "part":
                _, i, g, p = st
                pg[i], desc[i], stored[i] = g, p, gs[g]
                own[i] = ownlists(k, i, g)
                e = hist.expected(p)
                if e is not None:
                    for tid, r in enumerate(gs[g]):
                        x = sorted(repr((t, list(b))) for q, mm, t, _, b in e if q == tid)
                        if x != sorted(repr((t, b)) for mm, t, b in own[i][r]):
                            raise Fail("%s: own ranges %s on rank %d, given %s" % (what, own[i][r], r, x))
            elif st[0] == "reas":
                _, i, b, h = st
                g = pg[i] = pg[b]
                own[i] = ownlists(k, i, g)
                c = {}
                for r, l in own[i].items():
                    for _, _, x in l:
                        if r not in gs[h]:
                            raise Fail("%s: rank %d should not own ranges: %s" % (what, r, l))
                        for j in range(*x):
                            c[j] = c.get(j, 0) + 1
                if c != {j: 1 for j in range(*box)}:
                    raise Fail("%s: indexes not assigned exactly once: %s" % (what, own[i]))
                cl.add("reassign")
            elif st[0] == "mig":
                _, i, h, u = st
                cl.add("migrate")
                mig.add(i)
                o = ownlists(k, i, h)
                for r in gs[h]:
                    if o[r] != own[i].get(r, []):
                        raise Fail("%s: own ranges of rank %d after migration %s, before %s" % (what, r, o[r], own[i].get(r, [])))
                if desc.get(i, {}).get("twin"):
                    x = ownlists(k, i, h, i + 1)
                    if x != {r: l for r, l in o.items() if r in stored[i]}:
                        raise Fail("%s: own ranges of a partitioning keeping only these %s, of all %s" % (what, x, o))
                    cl.add("migrate-my")
                own[i] = o
                pg[i] = h
            elif st[0] == "fill":
                _, d, seed, mode, b, useid = st
                p = m.cur[d]
                for tid, r in enumerate(gs[pg[p]]):
                    # value depends on id in group
                    for _, _, x in own[p][r]:
                        y = box_and(x, b) if b else x
                        if not box_empty(y):
                            for i in box_idx(y):
                                m.vals[d][r][i] = val(case["datas"][d]["ty"], seed, i, tid + 1 if useid else 0, mode)
            elif st[0] == "sw":
                _, d, p, flow, op, u = st
                fr = None if m.cur[d] is None else own[m.cur[d]]
                cross = m.cur[d] is not None and pg[m.cur[d]] != pg[p]
                before = m.moved + m.reduced
                m.switch(d, fr, own[p], flow, op)
                if m.moved + m.reduced > before:
                    if cross:
                        cl.add("cross-moved")
                        if len(gs[pg[p]]) > len(gs[pg[m.cur[d]]]):
                            cl.add("grow")
                    if cross or p in mig or m.cur[d] in mig:
                        nontriv = True
                        if not cross:
                            cl.add("migrated-moved")
                elif cross:
                    cl.add("cross")
                m.cur[d] = p
                for r in gs[pg[p]]:
                    hist.check_dump(res, r, "s%d" % k, case["datas"][d]["ty"], dims, own[p][r], m.vals[d][r], what)
        if m.reduced:
            cl.add("reduced")
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"moved": m.moved, "reduced": m.reduced, "steps": len(case["steps"])}}


CHECK = C19()
