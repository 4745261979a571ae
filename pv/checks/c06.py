from ..core import Check
from ..model import *
from .. import hist


def edge(src, dims, box, nt, ps, a, b, ty, reds=True):
    """flow, op for a switch from a to b"""
    f, t = ps[a], ps[b]
    ok = []
    if hist.preservable(dims, box, f, t):
        ok += [(PRESERVE, RO_NONE)] * 3
    if reds:
        if dims == 1 and hist.cover1d(t, box) <= hist.cover1d(f, box):
            ok += [(PRESERVE, hist.gen_ops(src, ty))] * 3
        if dims == 1:
            ok += [(INIT, hist.gen_ops(src, ty))]
    if not ok or src.chance(5):
        return NONE, RO_NONE
    return src.pick(ok)


class C06(Check):
    id = "C06"
    rule = "a recorded transition or action sequence which moves or reduces data was executed and its result compared"
    quick, thorough = 6000, 60000
    nso = 14
    assumptions = ["ranges of one process in one 1D partitioning are disjoint", "reductions only in 1D (MPI backend)",
                                    "mappings given at recording time are in use at execution (reservation active)",
                   "a sequence with a reduction is recorded with both reservations given (otherwise finding C06-unknown-map-reduce)"]

    def generate(self, src, tier):
        return hist.gen_passes(src, self.gen(src, tier, wide=6), 30)

    def gen(self, src, tier, nfix=None, wide=0):
        w = bool(wide) and src.chance(wide)
        n = nfix or (src.draw(9, 14) if w else src.draw(1, 5 if tier == "quick" else 8))
        red = src.chance(40)          # mainly reductions
        dims = 1 if red else src.weighted((6, 1), (3, 2), (2, 3))
        fine = not w and src.chance(3)
        box = gen_fine_box(src, dims) if fine else gen_box(src, dims, {1: 40, 2: 8, 3: 4}[dims])
        rm = []
        if n > 1 and src.chance(15):
            rm = src.subset(list(range(n)), 30)[:n - 1]
        nt = n - len(rm)
        useres = src.chance(70 if red else 50)
        ps = [hist.gen_part(src, dims, box, nt, src.weighted((2, "multi"), (1, "single")) if red else "single" if src.chance(60) else None,
                            tagged=useres, fine=fine) for _ in range(src.draw(2, 4))]
        if red and nt > 1 and src.chance(20):
            # from all to one
            ps[0] = {"k": "all", "pr": "All"}
            ps[1] = hist.gen_full(src, dims, box, nt, [src.draw(0, nt - 1)])
        if w and red:
            # recorded reductions with many inputs
            c = gen_multi(src, dims, box, nt, tags=src.draw(1, 2) if useres else None, maxpieces=2, pct=85)
            ps[0] = {"k": "multi", "pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}
        ds, steps, seed = [], [], src.draw(1, 100000)
        tn = an = 0
        plans = []
        for d in range(src.weighted((3, 1), (1, 2))):
            ty = src.pick(["int32", "double", "char", "int64", "uchar", "uint32", "uint64", "float"])
            gl = bool(dims > 1 and src.chance(20))
            ds.append({"ty": ty, "gen": gl, "am": 1 if gl else src.pick([0, 1, 2])})
            ln = src.weighted((1, 1), (4, 2), (2, 3))
            cyc = [src.draw(0, len(ps) - 1) for _ in range(ln)]
            nres = [-1] * ln            # reservation used at each stop of the cycle
            if useres and src.chance(80):
                two = src.chance(40)
                for r in [2 * d, 2 * d + 1][:1 + two]:
                    steps.append(["res", r, d, sorted(set(cyc))])
                nres = [src.weighted((4, 2 * d), (4 if two else 0, 2 * d + 1), (1, -1)) for _ in cyc]
            edges = []
            for k in range(ln):
                a, b = cyc[k], cyc[(k + 1) % ln]
                flow, op = edge(src, dims, box, nt, ps, a, b, ty)
                kind = src.weighted((1, "sw"), (3, "ex"), (6, "exa"))
                # finding C06-unknown-map-reduce: a recorded reduction needs known mappings
                known = flow == PRESERVE and op != RO_NONE
                ra, rb = nres[k], nres[(k + 1) % ln]
                if known and (ra < 0 or rb < 0) and kind == "exa":
                    kind = "ex"
                e = [kind, a, b, flow, op, None, nres[(k + 1) % ln]]
                if kind != "sw":
                    same = [x for x in plans if x[:4] == [a, b, flow, op]]
                    if same and src.chance(50):
                        t = same[0][4]       # share one transition between containers
                    else:
                        t = tn
                        tn += 1
                        steps.append(["trans", t, a, b, flow, op])
                        plans.append([a, b, flow, op, t])
                    e[5] = t
                    if kind == "exa":
                        r1 = ra if ra >= 0 and (known or src.chance(70)) else -1
                        r2 = rb if rb >= 0 and (known or src.chance(70)) else -1
                        steps.append(["actions", an, d, t, r1, r2])
                        e[5] = an
                        an += 1
                edges.append(e)
            plans.append(["p", d, cyc, edges, nres])
        plans = [p[1:] for p in plans if p[0] == "p"]
        act = {}

        def use(d, r):
            if act.get(d, -1) != r:
                steps.append(["use", d, r])
                act[d] = r

        for d, cyc, edges, nres in plans:
            use(d, nres[0])
            steps.append(["sw", d, cyc[0], NONE, RO_NONE])
        for it in range(src.draw(1, 4)):
            for d, cyc, edges, nres in plans:
                for kind, a, b, flow, op, x, rb in edges:
                    if src.chance(85):
                        seed += 1
                        ty = ds[d]["ty"]
                        mode = 0 if ty in hist.INTTYPES else 2
                        if op == RO_NONE:
                            mode = 0
                        b2 = hist.gen_subbox(src, box) if src.chance(15) else None
                        steps.append(["fill", d, seed, mode, b2, 1 if op != RO_NONE else 0])
                    use(d, rb)
                    if kind == "sw":
                        steps.append(["sw", d, b, flow, op])
                    else:
                        steps.append([kind, d, x, a, b, flow, op])
        # back to direct switching, release of recorded objects
        if src.chance(50):
            for i in range(an):
                steps.append(["raw", "afree %d" % i])
            for i in range(tn):
                steps.append(["raw", "tfree %d" % i])
            for d, cyc, edges, nres in plans:
                kind, a, b, flow, op, x, rb = edges[0]
                seed += 1
                steps.append(["fill", d, seed, 0 if op == RO_NONE or ds[d]["ty"] in hist.INTTYPES else 2, None, 1 if op != RO_NONE else 0])
                steps.append(["sw", d, b, flow, op])
        return {"n": n, "head": gen_sim_head(src) + gen_mpi_env(src), "dims": dims, "box": box, "rm": rm, "parts": ps,
                "datas": ds, "steps": steps}

    def evaluate(self, case, eng):
        res = eng.run(hist.render(case))
        res.require_ok()
        mem = [r for r in range(case["n"]) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(case, res, mem, own)
        c = hist.classes(case, own, m)
        ks = [s[0] for s in case["steps"]]
        for k in ("ex", "exa", "res"):
            if k in ks:
                c.append("step-" + k)
        if any(s[0] == "actions" and (s[4] >= 0 or s[5] >= 0) for s in case["steps"]):
            c.append("known-mappings")
        if any(s[0] == "actions" and s[4] >= 0 and s[5] >= 0 and s[4] != s[5] for s in case["steps"]):
            c.append("two-reservations")
        if case.get("passes"):
            c.append("passes")
        return {"nontrivial": ("ex" in ks or "exa" in ks) and (m.moved > 0 or m.reduced > 0), "classes": c,
                "counts": {"reduced": m.reduced, "moved": m.moved, "inited": m.inited}}

    def summary(self, case):
        return hist.render(case)


CHECK = C06()
