from ..core import Check, Fail
from ..model import *
from .. import hist


def parse_trans(lines):
    """[{L,I,S,V,X lists}] per dumpt number"""
    out = {}
    cur = None
    for l in lines:
        w = l.split()
        if not w:
            continue
        if w[0] == "T#":
            cur = out[int(w[1])] = {"L": [], "I": [], "S": [], "V": [], "X": [], "cnt": None}
        elif cur is None:
            continue
        elif w[0] == "TRANS":
            cur["cnt"] = w[1:]
        elif w[0] == "L":
            v = [int(x) for x in w[1:]]
            cur["L"].append((v[0], v[1], v[2], v[3], v[4:]))
        elif w[0] in ("S", "V", "I"):
            v = [int(x) for x in w[1:]]
            cur[w[0]].append((v[0], v[1], v[2], v[3:]))
        elif w[0] == "X":
            v = [int(x) for x in w[1:6]]
            gs = []
            for x in w[6:8]:
                gs.append(None if x == "all" else tuple(int(y) for y in x.split(",")[1:]))
            cur["X"].append((v[0], v[1], v[2], v[3], v[4], gs[0], gs[1], [int(x) for x in w[8:]]))
    return out


class C04(Check):
    id = "C04"
    rule = "at least one process of some transition in the case has a send, receive or reduction"
    quick, thorough = 6000, 80000
    technique = "property-based testing: generated partitioning pairs; plans of all processes compared with each other and with index-wise set model; shrinking"
    assumptions = ["preserve without reduction only with at most one previous owner per index (1D: previous ranges cover the new ones)",
                   "2D/3D reductions only from all processes to all or one", "1D ranges of one process are disjoint"]
    level_note = "Generated-input search with an index-wise reference model on all processes' transitions; no absence proof."

    def generate(self, src, tier):
        n = src.draw(1, 8 if tier == "quick" else 12)
        dims = src.weighted((6, 1), (3, 2), (2, 3))
        box = gen_box(src, dims, {1: 40, 2: 9, 3: 4}[dims])
        fine = src.chance(5)
        if fine:
            n = src.pick([2, 2, 3, 5, 6])
            box = gen_fine_box(src, dims)
        ps = []
        wide = not fine and src.chance(12)
        for _ in range(src.draw(2, 4)):
            if dims > 1 and src.chance(20):
                w = src.draw(0, 2)
                if w == 0:
                    ps.append({"k": "all" if n > 1 else "single", "pr": "All", "full": True})
                elif w == 1:
                    ps.append(dict(hist.gen_full(src, dims, box, n, list(range(n))), full=True))
                else:
                    ps.append(dict(hist.gen_full(src, dims, box, n, [src.draw(0, n - 1)]), full=True))
            else:
                ps.append(hist.gen_part(src, dims, box, n, builtin=not wide, fine=fine))
        tr = []
        for _ in range(src.draw(1, 4)):
            a, b = src.draw(-1, len(ps) - 1), src.draw(0, len(ps) - 1)
            flow = src.weighted((8, PRESERVE), (1, NONE), (2 if dims == 1 else 0, INIT))
            op = src.draw(SUM, OR)
            if a < 0 and flow == PRESERVE:
                a = 0
            if flow == PRESERVE:
                f, t = ps[a], ps[b]
                if dims == 1:
                    if hist.preservable(1, box, f, t) and src.chance(60):
                        op = RO_NONE
                else:
                    if hist.preservable(dims, box, f, t) and src.chance(60):
                        op = RO_NONE
                    elif not ((f["k"] == "all" or (n == 1 and f.get("full"))) and t.get("full")):
                        if hist.preservable(dims, box, f, t):
                            op = RO_NONE
                        else:
                            flow = NONE
            if flow == NONE:
                op = RO_NONE
            tr.append([a, b, flow, op])
        c = {"n": n, "dims": dims, "box": box, "parts": ps, "trans": tr}
        if wide:
            self.stretch(src, c)
        return c

    def stretch(self, src, case):
        if any(p.get("flags", 0) & PF_SINGLE for p in case["parts"]):
            return
        far = Far(src, case["box"], False)
        case["box"] = far(case["box"])
        case["far"] = 1
        for p in case["parts"]:
            if "ranges" in p:
                c = CustomP(case["dims"], [(t, g, far(b)) for t, g, b in p["ranges"]], p["flags"])
                if not covers(case["box"], [b for _, _, b in c.ranges]):
                    c.flags |= PF_NOCOVER
                p.update(pr=c.cmd(0).split(" ", 2)[2], ranges=c.ranges, flags=c.flags)

    def summary(self, case):
        s = Script(case["n"], "fake %d" % case["n"])
        s.add("space 0 %d %s" % (case["dims"], bs(case["box"])))
        nb = 100
        for i, p in enumerate(case["parts"]):
            o = -1
            if "base" in p:
                s.add("pr %d %s" % (nb, p["base"]["pr"]), "part %d 0 0 %d -1 0" % (nb, nb))
                o = nb
                nb += 1
            s.add("pr %d %s" % (i, p["pr"]), "part %d 0 0 %d %d 0" % (i, i, o), "dumpp %d all" % i)
        for k, (a, b, fl, op) in enumerate(case["trans"]):
            s.add("trans %d 0 %d %d %d %d" % (k, a, b, fl, op), "dumpt %d" % k)
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        n, dims = case["n"], case["dims"]
        res = eng.run(self.summary(case))
        res.require_ok()
        lists = []
        for i in range(len(case["parts"])):
            l = [parse_lists(res.ranks[r], "%d all" % i) for r in range(n)]
            if any(x != l[0] for x in l):
                raise Fail("processes have different ranges for partitioning %d" % i)
            per = [[] for _ in range(n)]
            for t, m, tag, data, b in l[0]:
                per[t].append((m, b))
            lists.append(per)
        trs = [parse_trans(res.ranks[r]) for r in range(n)]
        nontriv = False
        cl = {"dims%d" % dims}
        if case.get("far"):
            cl.add("far-apart")
        for k, (a, b, fl, op) in enumerate(case["trans"]):
            ts = [t.get(k) for t in trs]
            if any(t is None or t["cnt"] is None or t["cnt"] == ["null"] for t in ts):
                raise Fail("transition %d missing" % k)
            self.check(k, n, dims, lists[a] if a >= 0 else [[] for _ in range(n)], lists[b], fl, op, ts, case)
            if any(t["S"] or t["V"] or t["X"] for t in ts):
                nontriv = True
            for x, y in (("L", "local"), ("S", "send"), ("X", "reduce"), ("I", "init")):
                if any(t[x] for t in ts):
                    cl.add(y)
            for w in (40, 120):
                for x, y in (("L", "local"), ("I", "init"), ("S", "send"), ("V", "receive"), ("X", "reduce")):
                    if any(len(t[x]) > w for t in ts):
                        cl.add("more-than-%d-%s" % (w, y))
            if any(x[5] is not None for t in ts for x in t["X"]):
                cl.add("subset-inputs")
            if any(x[6] is not None for t in ts for x in t["X"]):
                cl.add("subset-outputs")
        return {"nontrivial": nontriv, "classes": sorted(cl)}

    def check(self, k, n, dims, fr, to, flow, op, ts, case):
        def err(m):
            raise Fail("transition %d (%s): %s" % (k, case["trans"][k], m))
        idx = Cells([b for l in (fr, to) for r in l for m, b in r] + [x[-1] for t in ts for w in "LISVX" for x in t[w]]).idx
        fown, town = [], []
        for r in range(n):
            fown.append({i for m, b in fr[r] for i in idx(b)})
            town.append({i for m, b in to[r] for i in idx(b)})

        # an index may be in several ranges of a process (derived partitionings)
        dup = any(sum(len(list(idx(b))) for _, b in l) > len(o) for ls, ow in ((fr, fown), (to, town)) for l, o in zip(ls, ow))

        def inside(r, lst, rangeNo, mapNo, b, what):
            # (range numbers are only informative: relative to the map in 1d, to the process otherwise)
            if box_empty(b) or not any(m == mapNo and box_and(b, o) == list(b) for m, o in lst[r]):
                err("process %d: %s %s outside of own ranges of map %d: %s" % (r, what, b, mapNo, lst[r]))

        for r, t in enumerate(ts):
            if flow == NONE and (t["L"] or t["I"] or t["S"] or t["V"] or t["X"]):
                err("process %d has operations without data flow" % r)
            if flow == INIT:
                if t["L"] or t["S"] or t["V"] or t["X"]:
                    err("process %d moves data with init flow" % r)
                got = sorted((m, o, tuple(b)) for ra, m, o, b in t["I"])
                want = sorted((m, op, tuple(b)) for m, b in to[r])
                if got != want:
                    err("process %d init operations %s, own ranges %s" % (r, got, want))
                continue
            if t["I"]:
                err("process %d has init operations" % r)
            if flow == NONE:
                continue
            cov = {}
            for fr_, fm, tr_, tm, b in t["L"]:
                inside(r, fr, fr_, fm, b, "kept source")
                inside(r, to, tr_, tm, b, "kept target")
                if dims == 1 or op == RO_NONE:
                    for i in idx(b):
                        cov[i] = cov.get(i, 0) + 1
            for peer, ra, m, b in t["V"]:
                if peer == r or not 0 <= peer < n:
                    err("process %d receives from %d" % (r, peer))
                inside(r, to, ra, m, b, "receive")
                for i in idx(b):
                    cov[i] = cov.get(i, 0) + 1
                    if i in fown[r] and op == RO_NONE:
                        err("process %d receives index %s it already holds" % (r, i))
            for peer, ra, m, b in t["S"]:
                if peer == r or not 0 <= peer < n:
                    err("process %d sends to %d" % (r, peer))
                inside(r, fr, ra, m, b, "send")
            for o, ir, im, or_, om, gi, go, b in t["X"]:
                if o != op:
                    err("process %d: reduction %d" % (r, o))
                gi = tuple(range(n)) if gi is None else gi
                go = tuple(range(n)) if go is None else go
                if r not in gi and r not in go:
                    err("process %d takes part in a reduction it has nothing to do with" % r)
                if r in gi:
                    inside(r, fr, ir, im, b, "reduction input")
                if r in go:
                    inside(r, to, or_, om, b, "reduction output")
                    for i in idx(b):
                        cov[i] = cov.get(i, 0) + 1
                for i in idx(b):
                    wi = tuple(q for q in range(n) if i in fown[q])
                    wo = tuple(q for q in range(n) if i in town[q])
                    if tuple(sorted(gi)) != wi or tuple(sorted(go)) != wo:
                        err("process %d: reduction of %s with inputs %s outputs %s, owners before %s after %s" % (r, i, gi, go, wi, wo))
            for i in town[r]:
                c = cov.pop(i, 0)
                some = any(i in f for f in fown)
                if c > 1 and not dup:
                    err("process %d gets index %s %d times" % (r, i, c))
                if c == 0 and some:
                    err("process %d does not get index %s" % (r, i))
            if cov:
                err("process %d gets indexes not owned afterwards: %s" % (r, sorted(cov)[:3]))
        if flow != PRESERVE:
            return
        # agreement
        for r in range(n):
            for q in range(n):
                if r == q:
                    continue
                s = [b for p, _, _, b in ts[r]["S"] if p == q]
                v = [b for p, _, _, b in ts[q]["V"] if p == r]
                if s != v:
                    err("process %d sends %s to %d which expects %s" % (r, s, q, v))
                if r < q:
                    al = tuple(range(n))

                    def red(x, o):
                        l = [(y[0], al if y[5] is None else y[5], al if y[6] is None else y[6], y[7]) for y in ts[x]["X"]]
                        return [y for y in l if o in y[1] or o in y[2]]
                    if red(r, q) != red(q, r):
                        err("processes %d and %d disagree on reductions: %s / %s" % (r, q, red(r, q), red(q, r)))
        # minimality: with one input, nobody receives more than once and holders keep
        if op == RO_NONE:
            for r in range(n):
                for p, _, _, b in ts[r]["S"]:
                    for i in idx(b):
                        if i in fown[p]:
                            err("process %d sends index %s to %d which holds it" % (r, i, p))


CHECK = C04()
