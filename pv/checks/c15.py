from ..core import Check, Fail
from ..model import *
from .c14 import clip


def full_list(L):
    return [(t, tuple(b)) for t, m, g, d, b in L]


class C15(Check):
    id = "C15"
    rule = "a partitioning with at least 3 appended ranges of at least 2 processes, with the ranges not appended in normal order, was compared completely"
    quick, thorough = 8000, 80000
    technique = ("property-based testing: generated range lists (any order, overlapping, tags, merging, single indexes, processes without ranges); the resulting "
                 "list, all accessors and predicates compared with a reference model; shrinking")
    assumptions = ["merging: 1D", "tags not negative", "order of ranges of one process and tag with the same start (dimension 0) is not checked",
                   "equality of partitionings with the same index sets but differently divided ranges is only checked to be symmetric"]

    def gen_list(self, src, dims, box, n):
        k = src.weighted((3, "any"), (3, "single"), (2, "multi"), (2, "si" if dims == 1 else "any"), (1, "full"))
        if k == "single":
            return gen_single(src, dims, box, n)
        if k == "multi":
            return gen_multi(src, dims, box, n)
        rs = []
        if k == "si":
            for _ in range(src.draw(1, 30)):
                i = src.draw(box[0], box[1] - 1)
                rs.append((src.draw(0, n - 1), src.draw(0, 1), [i, i + 1]))
            return self.cover(CustomP(1, rs, PF_SINGLE), box, src)
        if k == "full":
            # near "all" / "master"
            ts = list(range(n)) if src.chance(60) else src.subset(list(range(n)), 40, 1)
            for t in ts:
                b = list(box)
                if src.chance(12) and box_size(box) > 1:
                    b = tiling(src, box, 2)[0]
                rs.append((t, src.draw(0, 1), b))
            if src.chance(20):
                rs.append(src.pick(rs))
            return self.cover(CustomP(dims, src.shuffle(rs), src.pick([0, PF_GROUP])), box, src)
        for _ in range(src.draw(0, 14)):
            b = []
            for q in range(dims):
                x, y = src.draw(box[2 * q], box[2 * q + 1]), src.draw(box[2 * q], box[2 * q + 1])
                x, y = min(x, y), max(x, y)
                if x == y:
                    x, y = (x, x + 1) if x < box[2 * q + 1] else (x - 1, x)
                b += [x, y]
            rs.append((src.draw(0, n - 1), 0, b))
            if src.chance(8):
                rs.append(rs[-1])
        rs, how = gen_tags(src, rs)
        if src.chance(20):
            rs = [(t, g * src.pick([1, 7, 1000]), b) for t, g, b in rs]
        fl = src.pick([0, PF_GROUP, PF_COMPACT])
        if dims == 1 and src.chance(50):
            fl |= PF_MERGE
        return self.cover(CustomP(dims, rs, fl), box, src)

    def cover(self, p, box, src):
        if not covers(box, [b for _, _, b in p.ranges]) or src.chance(40):
            p.flags |= PF_NOCOVER
        return p

    def generate(self, src, tier):
        n = src.weighted((5, src.draw(1, 4)), (2, src.draw(1, 9)))
        dims = src.weighted((4, 1), (3, 2), (3, 3))
        fine = src.chance(4)
        box = gen_fine_box(src, dims) if fine else gen_box(src, dims, {1: 24, 2: 7, 3: 5}[dims])
        ps = []
        for _ in range(src.draw(1, 4)):
            if ps and src.chance(35):
                # similar to another one
                q = src.pick(ps)
                rs = src.shuffle([list(r) for r in q["ranges"]])
                w = src.draw(0, 3)
                if rs and w == 1:
                    k = src.draw(0, len(rs) - 1)
                    rs[k][0] = src.draw(0, n - 1)
                elif rs and w == 2:
                    rs[src.draw(0, len(rs) - 1)][1] += 1
                elif rs and w == 3:
                    del rs[src.draw(0, len(rs) - 1)]
                if not rs and q["flags"] & PF_SINGLE:
                    continue
                p = self.cover(CustomP(dims, [tuple(r) for r in rs], q["flags"]), box, src)
            else:
                p = gen_fine(src, dims, box, n, src.chance(30)) if fine else self.gen_list(src, dims, box, n)
                if fine and not covers(box, [b for _, _, b in p.ranges]):
                    p.flags |= PF_NOCOVER
            ps.append({"ranges": [list(r) for r in p.ranges], "flags": p.flags, "mode": src.draw(0, 2)})
        # single questions about mappings, before anything else is asked for: (partitioning, process / own, mapping, range)
        qs = [[src.draw(0, len(ps) - 1), src.weighted((2, -1), (1, -2), (1, -3), (3, src.draw(0, n - 1))), src.draw(0, 3), src.draw(0, 2)]
              for _ in range(src.draw(0, 8))]
        far = None
        if src.chance(12):
            far = Far(src, box, any(p["flags"] & PF_SINGLE for p in ps) or None)
            box = far(box)
            for p in ps:
                p["ranges"] = [[t, g, far(b)] for t, g, b in p["ranges"]]
                if not covers(box, [b for _, _, b in p["ranges"]]):
                    p["flags"] |= PF_NOCOVER
        o = {"n": n, "dims": dims, "box": box, "ps": ps, "qs": qs}
        if far:
            o["far"] = 1
        if src.chance(6):
            # full coverage is checked if requested
            q = src.pick(ps)
            if not covers(box, [r[2] for r in q["ranges"]]):
                q["flags"] &= ~PF_NOCOVER
                o["ps"] = [q]
                o["panic"] = True
        return o

    def summary(self, case):
        n = case["n"]
        s = Script(n, "fake %d" % n)
        s.add("space 0 %d %s" % (case["dims"], bs(case["box"])))
        np = len(case["ps"])
        for i, p in enumerate(case["ps"]):
            c = CustomP(case["dims"], [tuple(r) for r in p["ranges"]], p["flags"])
            s.add(c.cmd(i), "part %d 0 0 %d -1 %d" % (i, i, p["mode"]))
            if p["mode"] == 1:
                s.add("pstore %d all" % i)
            for j, tid, k, r in case.get("qs", []):
                if j != i:
                    continue
                for t in range(n):
                    O = [x for x in c.normal() if x[0] == t]
                    if tid == -3 and k >= len({x[1] for x in O}):
                        continue    # not allowed to be asked for
                    s.at([t], "dumpp %d mq %d %d %d" % (i, tid, k, r))
            s.add(*["dumpp %d %s" % (i, w) for w in ("all", "my", "api", "own", "tid", "pred")])
        for i in range(np):
            for j in range(np):
                s.add("dumpp %d equal %d" % (i, j))
        for i in range(np):
            s.add("pclone %d %d" % (np + i, i), "dumpp %d all" % (np + i))
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        n, dims, box = case["n"], case["dims"], case["box"]
        res = eng.run(self.summary(case))
        if case.get("panic"):
            if res.ok() or "does not cover" not in res.stderr:
                raise Fail("ranges do not cover the space, but this was not reported: " + res.why())
            return {"nontrivial": False, "classes": ["uncovered"]}
        res.require_ok()
        cl = {"dims%d" % dims}
        if any(len(p["ranges"]) > 60 for p in case["ps"]):
            cl.add("many-ranges")
        if case.get("far"):
            cl.add("far-apart")
        nontriv = False
        np = len(case["ps"])
        cnt = 0
        for t in range(n):
            eq = [int(l.split()[1]) for l in res.ranks[t] if l.startswith("EQUAL ")]
            pr = [l for l in res.ranks[t] if l.startswith("PRED ")]
            LL = []
            mq = [l.split()[1:] for l in res.ranks[t] if l.startswith("MQ ")]
            for i, p in enumerate(case["ps"]):
                c = CustomP(dims, [tuple(r) for r in p["ranges"]], p["flags"])
                what = "partitioning %d on process %d of %d: " % (i, t, n)
                N = c.normal()
                cnt += len(N)
                L = parse_lists(res.ranks[t], "%d all" % i)
                self.same(L, N, what)
                LL.append(L)
                for w in ("%d api" % i, "%d my" % i, "%d all" % (np + i)):
                    if parse_lists(res.ranks[t], w) != L:
                        raise Fail(what + "list '%s' differs from complete list" % w)
                lines = res.ranks[t]
                k = lines.index("PART %d api" % i)
                if lines[k + 1] != "LIST %d %d" % (len(L), n) or lines[k + 2 + len(L)] != "END 1":
                    raise Fail(what + "range past the end: %s" % lines[k + 2 + len(L)])
                for j, tid, k, r in case.get("qs", []):
                    if j != i:
                        continue
                    O = [x for x in N if x[0] == (t if tid < 0 else tid)]
                    nm = len({x[1] for x in O})
                    M = [x for x in L if x[0] == (t if tid < 0 else tid) and x[1] == k]
                    if tid == -3 and k >= nm:
                        continue
                    e = ["mapcount", str(nm)] if tid == -2 else ["count", str(len(M))] if tid == -3 else bs(M[r][4]).split() if r < len(M) else ["none"]
                    g = mq.pop(0)
                    if g != e:
                        raise Fail(what + "question %s about mappings: %s, expected %s" % ([tid, k, r], g, e))
                    cl.add("single-question")
                self.own(lines, i, t, L, dims, what)
                self.tid(lines, i, n, L, dims, what)
                boxes = [b for *_, b in L]
                isall = full_list(L) == [(q, tuple(box)) for q in range(n)]
                single = L[0][0] if len(L) == 1 and L[0][4] == box else -1
                cov = covers(box, boxes)
                e = "PRED all %d single %d covers %d" % (isall, single, cov)
                if pr[i] != e:
                    raise Fail(what + "predicates '%s', expected '%s'" % (pr[i], e))
                if isall:
                    cl.add("all")
                if single >= 0:
                    cl.add("one")
                if not cov:
                    cl.add("holes")
                for f, q in ((PF_MERGE, "merge"), (PF_SINGLE, "single-index")):
                    if p["flags"] & f:
                        cl.add(q)
                if not p["ranges"]:
                    cl.add("no-ranges")
                if len({r[0] for r in p["ranges"]}) > 1 and len(p["ranges"]) > 2 and [r[:2] for r in p["ranges"]] != sorted(r[:2] for r in p["ranges"]):
                    nontriv = True
            for i in range(np):
                for j in range(np):
                    e = eq[i * np + j]
                    if e != eq[j * np + i]:
                        raise Fail("equality of partitionings %d and %d is not symmetric" % (i, j))
                    if full_list(LL[i]) == full_list(LL[j]):
                        if not e:
                            raise Fail("partitionings %d and %d have the same ranges, but are not equal" % (i, j))
                        cl.add("equal")
                    elif e and self.sets(LL[i], LL[j]) != self.sets(LL[j], LL[i]):
                        raise Fail("partitionings %d and %d have different indexes, but are equal" % (i, j))
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"ranges": cnt}}

    def sets(self, L, other):
        o = {}
        c = Cells(x[4] for x in L + other)
        for t, m, g, d, b in L:
            o.setdefault(t, set()).update(c.idx(b))
        return o

    def same(self, L, N, what):
        """same list except of the order among same (task, tag, start)"""
        key = lambda x: (x[0], x[2], x[4][0])
        a = [(x[0], x[2], x[4][0]) for x in L]
        b = [(x[0], x[2], x[4][0]) for x in N]
        if a != b:
            raise Fail(what + "ranges (process, tag, start) %s, expected %s" % (a, b))
        srt = lambda l: sorted((key(x), tuple(x[4]), x[3] if x[3] is not None else -1) for x in l)
        hasd = all(x[3] is not None for x in N)
        M = L if hasd else [(t, m, g, None, b) for t, m, g, d, b in L]
        if srt(M) != srt(N):
            raise Fail(what + "ranges %s, expected %s" % (srt(M), srt(N)))
        # mapping numbers: with tag 0, each range in list order has its own
        if [x[1] for x in L] != [x[1] for x in N]:
            raise Fail(what + "mapping numbers %s, expected %s (ranges %s)" % ([x[1] for x in L], [x[1] for x in N], N))

    def own(self, lines, i, t, L, dims, what):
        k = lines.index("PART %d own" % i)
        O = [x for x in L if x[0] == t]
        maps = {}
        for x in O:
            maps.setdefault(x[1], []).append(x[4])
        if lines[k + 1] != "OWN %d %d" % (len(O), len(maps)):
            raise Fail(what + "own ranges: %s, expected %d ranges in %d mappings" % (lines[k + 1], len(O), len(maps)))
        for j, x in enumerate(O):
            e = "T %d %d %d %d %s nd %s" % (x[0], x[1], x[2], x[3], bs(x[4]), bs(x[4]))
            if lines[k + 2 + j] != e:
                raise Fail(what + "own range %d: '%s', expected '%s'" % (j, lines[k + 2 + j], e))
        k += 2 + len(O)
        if lines[k] != "PAST 1 1":
            raise Fail(what + "own ranges past the end: " + lines[k])
        for m in range(len(maps)):
            e = "MAPR %d %d" % (m, len(maps[m])) + "".join(" | " + bs(b) for b in maps[m]) + " past 1"
            if lines[k + 1 + m].split() != e.split():
                raise Fail(what + "ranges of mapping: '%s', expected '%s'" % (lines[k + 1 + m], e))

    def tid(self, lines, i, n, L, dims, what):
        k = lines.index("PART %d tid" % i)
        for q in range(n):
            O = [x for x in L if x[0] == q]
            nm = max([x[1] for x in O], default=-1) + 1
            e = "TID %d %d %d" % (q, len(O), nm) + "".join(" | " + bs(x[4]) for x in O)
            for m in range(nm):
                M = [x[4] for x in O if x[1] == m]
                e += " map %d %d" % (m, len(M)) + "".join(" | " + bs(b) for b in M)
            if lines[k + 1 + q].split() != e.split():
                raise Fail(what + "ranges of process %d: '%s', expected '%s'" % (q, lines[k + 1 + q], e))


CHECK = C15()
