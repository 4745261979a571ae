from ..core import Check, Fail
from ..model import *


class C18(Check):
    id = "C18"
    rule = "at least two derived groups with members removed, at least one derived from a derived group"
    quick, thorough = 7000, 80000
    technique = ("property-based testing: generated histories of clone/shrink/union/set-world/resize operations on up to 24 processes against a set model of "
                 "member locations, partly with the MPI backend in the simulated MPI (communicator of each group used in a switch); shrinking")
    assumptions = ["unions which need a new group: without communication backend (MPI/TCP backends support shrinking only)", "at least one process in each group"]

    def generate(self, src, tier):
        sim = src.chance(20)
        n = src.weighted((5, src.draw(1, 5)), (3, src.draw(1, 8)), (0 if sim else 2, src.draw(1, 24)))
        gs = [list(range(n))]       # members by location
        ops = []
        cur = 0
        for _ in range(src.draw(2, 5) + src.draw(0, 9)):
            op = src.weighted((9, "shrink"), (2, "clone"), (5, "union"), (2, "setworld"), (1, "resize"), (1, "finish"), (1, "world"))
            a = src.draw(0, len(gs) - 1)
            if op == "shrink":
                m = gs[a]
                rm = src.subset(list(range(len(m))), src.pick([15, 40, 70]), 0 if src.chance(15) else 1)
                if len(rm) == len(m):
                    rm.pop(src.draw(0, len(m) - 1))
                if src.chance(15) and rm:
                    rm.append(rm[0])        # given twice
                gs.append([p for i, p in enumerate(m) if i not in rm])
                ops.append([op, a, src.shuffle(rm)])
            elif op == "clone":
                gs.append(list(gs[a]))
                ops.append([op, a])
            elif op == "union":
                b = src.draw(0, len(gs) - 1)
                if not sim and src.chance(60):
                    # neither contains the other, if possible
                    z = [(x, y) for x in range(len(gs)) for y in range(len(gs)) if not set(gs[x]) <= set(gs[y]) and not set(gs[y]) <= set(gs[x])]
                    if z:
                        a, b = src.pick(z)
                u = sorted(set(gs[a]) | set(gs[b]))
                if sim:
                    k = self.know2(n, sim, ops, gs)
                    if u not in (gs[a], gs[b]) or not set(u) <= k[a] & k[b]:
                        continue
                gs.append(u)
                ops.append([op, a, b])
            elif op == "setworld":
                if not sim or len(self.know2(n, sim, ops, gs)[a]) == n:
                    ops.append([op, a])
                    cur = a
            elif op == "resize":
                ops.append([op, src.draw(0, 99)])
            elif op == "world":
                gs.append(gs[cur])
                ops.append([op])
            else:
                ops.append([op])
        return {"n": n, "sim": sim, "ops": ops, "head": gen_sim_head(src) if sim else []}

    def groups(self, case):
        gs = [list(range(case["n"]))]
        cur = 0
        for o in case["ops"]:
            if o[0] == "shrink":
                gs.append([p for i, p in enumerate(gs[o[1]]) if i not in o[2]])
            elif o[0] == "clone":
                gs.append(gs[o[1]])
            elif o[0] == "union":
                gs.append(sorted(set(gs[o[1]]) | set(gs[o[2]])))
            elif o[0] == "setworld":
                cur = o[1]
            elif o[0] == "world":
                gs.append(gs[cur])
        return gs

    def know(self, case, gs):
        """for each group: processes which called the operation creating it"""
        return self.know2(case["n"], case["sim"], case["ops"], gs)

    def know2(self, n, sim, ops, gs):
        k = [set(range(n))]
        cur = 0
        for o in ops:
            if o[0] in ("shrink", "clone"):
                k.append(set(gs[o[1]]) if sim else set(range(n)))
            elif o[0] == "union":
                k.append(k[o[1]] & k[o[2]])
            elif o[0] == "world":
                k.append(set(range(n)))
        return k

    def summary(self, case):
        n, sim = case["n"], case["sim"]
        s = Script(n, "mpi" if sim else "fake %d" % n)
        s.head += case["head"]
        gs = self.groups(case)
        cur = g = 0
        know = self.know(case, gs)
        s.add("dumpg 0", "dumpw")
        for o in case["ops"]:
            if o[0] in ("shrink", "clone", "union"):
                g += 1
                who = sorted(know[g])
                if o[0] == "shrink":
                    c = "shrink %d %d %d %s" % (g, o[1], len(o[2]), bs(o[2]))
                elif o[0] == "clone":
                    c = "clone %d %d" % (g, o[1])
                else:
                    c = "union %d %d %d" % (g, o[1], o[2])
                s.at(who, c)
                s.at(who, "dumpg %d" % g)
            elif o[0] == "setworld":
                s.add("setworld %d" % o[1])
            elif o[0] == "resize":
                s.add("resize 99 %d" % o[1], "dumpg 99")
            elif o[0] == "finish":
                s.add("finishresize")
            else:
                g += 1
                s.add("world %d" % g, "dumpg %d" % g)
            s.add("dumpw")
        s.add("echo END")
        for g in range(len(gs)):
            s.at(sorted(know[g]), "dumpg %d" % g)
        if sim:
            # communication within each group
            s.add("space 0 1 0 3", "pr 0 all")
            for g, m in enumerate(gs):
                for c in ("part %d %d 0 0 -1 0" % (g, g), "data %d 0 int64" % g, "switch %d %d 0 0" % (g, g), "fill %d %d 1 0 0" % (g, g + 1),
                          "switch %d %d 1 1" % (g, g), "dump %d s%d 0" % (g, g)):
                    s.at(m, c)
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        n, sim = case["n"], case["sim"]
        res = eng.run(self.summary(case))
        res.require_ok()
        gs = self.groups(case)
        # structure as known from the operations: list of groups (parent, parent2) per handle; handles may be the same group
        cl = {"sim" if sim else "fake"}
        derived = set()
        deep = 0
        for p in range(n):
            lines = res.ranks[p]
            end = lines.index("ECHO END")
            objs = [{"m": gs[0], "p": None, "p2": None}]      # group objects
            h = [0]                                            # handle -> object
            world, epoch, phase = 0, 0, 0
            know = [p in x for x in self.know(case, gs)]
            it = iter([l for l in lines[:end] if l.startswith(("GROUP", "WORLD"))])

            def line(g, o, loc=True):
                o = objs[o]
                m = o["m"]
                s = "GROUP %d size %d myid %d loc %s" % (g, len(m), m.index(p) if p in m else -1, bs(m))
                q = o["p"]
                s += " parent %d" % (len(objs[q]["m"]) if q is not None else -1)
                if q is not None:
                    s += " to %s" % bs([objs[q]["m"].index(x) if x in objs[q]["m"] else -1 for x in m])
                    s += " from %s" % bs([m.index(x) if x in m else -1 for x in objs[q]["m"]])
                q = o["p2"]
                if q is not None:
                    s += " parent2 %d" % len(objs[q]["m"])
                    s += " to2 %s" % bs([objs[q]["m"].index(x) if x in objs[q]["m"] else -1 for x in m])
                    s += " from2 %s" % bs([m.index(x) if x in m else -1 for x in objs[q]["m"]])
                return s

            def expect(want, what):
                got = next(it)
                if got not in want:
                    raise Fail("process %d of %d, after %s: got %s, expected %s" % (p, n, what, got, " or ".join(want)))
                return want.index(got)

            def chkworld(what):
                m = objs[world]["m"]
                expect(["WORLD size %d myid %d epoch %d phase %d myloc %d" % (len(m), m.index(p) if p in m else -1, epoch, phase, p)], what)

            expect([line(0, 0)], "init")
            chkworld("init")
            for k, o in enumerate(case["ops"]):
                what = "%s (operation %d of %s)" % (o, k, case["ops"])
                g = len(h)
                if o[0] in ("shrink", "clone"):
                    objs.append({"m": gs[g], "p": h[o[1]], "p2": None})
                    h.append(len(objs) - 1)
                    if know[g]:
                        expect([line(g, h[g])], what)
                    if o[0] == "shrink" and len(gs[g]) < len(objs[h[o[1]]]["m"]):
                        derived.add(g)
                        deep |= o[1] in derived
                elif o[0] == "union":
                    a, b = h[o[1]], h[o[2]]
                    c = [x for x in (a, b) if objs[x]["m"] == gs[g]]
                    objs.append({"m": gs[g], "p": a, "p2": b})
                    if not c:
                        c = [len(objs) - 1]
                        cl.add("new-union")
                    h.append(c[expect([line(g, x) for x in c], what)] if know[g] else c[0])
                elif o[0] == "setworld":
                    if h[o[1]] != world:
                        epoch += 1
                        world = h[o[1]]
                        cl.add("world-change")
                elif o[0] == "resize":
                    phase = o[1]
                    expect([line(99, world)], what)
                elif o[0] == "finish":
                    objs[world]["p"] = None
                else:
                    h.append(world)
                    expect([line(g, world)], what)
                chkworld(what)
            it = iter([l for l in lines[end:] if l.startswith("GROUP")])
            for g in range(len(gs)):
                if know[g]:
                    expect([line(g, h[g])], "all of %s" % case["ops"])
            if sim:
                for g, m in enumerate(gs):
                    d = parse_dump(lines, "s%d" % g, "int64", 1)
                    if p not in m:
                        continue
                    exp = [wrap("int64", sum(val("int64", g + 1, [i], x + 1) for x in range(len(m)))) for i in range(3)]
                    if [x[3] for x in d] != [exp]:
                        raise Fail("sum within group %d of %s on process %d: %s, expected %s" % (g, case["ops"], p, d, exp))
        return {"nontrivial": len(derived) > 1 and bool(deep), "classes": sorted(cl | {o[0] for o in case["ops"]}),
                "counts": {"groups": len(gs), "ops": len(case["ops"])}}


CHECK = C18()
