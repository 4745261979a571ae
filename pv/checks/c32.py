"""C32: repeating the same work needs no more memory."""
from ..core import Check, Fail
from ..model import *
from .. import hist, proc
from . import c06, c23

ROUNDS = 9
FREE = {"data": "dfree", "part": "pfree", "switchnew": "pfree", "trans": "tfree", "actions": "afree", "res": "resfree"}
CREATE = {"data": "D", "part": "P", "switchnew": "P", "trans": "T", "actions": "A", "res": "V"}
FREES = {"dfree": "D", "pfree": "P", "tfree": "T", "afree": "A", "resfree": "V"}
ONCE = ("init", "passes", "world", "space", "shrink", "pr", "type")


class C32(Check):
    id = "C32"
    rule = "at least two processes, and each round switches a container, executes a recorded transition or sequence, or changes a store"
    quick, thorough = 3000, 40000
    nso = 8
    technique = ("property-based testing: generated programs (switches, reductions, recorded sequences, reservations, key/value changes) repeated several times in one run, creating and releasing "
                 "their objects in each round or keeping them; invariant over the history: memory held by LAIK (its allocations are intercepted) at the end of a round does not grow "
                 "from round to round; shrinking")
    assumptions = ["groups, spaces, stores and partitioners are created once (they are never released by the library)",
                   "memory which grows at least three times and never shrinks after the first two rounds is accumulated; buffers kept for later use are not"]
    level_note = "Generated-input search; sequences of 9 rounds."

    def generate(self, src, tier):
        kind = src.weighted((4, "hist"), (3, "red"), (4, "rec"), (2, "kvs"))
        keep = src.chance(40)
        be = src.weighted((24, "mpi"), (1, "tcp2"), (1, "single"))
        n = src.draw(1, 5) if be == "mpi" else 1 if be == "single" else src.draw(1, 3)
        if kind == "kvs":
            c = {"n": n, "head": gen_sim_head(src) + gen_mpi_env(src), "rounds": [
                [[r, src.weighted((5, "set"), (2, "rm")), src.draw(0, 4), src.draw(1, 40)] for r in range(n) for _ in range(src.draw(0, 3))]
                for _ in range(src.draw(1, 4))], "sort": src.draw(0, 1)}
        elif kind == "hist":
            c = hist.gen_hist(src, "quick", nmin=n, nmax=n, maxsteps=5)
        elif kind == "red":
            c = hist.gen_rhist(src, "quick", dims=1, nfix=n, maxsteps=5)
        else:
            c = c06.CHECK.gen(src, "quick", nfix=n)
        if kind in ("hist", "red") and not keep:
            hist.add_new(src, c)
        if be == "mpi" and kind != "kvs":
            hist.gen_passes(src, c, 10)
        if be != "mpi":
            c["head"] = []
        return {"kind": kind, "keep": keep, "c": c, "n": n, "leave": src.draw(0, 1), "be": c23.gen_backend(src, n, be)}

    def kvs(self, case):
        c = case["c"]
        s = Script(c["n"], case["be"][0])
        s.head = list(c["head"])
        s.add("kvs 0 store")
        for k in range(ROUNDS):
            for rd in c["rounds"]:
                done = set()
                for r, w, j, ln in rd:
                    if (r, j) in done:
                        continue
                    done.add((r, j))
                    if w == "set":
                        s.at([r], "kset 0 k%d_%d %s" % (r, j, "%02x" % (65 + r) * ln + "00"))
                    else:
                        s.at([r], "kremove 0 k%d_%d" % (r, j))
                s.add("ksync 0")
                if c["sort"]:
                    s.add("ksort 0")
            s.add("heap %d" % k)
        s.add("finalize")
        return s.text()

    def summary(self, case):
        if case["kind"] == "kvs":
            return self.kvs(case)
        t = hist.render(case["c"], case["be"][0], finalize=False).split("\n")
        head = [l for l in t if l.startswith("!")]
        body = [l for l in t if l and not l.startswith("!")]
        once = [l for l in body if (l.split(" ", 2)[1] if l[0] == "@" else l.split(" ")[0]) in ONCE]
        body = [l for l in body if l not in once]
        live, used = {}, set()
        rm = case["c"].get("rm", [])
        mem = "@" + ",".join(str(r) for r in range(case["n"]) if r not in rm)
        first = []          # only in first round if objects are kept
        rest = []
        for l in body:
            at, x = l.split(" ", 1) if l[0] == "@" else ("", l)
            w = x.split(" ")
            if w[0] in CREATE:
                h = int(w[2] if w[0] == "switchnew" else w[1])
                # (partitioning only at processes of the group)
                live[CREATE[w[0]], h] = mem if w[0] == "switchnew" else at
            if w[0] in FREES:
                live.pop((FREES[w[0]], int(w[1])), None)
            if w[0] == "resuse":
                used.add(int(w[1]))
            if w[0] not in FREES:
                first.append(l)
                if w[0] not in ("data", "part", "trans", "actions", "res", "resadd", "resalloc", "genlayout", "alloctrack"):
                    rest.append(l)

        def at(a, x):
            return (a + " " if a else "") + x
        end = []
        for (k, h), a in live.items():
            if k == "D":
                if case["leave"] or case["keep"] or h in used:
                    end.append(at(a, "switch %d -1 0 0" % h))
                if h in used:
                    end.append(at(a, "resunuse %d" % h))
        free = []
        for k, f in (("A", "afree"), ("T", "tfree"), ("V", "resfree"), ("D", "dfree"), ("P", "pfree")):
            free += [at(a, "%s %d" % (f, h)) for (q, h), a in live.items() if q == k]
        o = head + once
        for k in range(ROUNDS):
            if case["keep"]:
                o += (rest if k else first) + end
            else:
                o += body + end + free
            o.append("heap %d" % k)
        o.append("finalize")
        return "\n".join(o) + "\n"

    def evaluate(self, case, eng):
        be, opts = case["be"][:2]
        if be == "mpi":
            res = eng.run(self.summary(case))
        else:
            res = proc.run(eng.bdir, self.summary(case), case["n"], be, opts)
        res.require_ok()
        cl = {case["kind"], be, "kept" if case["keep"] else "released"}
        work = False
        for r in range(case["n"]):
            h = [tuple(map(int, l.split()[2:4])) for l in res.ranks[r] if l.startswith("HEAP ")]
            if len(h) != ROUNDS:
                raise Fail("process %d: %d of %d rounds" % (r, len(h), ROUNDS))
            for x, what in ((0, "blocks"), (1, "bytes")):
                l = [y[x] for y in h]
                up = sum(b > a for a, b in zip(l[1:], l[2:]))
                if up >= 3 and not any(b < a for a, b in zip(l[1:], l[2:])):
                    raise Fail("process %d: %s of memory in use grow: %s" % (r, what, l))
                if up:
                    cl.add("grown-%d" % min(up, 3))
        if case["kind"] == "kvs":
            work = case["n"] > 1 and any(case["c"]["rounds"])
        else:
            work = case["n"] > 1 and any(st[0] in ("sw", "ex", "exa", "swf") for st in case["c"]["steps"])
        return {"nontrivial": work, "classes": sorted(cl)}


CHECK = C32()
