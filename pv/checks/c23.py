"""C23: a program gives the same result with every communication backend."""
import copy
from ..core import Check, Discard, Fail, Result, Src
from ..model import *
from .. import big, hist, proc
from . import c01, c06, c20


class KvsText(c20.C20):
    text = True

    def execute(self, case, eng):
        return eng(self.summary(case))


KVT = KvsText()

TCPOPTS = [("backend_async_send", "%s", ["true", "false"]), ("backend_native_reduce", "%s", ["true", "false"]),
           ("backend_peer_reduce", "%s", ["true", "false"]), ("client_threads", "%d", [1, 2, 4]), ("server_threads", "%d", [1, 2, 4]),
           ("client_connections", "%d", [1, 2, 8]), ("server_connections", "%d", [1, 2, 8]), ("inbox_size", "%d", [1, 1000, 1 << 20]),
           ("outbox_size", "%d", [1, 2, 100]), ("minimpi_async_split", "%s", ["true", "false"])]


def gen_backend(src, n, be):
    if be == "tcp2":
        # transport is the choice of each receiver
        return ["tcp2", {"bin": src.weighted((3, 1), (3, 0), (3, [0, 1]), (1, [1, 0, 0]))}]
    if be == "tcp":
        g = [(k, f % src.pick(v)) for k, f, v in TCPOPTS if src.chance(25)] if src.chance(60) else []
        return ["tcp", {"unix": src.draw(0, 1), "general": g}]
    return [be, {}]


def red_steps(case):
    for st in case["steps"]:
        if st[0] in ("sw", "swf", "ex", "exa", "trans") and st[-2] != NONE and st[-1] != RO_NONE:
            yield st


class C23(Check):
    id = "C23"
    rule = "at least two backends executed the program with at least two processes, and data or key/value entries were moved between processes or reduced"
    quick, thorough = 1500, 20000
    nso = 14
    technique = ("property-based testing, differential over backends: generated programs (switch histories, reductions, recorded sequences with reservations, key/value stores, "
                 "locations, groups) run with simulated MPI, TCP2 (binary/text), TCP (sockets, options) and the single backend in real processes; each compared with the reference "
                 "model and all with each other; shrinking")
    assumptions = ["TCP backend: only sum reductions, and reductions in 1D (its MPI layer implements no more)", "key/value entries are text (TCP2 protocol)",
                   "2D/3D reductions (from all processes to all or one) and user-defined element types (up to 2000 bytes) only with TCP2", "loopback network"]

    def generate(self, src, tier):
        kind = src.weighted((5, "c01"), (5, "red"), (4, "c06"), (3, "kvs"), (2, "red23"), (2, "loc"), (1, "big"), (2, "user"), (2, "ured"))
        nmax = 4 if tier == "quick" else 6
        if kind == "c01":
            c = hist.gen_hist(src, "quick", nmax=nmax)
        elif kind == "user":
            c = hist.gen_hist(src, "quick", nmax=3, types=["t:%d" % src.pick([1, 3, 12, 24, 25, 26, 32, 100, 500, 2000])])
        elif kind == "ured":
            c = hist.gen_rhist(src, "quick", nmax=nmax, dims=1, types=["t:%d" % src.pick([1, 3, 12, 24, 25, 26, 32, 100, 500]) for _ in range(2)])
        elif kind == "big":
            c = hist.gen_hist(src, "quick", nmax=3, dims=1, sizes={1: 30000}, ndata=1, maxsteps=3)
        elif kind == "red":
            c = hist.gen_rhist(src, "quick", nmax=nmax, dims=1, wide=5)
        elif kind == "red23":
            c = hist.gen_rhist(src, "quick", nmax=nmax, dims=src.draw(2, 3), init_pct=0, flowsw=0)
            nt = c["n"] - len(c["rm"])
            cur = {}
            for st in c["steps"]:
                if st[0] == "sw":
                    f, t = (c["parts"][cur[st[1]]] if st[1] in cur else None), c["parts"][st[2]]
                    if st[3] == PRESERVE and nt > 1 and not (f["k"] == "all" and t.get("full")):
                        st[4] = RO_NONE
                    cur[st[1]] = st[2]
        elif kind == "c06":
            c = c06.CHECK.gen(src, "quick")
        elif kind == "kvs":
            c = KVT.generate(src, "quick")
        else:
            n = src.draw(1, 5)
            rm = src.subset(list(range(n)), 40)[:n - 1]
            c = {"n": n, "rm": rm, "again": src.draw(0, 2)}
        if kind in ("c01", "user", "red", "ured"):
            hist.add_new(src, c)
        bs = ["mpi", "tcp2", "tcp"]
        if kind in ("red23", "user", "ured"):
            bs = ["tcp2"]
        w = [src.pick(bs)]
        for b in bs:
            if b not in w and src.chance(65):
                w.append(b)
        if len(w) < 2:
            w.append("tcp2")
        if c["n"] == 1 and kind != "red23":
            w.append("single")
        c["kind"] = kind
        c["be"] = [gen_backend(src, c["n"], b) for b in w]
        if any(b == "tcp" for b, _ in c["be"]) and kind in ("red", "c06"):
            if src.chance(50):
                # only sum reductions
                for st in red_steps(c):
                    st[-1] = SUM
            if any(st[-1] != SUM for st in red_steps(c)):
                c["be"] = [x for x in c["be"] if x[0] != "tcp"]
                if len(c["be"]) < 2:
                    c["be"].append(gen_backend(src, c["n"], "tcp2"))
        return c

    def fixed_cases(self, tier):
        out = []
        for i in range(12 if tier == "quick" else 60):
            src = Src(seed=i)
            be = ["tcp", "tcp2"][i % 2]
            c = big.gen(src, be)
            c["be"] = [gen_backend(src, c["n"], be)]
            if be == "tcp2" and src.chance(90):
                c["be"][0][1]["bin"] = 1    # text is slow
            out.append(c)
        return out

    def text(self, case, be):
        if case.get("big"):
            return big.text(case, be)
        if case["kind"] == "kvs":
            KVT.backend = be
            return KVT.summary(dict(case, head=case["head"] if be == "mpi" else []))
        if case["kind"] == "loc":
            s = Script(case["n"], be)
            s.add("world 0")
            s.add("dumpg 0")
            mem = [r for r in range(case["n"]) if r not in case["rm"]]
            s.add("syncloc")
            s.add("dumploc 0")
            if case["rm"]:
                s.add("shrink 1 0 %d %s" % (len(case["rm"]), bs(case["rm"])))
                s.add("dumpg 0")
                s.at(mem, "dumpg 1")
            for _ in range(case["again"]):
                s.add("syncloc")
                s.add("dumploc 0")
            s.add("finalize")
            return s.text()
        return hist.render(case, be)

    def summary(self, case):
        return "backends %s\n%s" % (case["be"], self.text(case, case["be"][0][0]))

    def evaluate(self, case, eng):
        n = case["n"]
        if case.get("big"):
            be, opts = case["be"][0]
            return big.evaluate(case, proc.run(eng.bdir, big.text(case, be), n, be, opts, timeout=90))
        out = []
        cl = {"kind-" + case["kind"]}
        nt = False
        for be, opts in case["be"]:
            what = "backend %s %s" % (be, opts)

            def run(text):
                if be == "mpi":
                    return eng.run(text, 30000)
                return proc.run(eng.bdir, text, n, be, opts, timeout=30)
            try:
                if case["kind"] == "kvs":
                    KVT.backend = be
                    d = KVT.evaluate(dict(case, head=case["head"] if be == "mpi" else []), run)
                    nt = nt or d["nontrivial"]
                    out.append(None)
                else:
                    res = run(self.text(case, be))
                    res.require_ok()
                    if sorted(res.ranks) != list(range(n)):
                        raise Fail("locations of processes are %s" % sorted(res.ranks))
                    if case["kind"] == "loc":
                        out.append(self.check_loc(case, res))
                        nt = n > 1
                    else:
                        mem = [r for r in range(n) if r not in case["rm"]]
                        own = hist.check_parts(case, res, mem)
                        m = hist.run_model(case, res, mem, own)
                        nt = nt or m.moved > 0 or m.reduced > 0
                        cl.update(c for c in hist.classes(case, own, m) if c in ("moved", "reduced", "subgroup", "dims1", "dims2", "dims3"))
                        out.append(own)
            except Fail as e:
                raise Fail("%s: %s" % (what, e))
            if out[-1] != out[0]:
                raise Fail("partitionings or groups with %s and %s differ: %s / %s" % (what, case["be"][0], out[-1], out[0]))
            cl.add(be + ("-mixed" if isinstance(opts.get("bin"), list) else "-bin" if opts.get("bin") else "-text" if be == "tcp2" else "-unix" if opts.get("unix") else "-inet" if be == "tcp" else ""))
            cl.update("opt-" + k for k, _ in opts.get("general", []))
        return {"nontrivial": nt and n > 1 and len(case["be"]) > 1, "classes": sorted(cl), "counts": {"runs": len(case["be"])}}

    def check_loc(self, case, res):
        """locations are the same everywhere and own one is right; groups as requested"""
        n = case["n"]
        first = None
        G = []
        for r in range(n):
            L = [l.split(" : ", 1) for l in res.ranks[r] if l.startswith("LOC ")]
            if len(L) != 1 + case["again"]:
                raise Fail("process %d: %s" % (r, res.ranks[r]))
            for my, all in L:
                a = all.split()
                if len(a) != n or a[r] != my.split()[2]:
                    raise Fail("process %d: own location %s, all %s" % (r, my, a))
                if len(set(a)) != n:
                    raise Fail("process %d: locations not different: %s" % (r, a))
                if first is None:
                    first = a
                elif a != first:
                    raise Fail("locations differ: %s on process %d, %s on process 0" % (a, r, first))
            G.append([l for l in res.ranks[r] if not l.startswith("LOC")])
        return G


CHECK = C23()
