"""C31: independent computations in one run do not influence each other."""
import re
from ..core import Check, Fail
from ..model import *
from .. import hist, proc
from . import c06, c23

# arguments of driver commands which are handles: S P R D G V T A (- : negative means none)
HANDLES = {"space": "S", "shrink": "GG", "pr": "P", "part": "PGSPP", "dumpp": "P", "pstore": "P.P", "type": "D", "data": "DS", "genlayout": "D",
           "fill": "D", "switch": "DP", "switchflow": "D", "dump": "D", "trans": "TSPP", "actions": "ADTVV", "exect": "DT", "execa": "A",
           "res": "VD", "resadd": "VP", "resalloc": "V", "resuse": "DV", "resunuse": "D", "afree": "A", "tfree": "T", "resfree": "V", "dfree": "D", "pfree": "P", "switchnew": "DPGP"}
MAXSUB = 5


def handle(c, k, v):
    if v < 0:
        return v
    if c == "G":
        return 10 + k if v == 0 else 20 + k
    if c == "P" and v >= 100:
        return 150 + 30 * k + v - 100
    assert v < (60 if c in "TA" else 30), (c, v)
    return (60 if c in "TA" else 30) * k + v


def transform(line, k):
    w = line.split(" ")
    h = HANDLES[w[0]]
    for i, c in enumerate(h):
        if c != "." and i + 1 < len(w):
            w[i + 1] = str(handle(c, k, int(w[i + 1])))
    if w[0] == "data" and re.match(r"t\d+$", w[3]):
        w[3] = "t%d" % handle("D", k, int(w[3][1:]))
    return " ".join(w)


class Part:
    """what one of the programs printed, with its own names"""

    def __init__(self, n):
        self.ranks = {r: [] for r in range(n)}


class C31(Check):
    id = "C31"
    rule = "at least two programs moved or reduced values between processes, at least one on a proper subgroup, and their steps were interleaved"
    quick, thorough = 9000, 80000
    technique = ("property-based testing: two to five generated programs (switches, reductions, recorded sequences, reservations, key/value changes), on generated trees of process groups "
                 "(nested, overlapping, siblings, clones) of one run, steps interleaved; each program must give what the reference model of this program alone says; simulated MPI "
                 "with seeded schedules, TCP and TCP2 with real processes; shrinking")
    assumptions = ["processes issue the steps common to several of them in the same order", "groups are derived by shrinking and cloning", "limits of the backends as in C23"]

    def generate(self, src, tier):
        be = src.weighted((10, "mpi"), (1, "tcp"), (1, "tcp2"))
        n = src.draw(2, (4 if be != "mpi" else 6 if tier == "quick" else 8))
        gs = [{"m": list(range(n))}]
        subs = []
        for k in range(src.weighted((4, 2), (3, 3), (1, 4))):
            if src.chance(10) and not any(s["kind"] == "kvs" for s in subs):
                rounds = [[[src.pick([0, r]), r, src.draw(0, 3), src.draw(1, 40)] for r in range(n) if src.chance(60)] for _ in range(src.draw(1, 3))]
                subs.append({"kind": "kvs", "g": 0, "rounds": rounds})
                continue
            # group of this program: derived from an earlier one
            p = src.draw(0, len(gs) - 1) if src.chance(50) else 0
            m = gs[p]["m"]
            w = src.weighted((1, "same"), (6 if len(m) > 1 else 0, "shrink"), (2, "clone"))
            if w == "same":
                g = p
            else:
                rm = [] if w == "clone" else src.subset(list(range(len(m))), src.pick([30, 60]), 1)
                if len(rm) == len(m):
                    rm.pop(src.draw(0, len(m) - 1))
                if w == "shrink" and len(m) - len(rm) == 1 and len(m) > 2 and src.chance(80):
                    rm = rm[:1]
                gs.append({"m": [x for i, x in enumerate(m) if i not in rm], "p": p, "rm": rm, "how": w})
                g = len(gs) - 1
            nt = len(gs[g]["m"])
            kind = src.weighted((3, "hist"), (3, "red"), (3, "rec"))
            if kind == "hist":
                c = hist.gen_hist(src, "quick", nmin=nt, nmax=nt, maxsteps=5)
            elif kind == "red":
                c = hist.gen_rhist(src, "quick", dims=1, nfix=nt, maxsteps=5)
            else:
                c = c06.CHECK.gen(src, "quick", nfix=nt)
            if kind != "rec":
                hist.add_new(src, c)
            if be == "tcp":
                for st in c23.red_steps(c):
                    st[-1] = SUM
            c.pop("head")
            subs.append({"kind": kind, "g": g, "c": c})
        order = [[src.draw(0, len(subs) - 1), src.pick([1, 1, 2, 3, 6])] for _ in range(src.draw(4, 30))]
        return {"n": n, "be": c23.gen_backend(src, n, be), "head": gen_sim_head(src) + gen_mpi_env(src) if be == "mpi" else [],
                "gs": gs, "subs": subs, "order": order}

    def sublines(self, case, k):
        """commands of program k: (ranks, command)"""
        s = case["subs"][k]
        m = case["gs"][s["g"]]["m"]
        if s["kind"] == "kvs":
            o = [(m, "kvs 0 st")]
            for rd in s["rounds"]:
                for own, r, j, ln in rd:
                    o.append(([r], "kset 0 %s %s" % ("k%d_%d" % (r, j), "%02x" % (64 + r) * ln + "00")))
                o.append((m, "ksync 0"))
                o.append((m, "ksort 0"))
                o.append((m, "kdump 0 d"))
            return o
        o = []
        for l in hist.render(dict(s["c"], head=[]), "mpi", finalize=False).split("\n"):
            if not l or l.startswith("!") or l.startswith("init "):
                continue
            r = m
            if l.startswith("@"):
                a, l = l.split(" ", 1)
                r = [m[int(x)] for x in a[1:].split(",")]
            o.append((r, transform(l, k)))
        return o

    def summary(self, case):
        be = case["be"][0]
        s = Script(case["n"], be)
        s.head = list(case["head"])
        hs = {}
        for i, g in enumerate(case["gs"]):
            hs[i] = "0" if i == 0 else str(100 + i)
            if i:
                p = case["gs"][g["p"]]["m"]
                if g["how"] == "clone":
                    s.at(p, "clone %s %s" % (hs[i], hs[g["p"]]))
                else:
                    s.at(p, "shrink %s %s %d %s" % (hs[i], hs[g["p"]], len(g["rm"]), bs(g["rm"])))
        L = [self.sublines(case, k) for k in range(len(case["subs"]))]
        pos = [0] * len(L)
        cur = [None] * case["n"]

        def emit(k):
            r, c = L[k][pos[k]]
            pos[k] += 1
            x = [i for i in r if cur[i] != k]
            if x:
                s.at(x, "echo =%d" % k)
                for i in x:
                    cur[i] = k
            if case["subs"][k]["kind"] != "kvs":
                # group of the program
                w = c.split(" ")
                for i, h in enumerate(HANDLES[w[0]]):
                    if h == "G" and w[i + 1] == str(10 + k):
                        w[i + 1] = hs[case["subs"][k]["g"]]
                c = " ".join(w)
            s.at(r, c)
        for k, cnt in case["order"]:
            for _ in range(cnt):
                if pos[k] < len(L[k]):
                    emit(k)
        for k in range(len(L)):
            while pos[k] < len(L[k]):
                emit(k)
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        be, opts = case["be"]
        n = case["n"]
        text = self.summary(case)
        res = eng.run(text, 30000) if be == "mpi" else proc.run(eng.bdir, text, n, be, opts, timeout=30)
        res.require_ok()
        if sorted(res.ranks) != list(range(n)):
            raise Fail("locations of processes are %s" % sorted(res.ranks))
        outs = [Part(len(case["gs"][s["g"]]["m"])) for s in case["subs"]]
        for r in range(n):
            k = None
            for l in res.ranks[r]:
                if l.startswith("ECHO ="):
                    k = int(l[6:])
                    continue
                if k is None:
                    continue
                m = re.match(r"PART (\d+) (.*)", l)
                if m:
                    v = int(m.group(1))
                    l = "PART %d %s" % (v - 30 * k if v < 150 else v - 150 - 30 * k + 100, m.group(2))
                outs[k].ranks[case["gs"][case["subs"][k]["g"]]["m"].index(r)].append(l)
        active, sub = 0, False
        cl = {be, "programs%d" % len(case["subs"])}
        counts = {"moved": 0, "reduced": 0}
        for k, s in enumerate(case["subs"]):
            g = case["gs"][s["g"]]
            try:
                if s["kind"] == "kvs":
                    self.check_kvs(s, n, outs[k])
                    active += 1
                    cl.add("kvs")
                    continue
                c = s["c"]
                mem = [r for r in range(c["n"]) if r not in c["rm"]]
                own = hist.check_parts(c, outs[k], mem)
                m = hist.run_model(c, outs[k], mem, own)
            except Fail as e:
                raise Fail("program %d of %d (%s on group %s of %d processes, %s): %s" % (k, len(case["subs"]), s["kind"], g["m"], n, be, e))
            if m.moved or m.reduced:
                active += 1
                sub = sub or len(mem) < n
                cl.add(s["kind"])
            counts["moved"] += m.moved
            counts["reduced"] += m.reduced
        ps = [g.get("p") for g in case["gs"][1:]]
        if len(ps) != len(set(ps)):
            cl.add("siblings")
        if any(ps):
            cl.add("nested")
        if any(g.get("how") == "clone" for g in case["gs"]):
            cl.add("clone")
        return {"nontrivial": active > 1 and sub and len(case["order"]) > 3, "classes": sorted(cl), "counts": counts}

    def check_kvs(self, s, n, out):
        st = {}
        exp = []
        for rd in s["rounds"]:
            for own, r, j, ln in rd:
                st["k%d_%d" % (r, j)] = "%02x" % (64 + r) * ln + "00"
            exp.append(sorted(st.items()))
        for r in range(n):
            got, cur = [], None
            for l in out.ranks[r]:
                if l.startswith("KVS "):
                    cur = []
                elif l.startswith("KE "):
                    w = l.split()
                    cur.append((w[1], w[3]))
                elif l.startswith("KEND"):
                    got.append(sorted(cur))
            if got != exp:
                raise Fail("process %d: key/value entries %s, expected %s" % (r, got, exp))


CHECK = C31()
