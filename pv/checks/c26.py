"""C26: statistics of containers equal the real communication and the local copies and initializations."""
from ..core import Check, Fail
from ..model import *
from .. import hist, proc
from . import c06, c23
from .c07 import addr_block

SIZES = {"char": 1, "uchar": 1, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8, "float": 4, "double": 8}
EXEC = ("sw", "swf", "ex", "exa")


def stats(lines):
    """{("STAT"|"SIM", label): {counter: value}}"""
    out = {}
    for l in lines:
        if l.startswith("STAT ") or l.startswith("SIM "):
            w = l.split()
            out[w[0], w[1]] = {k: int(v) for k, v in (x.split("=") for x in w[2:])}
    return out


def delta(a, b):
    return {k: b[k] - a[k] for k in a if k != "hash"}


def pretty(v):
    for lim, c in ((1e9, "G"), (1e6, "M"), (1e3, "K")):
        if v > lim:
            return "%.1f %s" % (v / lim, c)
    return "%.0f " % v


def report(s):
    """words of the report about statistics s"""
    o = "%d switches (%d without actions, %d transitions) " % (s["switches"], s["noact"], s["trans"])
    if s["switches"] == s["noact"]:
        return o.split()
    if s["malloc"]:
        o += "data alloc: %dx, %sB (max %sB), free: %dx, %sB, init %sB, copy %sB " % (
            s["malloc"], pretty(s["mallocB"]), pretty(s["maxB"]), s["free"], pretty(s["freedB"]), pretty(s["initB"]), pretty(s["copyB"]))
    first = True
    for d, n in (("sent", "send"), ("recv", "recv")):
        c = s[n] + s["a" + n]
        if c:
            o += "%s%s: %dx%s, %sElems = %sB (avg %sB/msg) " % ("msg " if first else "", d, c, " (%d async)" % s["a" + n] if s["a" + n] else "",
                                                             pretty(s["e" + n]), pretty(s["b" + n]), pretty(s["b" + n] // c))
            first = False
    if s["red"]:
        o += "%sreduce: %dx, %sElems = %sB (avg %sB/red) " % ("msg " if first else "", s["red"], pretty(s["ered"]), pretty(s["bred"]), pretty(s["bred"] // s["red"]))
    if s["initops"] or s["redops"]:
        o += "ops init: %s, reduce: %s, buf copy: %sB " % (pretty(s["initops"]), pretty(s["redops"]), pretty(s["bufcopy"]))
    return o.split()


def check_report(case, res, S):
    """the statistics reported by laik_finalize are the ones of the containers and their sum"""
    t = case["report"]
    nd = len(case["datas"])
    fin = [S["STAT", "fin.%d" % x] for x in range(nd)]
    text = " ".join(l.split(" | ", 1)[1] for l in res.stderr.split("\n") if " | " in l and l.startswith(("== ", ".. "))).split()
    want = "switch statistics (this task):".split()
    for x in range(nd):
        want += ["data", "'data-%d':" % x] + report(fin[x])
    if nd > 1:
        want += ["summary:"] + report({k: sum(f[k] for f in fin) for k in fin[0]})
    if text != want:
        raise Fail("process %d reports '%s', expected '%s'" % (t, " ".join(text), " ".join(want)))


def idxs(own):
    return [i for (_, _, b) in own for i in box_idx(b)]


class C26(Check):
    id = "C26"
    rule = "at least one execution of a switch or recorded sequence sent or reduced elements"
    quick, thorough = 3000, 40000
    nso = 14
    technique = ("property-based testing: generated histories of switches, reductions and (repeated) recorded sequences; growth of the container statistics with each step compared with "
                 "the intercepted MPI calls (simulated MPI), with the element transfers required by a reference model (also TCP2 and TCP in real processes), and with addresses of elements "
                 "before and after the step; shrinking")
    assumptions = ["statistics are compared between complete steps", "element transfers are predicted for switches keeping values without reduction"]

    def generate(self, src, tier):
        be = src.weighted((12, "mpi"), (2, "tcp2"), (1, "tcp"))
        t = tier if be == "mpi" else "quick"
        nmax = (5 if tier == "quick" else 8) if be == "mpi" else 4
        kind = src.weighted((4, "hist"), (4, "red"), (3, "rec"), (1 if be == "mpi" else 0, "res"))
        if kind == "hist":
            ut = {"types": ["t:%d" % src.pick([1, 3, 12, 24, 100])]} if be == "tcp2" and src.chance(30) else {}
            c = hist.gen_hist(src, t, nmax=nmax, **ut)
        elif kind == "red":
            c = hist.gen_rhist(src, t, nmax=nmax, dims=1, wide=5)
        else:
            c = c06.CHECK.gen(src, "quick")
        if be == "tcp":
            for st in c23.red_steps(c):
                st[-1] = SUM
            for d in c["datas"]:
                d["ty"] = d["ty"] if d["ty"] in SIZES else "int32"
        c["be"] = c23.gen_backend(src, c["n"], be)
        if be == "mpi" and len(c["datas"]) < 6:
            c["report"] = src.draw(0, c["n"] - len(c["rm"]) - 1)
        return c

    def aug(self, case):
        """case with statistics requested around each executed step"""
        out = []
        m = range(len(case["datas"]))
        mpi = case["be"][0] == "mpi"
        started = set()
        for k, st in enumerate(case["steps"]):
            ex = st[0] in EXEC
            d = st[1] if ex else 0
            am = case["datas"][d]["am"]
            if ex:
                out += [["raw", "dstat %d b%d.%d" % (x, k, x)] for x in m]
                if d in started:
                    out.append(["raw", "addrs %d b%d %d" % (d, k, am)])
                if mpi:
                    out.append(["raw", "simstat b%d" % k])
            out.append(st)
            if ex:
                if mpi:
                    out.append(["raw", "simstat a%d" % k])
                out += [["raw", "dstat %d a%d.%d" % (x, k, x)] for x in m]
                out.append(["raw", "addrs %d a%d %d" % (d, k, am)])
                started.add(d)
            if st[0] == "gone":
                started.discard(st[1])
        if "report" in case:
            mem = [r for r in range(case["n"]) if r not in case["rm"]]
            out += [["raw", "dstat %d fin.%d" % (x, x)] for x in m]
            out.append(["raw", "loglevel 2", [mem[case["report"]]]])
        return dict(case, steps=out)

    def summary(self, case):
        return "backend %s\n%s" % (case["be"], hist.render(self.aug(case), case["be"][0]))

    def evaluate(self, case, eng):
        a = self.aug(case)
        be, opts = case["be"]
        text = hist.render(a, be)
        n = case["n"]
        res = eng.run(text) if be == "mpi" else proc.run(eng.bdir, text, n, be, opts, timeout=30)
        res.require_ok()
        mem = [r for r in range(n) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(a, res, mem, own)
        S = [stats(res.ranks[r]) for r in mem]
        if "report" in case:
            check_report(case, res, S[case["report"]])
        first = next((k for k, st in enumerate(case["steps"]) if st[0] in EXEC), None)
        if first is not None:
            for t, s in enumerate(S):
                for x in range(len(case["datas"])):
                    # only memory allocated for reservations
                    if any(v for q, v in s["STAT", "b%d.%d" % (first, x)].items() if q not in ("malloc", "mallocB", "curB", "maxB")):
                        raise Fail("process %d: statistics of new container %d are %s" % (t, x, s["STAT", "b%d.%d" % (first, x)]))
        cur = {}
        cl = {be, "dims%d" % case["dims"]}
        traffic = repeated = 0
        execs = {}
        for k, st in enumerate(case["steps"]):
            if st[0] == "gone":
                cur.pop(st[1], None)
            if st[0] not in EXEC:
                continue
            d = st[1]
            if st[0] == "sw":
                fr, to, flow, op = cur.get(d), st[2], st[3], st[4]
            elif st[0] == "swf":
                fr, to, flow, op = cur.get(d), cur.get(d), st[2], st[3]
            else:
                fr, to, flow, op = st[3:7]
            cur[d] = to
            es = SIZES.get(case["datas"][d]["ty"])
            if es is None:
                es = int(case["datas"][d]["ty"][2:])
            D = []
            for t, s in enumerate(S):
                what = "step %d %s, process %d" % (k, st, t)
                for x in range(len(case["datas"])):
                    if x != d and s["STAT", "b%d.%d" % (k, x)] != s["STAT", "a%d.%d" % (k, x)]:
                        raise Fail("%s: statistics of container %d changed: %s" % (what, x, delta(s["STAT", "b%d.%d" % (k, x)], s["STAT", "a%d.%d" % (k, x)])))
                y = delta(s["STAT", "b%d.%d" % (k, d)], s["STAT", "a%d.%d" % (k, d)])
                D.append(y)
                for e, b in (("esend", "bsend"), ("erecv", "brecv"), ("ered", "bred")):
                    if y[b] != y[e] * es:
                        raise Fail("%s: %s=%d %s=%d with element size %d" % (what, e, y[e], b, y[b], es))
                if y["switches"] != 1 or y["trans"] not in (0, 1) or y["noact"] not in (0, 1):
                    raise Fail("%s: switches %d, transitions %d, without actions %d" % (what, y["switches"], y["trans"], y["noact"]))
                if y["noact"] and (y["copyB"] or y["initB"] or y["send"] or y["recv"] or y["asend"] or y["arecv"] or y["red"]):
                    raise Fail("%s: switch without actions, but %s" % (what, y))
                if be == "mpi":
                    z = delta(s["SIM", "b%d" % k], s["SIM", "a%d" % k])
                    want = {"send": z["sends"], "recv": z["recvs"], "asend": z["isends"], "arecv": z["irecvs"], "red": z["reduces"]}
                    want.update((q, z[q]) for q in ("esend", "erecv", "ered", "bsend", "brecv", "bred"))
                    got = {q: y[q] for q in want}
                    if want != got:
                        raise Fail("%s: statistics %s, real communication %s" % (what, got, want))
                    if y["asend"]:
                        cl.add("async")
                    if y["send"]:
                        cl.add("sync")
                if y["red"]:
                    cl.add("collective")
                if y["redops"]:
                    cl.add("manual-reduce")
                traffic += y["esend"] + y["ered"]
            # every message is sent and received
            what = "step %d %s" % (k, st)
            for x, y in (("esend", "erecv"), ("bsend", "brecv")):
                if sum(z[x] for z in D) != sum(z[y] for z in D):
                    raise Fail("%s: %s %s, %s %s" % (what, x, [z[x] for z in D], y, [z[y] for z in D]))
            if sum(z["send"] + z["asend"] for z in D) != sum(z["recv"] + z["arecv"] for z in D):
                raise Fail("%s: messages sent %s, received %s" % (what, [z["send"] + z["asend"] for z in D], [z["recv"] + z["arecv"] for z in D]))
            if st[0] == "exa":
                # repeated execution of the same sequence
                x = [{q: z[q] for q in z if q in ("send", "recv", "asend", "arecv", "red", "esend", "erecv", "ered", "initops", "redops", "trans", "initB", "noact")} for z in D]
                key = (d, st[2])
                if key in execs:
                    repeated += 1
                    if x != execs[key]:
                        raise Fail("%s: repeated execution is counted as %s, earlier as %s" % (what, x, execs[key]))
                execs[key] = x
            if fr is None or to is None:
                continue
            F = [idxs(own[fr][t]) for t in range(len(mem))]
            T = [idxs(own[to][t]) for t in range(len(mem))]
            if flow != PRESERVE:
                for t, y in enumerate(D):
                    if any(y[q] for q in ("send", "recv", "asend", "arecv", "red", "esend", "erecv", "ered", "copyB")):
                        raise Fail("%s, process %d: communication without need: %s" % (what, t, y))
                    if case["dims"] == 1 and y["initB"] != (len(T[t]) * es if flow == INIT else 0):
                        raise Fail("%s, process %d: %d bytes initialized, own %d elements of %d bytes" % (what, t, y["initB"], len(T[t]), es))
                if flow == INIT:
                    cl.add("init")
                continue
            if op != RO_NONE and not case.get("filt") and not any(z["red"] for z in D) and not any(len(set(x)) != len(x) for x in F + T):
                # values of all inputs have to be combined, at most by each process wanting the result
                cnt, lo, hi = {}, 0, 0
                for x in F:
                    for i in x:
                        cnt[i] = cnt.get(i, 0) + 1
                out = {}
                for x in T:
                    for i in x:
                        out[i] = out.get(i, 0) + 1
                for i, o in out.items():
                    lo += max(0, cnt.get(i, 0) - 1)
                    hi += cnt.get(i, 0) * o
                if not lo <= sum(z["redops"] for z in D) <= hi:
                    raise Fail("%s: elements combined per process %s, at least %d and at most %d values have to be" % (what, [z["redops"] for z in D], lo, hi))
            if op != RO_NONE or case.get("filt"):
                continue
            dup = any(len(set(x)) != len(x) for x in F + T)      # ranges of a process may overlap
            F = [set(x) for x in F]
            cnt = {}
            for s in F:
                for i in s:
                    cnt[i] = cnt.get(i, 0) + 1
            send = [0] * len(mem)
            simple = True
            for t, y in enumerate(D):
                need = [i for i in T[t] if i not in F[t] and i in cnt]
                if any(cnt[i] > 1 for i in need):
                    simple = False
                if y["erecv"] != len(need):
                    raise Fail("%s, process %d: %d elements received, needed %d" % (what, t, y["erecv"], len(need)))
                for u in range(len(mem)):
                    send[u] += sum(1 for i in need if i in F[u])
                if y["initB"]:
                    raise Fail("%s, process %d: %d bytes initialized" % (what, t, y["initB"]))
                if dup:
                    continue
                # local copies
                try:
                    b = {i[1]: i[2:] for i in addr_block(res.ranks[mem[t]], "b%d" % k)}
                    e = {i[1]: i[2:] for i in addr_block(res.ranks[mem[t]], "a%d" % k)}
                except Fail:
                    continue
                cp = sum(1 for i in e if i in b and b[i] != e[i])
                if y["copyB"] != cp * es:
                    raise Fail("%s, process %d: %d bytes copied, %d elements changed the address" % (what, t, y["copyB"], cp))
                if cp:
                    cl.add("copied")
                cl.add("predicted")
            if simple and send != [y["esend"] for y in D]:
                raise Fail("%s: elements sent %s, needed %s" % (what, [y["esend"] for y in D], send))
        if repeated:
            cl.add("repeated")
        return {"nontrivial": traffic > 0, "classes": sorted(cl), "counts": {"elements": traffic, "steps": sum(st[0] in EXEC for st in case["steps"])}}


CHECK = C26()
