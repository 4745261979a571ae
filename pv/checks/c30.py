"""C30: program control, agents and profiling keep their state."""
import re
from ..core import Check, Fail
from ..model import *
from .. import hist, proc
from . import c06, c23

CMDS = {"setiter", "iterreset", "setphase", "getctl", "agent", "agfile", "agsimple", "agfail", "getfailed", "agstat", "unloads", "extclean", "extinit",
        "newinst", "finish", "profon", "profget", "profoff"}
CSV = re.compile(r"^(.*), (-?\d+), (-?\d+), (\d+\.\d{6}), (\d+\.\d{6}), (\d+\.\d{6})$")


def gen_uid(src):
    n = src.weighted((8, 6), (3, 20), (1, 63))
    return ("%s%d-" % (src.pick(["node", "n", "host.", "i01r"]), src.draw(0, 99)) + "u" * 63)[:src.draw(2, n)]


class C30(Check):
    id = "C30"
    rule = "control cases: values read back after being set, or failed nodes delivered; profiling cases: time was measured for switches, or a line written to the profile"
    quick, thorough = 3500, 50000
    technique = ("property-based testing, model-based: generated sequences of control, agent and profiling calls over up to three instances compared with a reference model; "
                 "generated histories of switches (simulated MPI, single, TCP2 in real processes) with profiling, checking measured times against clock readings around the steps "
                 "and the profile written against them; sanitizers; shrinking")
    assumptions = ["at most 10 agents per instance, 32 nodes per agent", "profiling of an instance enabled in one mode (with or without file)", "times use the clock of laik_wtime"]

    def generate(self, src, tier):
        return self.gen_prof(src, tier) if src.chance(40) else self.gen_ctl(src, tier)

    # ------------------------------------------------------------ control and agents
    def gen_ctl(self, src, tier):
        ops = []
        ni = src.weighted((4, 1), (3, 2), (2, 3))
        for _ in range(src.draw(2, 14 if tier == "quick" else 40)):
            k = src.weighted((4, "setiter"), (2, "iterreset"), (4, "setphase"), (7, "getctl"), (5, "agent"), (3, "agfile"), (2, "agsimple"), (2, "agfail"), (7, "getfailed"),
                             (1, "agstat"), (1, "unloads"), (1, "extclean"), (1, "extinit"), (1, "finish"), (1, "profon"), (1, "proffile"), (1, "profclose"), (2, "profget"),
                             (0 if src.chance(70) else 1, "profoff"))
            o = [k, src.draw(0, ni - 1)]
            fl = lambda: [gen_uid(src) for _ in range(src.weighted((3, 0), (4, 1), (3, 3), (1, 12), (1, 32)))]
            if k == "setiter":
                o.append(src.pick([0, 1, 2, 5, 100, -1, 2 ** 31 - 1, -2 ** 31]))
            elif k == "setphase":
                o += [src.pick([0, 1, 2, 7, -3, 2 ** 31 - 1]), src.pick(["a", "init", "solver", "x" * 90]), src.pick([0, 1, 2 ** 40])]
            elif k == "agent":
                o += [src.weighted((6, 1), (1, 0), (1, 2)), src.draw(0, 1), fl()]
            elif k == "agfile":
                o += [src.draw(0, 3), fl()]
            elif k == "agsimple":
                o += [src.draw(0, 1), src.pick([0, 1, 2, 5, 100, -1, 2 ** 31 - 1]), src.pick([0, 1, 7, 12345, -2])]
            elif k == "agfail":
                o += [src.draw(0, 29), fl()]
            elif k == "getfailed":
                o.append(src.weighted((3, 400), (2, src.draw(0, 5)), (1, src.draw(0, 40))))
            ops.append(o)
        if ni > 1 and src.chance(30):
            ops += [[src.pick(["profon", "proffile", "profclose", "profget", "profget"]), src.draw(0, ni - 1)] for _ in range(src.draw(3, 12))]
            ops += [["profget", i] for i in range(ni)]
        ops += [["getctl", i] for i in range(ni)] + [["agstat", 0], ["unloads", 0]]
        if src.chance(20):          # unit tests use few agents: many at once
            ops = [["agent", src.draw(0, ni - 1), src.weighted((6, 1), (1, 0), (1, 2)), src.draw(0, 1), [gen_uid(src)] if src.chance(60) else []] for _ in range(src.draw(1, 10))] + ops
        return {"kind": "ctl", "ops": ops}

    def run_ctl(self, case):
        """(commands, expected lines); operations outside of the domain are left out"""
        L, W = [], []
        cur = None
        I = {}
        ag = []            # all agents of the driver
        unloads = 0
        used = False
        libs = {}          # number -> [references, nodes]
        simple = {}        # number -> [references, iteration, failing iteration, task]
        prof = None
        delivered = 0
        back = 0

        def clean(i):
            nonlocal unloads
            for a in i["ctrl"] or []:
                if a[0] == "simple":
                    simple[a[1]][0] -= 1
                    if simple[a[1]][0] == 0:
                        del simple[a[1]]
                if a[0] == "lib":
                    libs[a[1]][0] -= 1
                    if libs[a[1]][0] == 0:
                        unloads += 1
                        del libs[a[1]]
            i["ctrl"] = None
        for o in case["ops"]:
            k, n, a = o[0], o[1], o[2:]
            if n not in I:
                I[n] = {"iter": 0, "ph": (0, "(null)", 0), "ctrl": None, "set": False}
            i = I[n]
            if i == "done":
                continue
            if k == "extclean" and i["ctrl"] is None or k == "extinit" and i["ctrl"] is not None or k == "getfailed" and i["ctrl"] is None:
                continue
            if k == "agent" and (len(ag) >= 30 or len(i["ctrl"] or []) >= 10) or k in ("agfile", "agsimple") and len(i["ctrl"] or []) >= 10:
                continue
            if k == "agfail" and a[0] >= len(ag):
                continue
            if cur != n:
                L.append("newinst %d" % n)
                cur = n
            if k == "setiter":
                L.append("setiter %d" % a[0])
                i["iter"], i["set"] = a[0], True
                for x in i["ctrl"] or []:
                    if x[0] == "simple":
                        simple[x[1]][1] = a[0]
                    elif x[0] == "ag" and ag[x[1]]["ty"] == 1 and ag[x[1]]["hi"]:
                        ag[x[1]]["iters"] += 1
                        ag[x[1]]["last"] = a[0]
            elif k == "iterreset":
                L.append(k)
                i["iter"] = 0
            elif k == "setphase":
                L.append("setphase %d %s %d" % tuple(a))
                i["ph"], i["set"] = tuple(a), True
            elif k == "getctl":
                L.append(k)
                W.append("CTL %d %d %s %d" % ((i["iter"],) + i["ph"]))
                back += i["set"]
            elif k == "agent":
                L.append("agent %d %d %d %s" % (a[0], a[1], len(a[2]), " ".join(a[2])))
                i["ctrl"] = (i["ctrl"] or []) + [("ag", len(ag))]
                ag.append({"ty": a[0], "hi": a[1], "fail": a[2], "iters": 0, "last": None})
            elif k == "agfile":
                L.append("agfile %%BDIR%%/agent%d.so %d %s" % (a[0], len(a[1]), " ".join(a[1])))
                i["ctrl"] = (i["ctrl"] or []) + [("lib", a[0])]
                libs.setdefault(a[0], [0, None])
                libs[a[0]][0] += 1
                libs[a[0]][1] = a[1]
                used = True
            elif k == "agsimple":
                L.append("agsimple %%BDIR%%/simple%d.so %d %d" % tuple(a))
                i["ctrl"] = (i["ctrl"] or []) + [("simple", a[0])]
                x = simple.setdefault(a[0], [0, 0, 0, 0])
                simple[a[0]] = [x[0] + 1, x[1], a[1], a[2]]
            elif k == "agfail":
                L.append("agfail %d %d %s" % (a[0], len(a[1]), " ".join(a[1])))
                ag[a[0]]["fail"] = a[1]
            elif k == "getfailed":
                L.append("getfailed %d" % a[0])
                f = []
                for x in i["ctrl"]:
                    if x[0] == "simple":
                        f += [str(simple[x[1]][3])] if simple[x[1]][1] >= simple[x[1]][2] else []
                    elif x[0] == "lib":
                        f += libs[x[1]][1]
                    elif ag[x[1]]["ty"] == 1:
                        f += ag[x[1]]["fail"]
                f = f[:a[0]]
                delivered += len(f)
                W.append(" ".join(["FAILED %d" % len(f)] + f))
            elif k == "agstat":
                L.append(k)
                W.append(("AG", [(x["ty"], x["iters"], x["last"]) for x in ag]))
            elif k == "unloads":
                L.append(k)
                W.append("UNLOADS %d" % unloads if used else "UNLOADS 0")
            elif k == "extclean":
                L.append(k)
                clean(i)
            elif k == "extinit":
                L.append(k)
                i["ctrl"] = []
            elif k == "finish":
                L.append(k)
                clean(i)
                if prof == n:
                    prof = None
                I[n] = "done"
            elif k == "profon":
                L.append(k)
                prof = n
            elif k == "profoff":
                L.append(k)
                prof = None
            elif k == "proffile":
                L.append("proffile /dev/null")
                prof = n
            elif k == "profclose":
                L.append(k)
            elif k == "profget":
                L.append(k)
                W.append(("PROF", prof == n))
        return L, W, delivered, back

    def eval_ctl(self, case, eng):
        L, W, delivered, back = self.run_ctl(case)
        s = Script(1, "fake 1")
        for l in L:
            s.add(l.replace("%BDIR%", eng.bdir))
        r = eng.run(s.text())
        r.require_ok()
        got = [l for l in r.ranks[0] if l.split()[0] in ("CTL", "FAILED", "AG", "UNLOADS", "PROF")]
        if len(got) != len(W):
            raise Fail("%d results instead of %d" % (len(got), len(W)))
        for k, (g, w) in enumerate(zip(got, W)):
            if isinstance(w, str):
                if g.rstrip() != w:
                    raise Fail("result %d: %s, expected %s" % (k, g, w))
            elif w[0] == "AG":
                x = g.split()
                if int(x[1]) != len(w[1]):
                    raise Fail("result %d: %s agents" % (k, x[1]))
                for j, (ty, it, last) in enumerate(w[1]):
                    pk, gt, its, li = (int(v) for v in x[2 + j].split(":"))
                    if its != it or last is not None and li != last or ty != 1 and (pk or gt):
                        raise Fail("result %d: agent %d of type %d: %d/%d queries, got %d iterations (last %d), expected %d (last %s)" % (k, j, ty, pk, gt, its, li, it, last))
            else:
                x = g.split()
                if float(x[1]) != 0 or float(x[2]) != 0 or int(x[4]) != w[1]:
                    raise Fail("result %d: %s, profiling should be %s" % (k, g, w[1]))
        cl = {"control"}
        for w, c in (("agent", "agents"), ("agfile", "library-agents"), ("agsimple", "simple-agents"), ("finish", "finalized"), ("extclean", "cleanup"), ("profon", "profiling-multi")):
            if any(l.split()[0] == w for l in L):
                cl.add(c)
        if any(l.startswith("newinst 1") or l.startswith("newinst 2") for l in L):
            cl.add("multi-instance")
        return {"nontrivial": bool(delivered or back), "classes": sorted(cl), "counts": {"nodes_delivered": delivered, "read_back": back}}

    # ------------------------------------------------------------ profiling
    def gen_prof(self, src, tier):
        be = src.weighted((10, "mpi"), (3, "single"), (1, "tcp2"))
        nmax = {"mpi": 5, "single": 1, "tcp2": 3}[be]
        c = hist.gen_hist(src, "quick" if be != "mpi" else tier, nmax=nmax, subgroup=be == "mpi") if src.chance(70) or be == "single" else \
            c06.CHECK.gen(src, "quick") if src.chance(60) and be == "mpi" else hist.gen_rhist(src, "quick", nmax=nmax, dims=1)
        mode = src.weighted((3, "on"), (4, "file"), (1, "badfile"), (1, "never"))
        steps = []
        started = closed = False
        user = False
        start = 0 if src.chance(70) else src.draw(0, len(c["steps"]))
        for k, st in enumerate(c["steps"] + [["raw", "echo end"]]):
            if k >= start and not started and mode != "never":
                steps.append(["raw", {"on": "profon", "file": "proffile @0", "badfile": "proffile /nonexistent/dir/file"}[mode]])
                started = True
            x = src.weighted((8, ""), (2, "user"), (1, "reset"), (2, "ctl"), (3, "write"), (3, "print"), (1, "off" if mode == "on" else ""), (1, "close"), (1, "again"))
            if x == "user" and not user:
                steps.append(["raw", "profuser 1"])
                user = True
            elif x == "user" or x == "reset" and user:
                b = src.chance(60)
                if b:
                    steps.append(["raw", "busy %d" % src.draw(20, 600)])
                steps.append(["raw", "profuser 0"])
                user = False
            elif x == "reset":
                steps.append(["raw", "profreset"])
            elif x == "ctl":
                steps.append(["raw", src.pick(["setiter %d" % src.draw(-2, 99), "setphase %d ph %d" % (src.draw(-2, 99), 0)])])
            elif x == "write":
                steps.append(["raw", "profwrite"])
            elif x == "print":
                steps.append(["raw", "profprint %s%d" % (src.pick(["x", "text", "%s%n,", "y" * 200]), k)])
            elif x == "off" and started:
                steps.append(["raw", "profoff"])
            elif x == "close" and (started or mode == "never"):
                steps.append(["raw", "profclose"])
            elif x == "again" and started and not any(s[1] == "profoff" for s in steps if s[0] == "raw"):
                steps.append(["raw", {"on": "profon", "file": "proffile @0", "badfile": "profon"}[mode]])
            steps.append(["raw", "profget"])
            steps.append(st)
            steps.append(["raw", "profget"])
        c["steps"] = steps
        c["pmode"] = mode
        c["be"] = c23.gen_backend(src, c["n"], be) if be != "single" else ["single", {}]
        return c

    def summary(self, case):
        if case.get("kind") == "ctl":
            return "\n".join(self.run_ctl(case)[0])
        return "backend %s\n%s" % (case["be"], hist.render(case, case["be"][0]))

    def eval_prof(self, case, eng):
        be, opts = case["be"]
        n = case["n"]
        text = hist.render(case, be) + "profend\n" + ("profcat 0\n" if case["pmode"] == "file" else "")
        res = eng.run(text) if be == "mpi" else proc.run(eng.bdir, text, n, be, opts, timeout=30)
        res.require_ok()
        mem = [r for r in range(n) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(case, res, mem, own)
        cl = {"prof-" + case["pmode"], be}
        measured = written = 0
        for t, r in enumerate(mem):
            lines = res.ranks[r]
            G = [l.split() for l in lines if l.startswith("PROF ")]
            E = [l.split() for l in lines if l.startswith("PROFEND ")]
            if len(E) != 1 or float(E[0][1]) or float(E[0][2]):
                raise Fail("process %d: times after finalize: %s" % (r, E))
            on = closed = started = False
            wfile = False
            want = []          # lines of profile
            it = ph = 0
            gi = 0
            gk = {}
            prev = None        # (total, backend, at) of last profget since start or reset
            busy = 0
            ustart = None
            ulo, uhi = 0.0, 0.0
            for k, st in enumerate(case["steps"]):
                if st[0] != "raw":
                    continue
                w = st[1].split()
                what = "process %d, step %d (%s)" % (r, k, st[1])
                if w[0] == "profget":
                    tot, back, at = float(G[gi][1]), float(G[gi][2]), float(G[gi][6])
                    if int(G[gi][4]) != on and started and not on and any(x[1] == "profoff" for x in case["steps"][:k] if x[0] == "raw"):
                        pass   # flag of an instance after disabling is not specified
                    elif int(G[gi][4]) != on:
                        raise Fail("%s: profiling active: %s, expected %d" % (what, G[gi][4], on))
                    gi += 1
                    if not on:
                        if tot or back:
                            raise Fail("%s: times %s %s without profiling" % (what, tot, back))
                        prev = None
                        continue
                    p = prev or (0.0, 0.0, None)
                    if back < p[1] - 1e-9 or tot < p[0] - 1e-9:
                        raise Fail("%s: times %s %s less than before: %s" % (what, tot, back, p))
                    if tot - p[0] < back - p[1] - 1e-6:
                        raise Fail("%s: backend time grew by %s, total by %s" % (what, back - p[1], tot - p[0]))
                    if p[2] is not None and tot - p[0] > at - p[2] + 2e-6:
                        raise Fail("%s: total time grew by %s within %s" % (what, tot - p[0], at - p[2]))
                    if p[2] is None and (tot or back) and k > 0 and case["steps"][k - 1][0] == "raw":
                        raise Fail("%s: times %s %s right after start" % (what, tot, back))
                    # only executions are measured
                    if prev and case["steps"][k - 1][0] in ("fill", "raw", "trans", "gone") and tot != p[0]:
                        raise Fail("%s: total time grew by %s in %s" % (what, tot - p[0], case["steps"][k - 1]))
                    if prev and case["steps"][k - 1][0] in ("sw", "swf", "ex", "exa"):
                        measured += tot > p[0]
                        gk.setdefault(case["steps"][k - 1][0], []).append(tot - p[0])
                    prev = (tot, back, at)
                elif w[0] in ("profon", "proffile"):
                    if not started:
                        started = on = True
                        wfile = w[0] == "proffile" and w[1] == "@0"
                        if wfile:
                            want += [("start",), ("app",)]
                        prev = None
                elif w[0] == "profreset":
                    if on:
                        prev = (0.0, 0.0, prev[2] if prev else None)
                        x = G[gi]
                        if float(x[1]) or float(x[2]):
                            raise Fail("%s: times %s %s after reset" % (what, x[1], x[2]))
                        ulo = uhi = 0.0
                elif w[0] == "profoff":
                    on = False
                elif w[0] == "busy":
                    busy += int(w[1]) * 1e-6
                elif w[0] == "profuser" and on:
                    if w[1] == "1":
                        ustart = (float(G[gi - 1][6]) if gi else 0.0, float(G[gi][6]))
                        busy = 0
                    elif ustart:
                        ulo, uhi = max(busy, float(G[gi - 1][6]) - ustart[1]), float(G[gi][6]) - ustart[0]
                        ustart = None
                elif w[0] == "setiter":
                    it = int(w[1])
                elif w[0] == "setphase":
                    ph = int(w[1])
                elif w[0] == "profclose":
                    if wfile:
                        want.append(("end",))
                    wfile = False
                elif w[0] == "profwrite" and on and wfile:
                    want.append(("rec", ph, it, float(G[gi][1]), float(G[gi][2]), ulo, uhi))
                    written += 1
                elif w[0] == "profprint" and on and wfile:
                    want.append(("print", w[1]))
                    written += 1
            if wfile:
                want.append(("end",))
            for k, v in gk.items():
                if k == "sw" and len(v) >= 3 and max(v) <= 0:
                    raise Fail("process %d: total time did not grow in %d steps '%s'" % (r, len(v), k))
            if case["pmode"] != "file":
                continue
            got = [l[7:] for l in lines if l.startswith("PCAT 0 ")]
            if not got or got[0] != "begin":
                raise Fail("process %d: no profile" % r)
            got = got[1:]
            if len(got) != len(want):
                raise Fail("process %d: %d lines in profile, expected %d: %s, expected %s" % (r, len(got), len(want), got, want))
            for k, (g, w) in enumerate(zip(got, want)):
                ok = True
                if w[0] in ("start", "end"):
                    ok = re.match(r"^======MEASUREMENT %s AT: \d+======$" % w[0].upper(), g)
                elif w[0] == "app":
                    ok = re.match(r"^======Application \S+======$", g)
                elif w[0] == "print":
                    ok = g == w[1]
                else:
                    x = CSV.match(g)
                    ok = x and (int(x.group(2)), int(x.group(3))) == w[1:3] and abs(float(x.group(4)) - w[3]) < 1.1e-6 and abs(float(x.group(5)) - w[4]) < 1.1e-6 and \
                        w[5] - 3e-6 <= float(x.group(6)) <= w[6] + 3e-6
                if not ok:
                    raise Fail("process %d: line %d of profile is %r, expected %s" % (r, k, g, w))
        if measured:
            cl.add("measured")
        if written:
            cl.add("written")
        for st in case["steps"]:
            if st[0] == "raw" and st[1].split()[0] in ("profreset", "profoff", "profclose", "profuser"):
                cl.add(st[1].split()[0])
        return {"nontrivial": bool(measured or written), "classes": sorted(cl), "counts": {"measured_steps": measured, "profile_lines": written}}

    def evaluate(self, case, eng):
        if case.get("kind") == "ctl":
            return self.eval_ctl(case, eng)
        return self.eval_prof(case, eng)


CHECK = C30()
