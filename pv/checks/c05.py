from ..core import Check, Fail
from ..model import *
from .. import hist
from .c06 import CHECK as C06


def sched(src):
    """schedules: mostly the unfavourable ones"""
    return ["!seed %d" % src.draw(1, 1000000), "!eager %d" % src.weighted((5, 0), (1, 1), (1, 2)),
            "!lazy %d" % src.weighted((3, 100), (1, 50), (1, 0)), "!yield %d" % src.pick([20, 0, 60])]


class C05(Check):
    id = "C05"
    rule = "messages were sent or reductions called by MPI, under a schedule with synchronous sends"
    quick, thorough = 3000, 30000
    nso = 14
    technique = ("property-based testing: generated histories of direct and recorded switches run under several generated schedules of a simulated MPI "
                 "(synchronous/buffered sends, lazy progress) that detects deadlock, leftover messages, mismatching calls and buffers touched "
                 "while in use; shrinking")
    assumptions = ["histories as in C01, C02, C06", "a send may complete only when received (eager 0) or be buffered; non-blocking operations may progress only in wait",
                   "results of all schedules of a history are compared with the reference model"]

    def generate(self, src, tier):
        w = src.weighted((3, 0), (3, 1), (3, 2))
        if w == 0:
            c = hist.gen_hist(src, tier, nmin=2, nmax=7 if tier == "quick" else 8, maxsteps=5)
        elif w == 1:
            c = hist.gen_rhist(src, tier, nmax=7, dims=1, wide=8)
        else:
            c = C06.gen(src, tier, wide=6)
        hist.gen_passes(src, c, 15)
        if w < 2:
            hist.add_new(src, c)
        env = [h for h in c["head"] if h.startswith("!env")]
        c["heads"] = [sched(src) + env for _ in range(2)]
        # other backend options must be fine with the same plan, too
        c["heads"].append(sched(src) + gen_mpi_env(src))
        return c

    def evaluate(self, case, eng):
        mem = [r for r in range(case["n"]) if r not in case["rm"]]
        msgs = 0
        cl = []
        for h in case["heads"]:
            case["head"] = h
            txt = hist.render(case, finalize=False)
            s = txt + "simstat end\nfinalize\n"
            res = eng.run(s)
            res.require_ok("schedule %s" % " ".join(h))
            own = hist.check_parts(case, res, mem)
            m = hist.run_model(case, res, mem, own)
            n = 0
            for r in range(case["n"]):
                l = res.tagged(r, "SIM")
                if not l:
                    raise Fail("rank %d did not finish" % r)
                v = dict(x.split("=") for x in l[-1].split()[2:])
                n += int(v["sends"]) + int(v["isends"]) + int(v["reduces"])
                for k in ("isends", "reduces", "sends"):
                    if int(v[k]):
                        cl.append(k)
            if "!eager 0" in h:
                msgs = max(msgs, n)
            cl += [x.replace("!", "").replace(" ", "") for x in h if x.startswith(("!eager", "!lazy", "!env"))]
        return {"nontrivial": msgs > 0, "classes": sorted(set(cl + hist.classes(case, own, m))), "counts": {"runs": len(case["heads"]), "messages": msgs}}

    def summary(self, case):
        return hist.render(case)


CHECK = C05()
