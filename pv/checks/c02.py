from ..core import Check, Src
from ..model import RO_NONE
from .. import big, hist


class C02(Check):
    id = "C02"
    rule = "a switch reduced written values of at least two processes and the result was compared at an owner"
    quick, thorough = 6000, 60000
    nso = 14
    assumptions = ["ranges of one process in one partitioning are disjoint; 1D spaces (the MPI backend has no 2D/3D reductions)",
                   "at most 14 processes; floating point values chosen so that every evaluation order is exact",
                   "MPI replaced by a simulated MPI with seeded schedule"]

    def generate(self, src, tier):
        return hist.gen_passes(src, hist.add_new(src, hist.gen_rhist(src, tier, dims=1, init_pct=5, wide=8)), 10)

    def fixed_cases(self, tier):
        c = [big.gen(Src(seed=i)) for i in range(30 if tier == "quick" else 150)]
        return [x for x in c if x["op"] != RO_NONE]

    def evaluate(self, case, eng):
        if case.get("big"):
            return big.evaluate(case, eng.run(big.text(case), 60000))
        res = eng.run(hist.render(case))
        res.require_ok()
        mem = [r for r in range(case["n"]) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(case, res, mem, own)
        return {"nontrivial": m.reduced > 0, "classes": hist.classes(case, own, m),
                "counts": {"reduced": m.reduced, "moved": m.moved, "inited": m.inited}}

    def summary(self, case):
        if case.get("big"):
            return big.text(case)
        return hist.render(case)


CHECK = C02()
