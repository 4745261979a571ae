from ..core import Check
from .. import hist


class C03(Check):
    id = "C03"
    rule = "elements initialised by an init switch were compared with the neutral element and a preserving switch followed"
    quick, thorough = 6000, 60000
    nso = 14
    assumptions = ["ranges of one process in one partitioning are disjoint; 1D spaces (the MPI backend has no 2D/3D reductions)",
                   "at most 14 processes; floating point values chosen so that every evaluation order is exact",
                   "MPI replaced by a simulated MPI with seeded schedule"]

    def generate(self, src, tier):
        return hist.add_new(src, hist.gen_rhist(src, tier, dims=1, init_pct=50, none_pct=10, wide=5))

    def evaluate(self, case, eng):
        res = eng.run(hist.render(case))
        res.require_ok()
        mem = [r for r in range(case["n"]) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(case, res, mem, own)
        return {"nontrivial": m.inited > 0 and m.reduced + m.moved > 0, "classes": hist.classes(case, own, m),
                "counts": {"reduced": m.reduced, "moved": m.moved, "inited": m.inited}}

    def summary(self, case):
        return hist.render(case)


CHECK = C03()
