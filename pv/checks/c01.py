from ..core import Check, Src
from ..model import RO_NONE
from .. import big, hist


class C01(Check):
    id = "C01"
    nso = 14
    rule = "at least one defined value was moved to another process by a preserving switch (and compared at the receiver)"
    quick, thorough = 6000, 60000
    assumptions = ["an index has at most one owner before a preserving switch without reduction (2D/3D: or all processes hold everything)",
                   "MPI replaced by a simulated MPI with seeded schedule"]

    def generate(self, src, tier):
        if src.chance(4):
            h = hist.gen_hist(src, tier, nmin=9, nmax=14, maxsteps=4)
        else:
            h = hist.gen_hist(src, tier)
        return hist.gen_passes(src, hist.add_new(src, h), 10)

    def fixed_cases(self, tier):
        c = [big.gen(Src(seed=i)) for i in range(30 if tier == "quick" else 150)]
        return [x for x in c if x["op"] == RO_NONE]

    def evaluate(self, case, eng):
        if case.get("big"):
            return big.evaluate(case, eng.run(big.text(case), 60000))
        res = eng.run(hist.render(case))
        res.require_ok()
        mem = [r for r in range(case["n"]) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(case, res, mem, own)
        return {"nontrivial": m.moved > 0, "classes": hist.classes(case, own, m), "counts": {"moved": m.moved, "kept": m.kept}}

    def summary(self, case):
        if case.get("big"):
            return big.text(case)
        return hist.render(case)


CHECK = C01()
