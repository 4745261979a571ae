"""programs moving or reducing more than fits into any communication buffer (10 MB in the MPI and TCP backends):
values are checked in the driver, not element by element in Python"""
from .core import Fail
from .model import *

SIZES = {"double": 8, "float": 4, "int64": 8, "uint64": 8, "int32": 4, "uint32": 4}


def gen(src, be="mpi"):
    n = src.draw(2, 4)
    red = src.chance(50)
    dims = 1 if red else src.draw(1, 3)
    ty = src.pick(sorted(SIZES))
    want = src.draw(10 << 20, 14 << 20) // SIZES[ty]
    base = [src.pick([0, 0, -5, 1000]) for _ in range(dims)]
    # border around the part moved, not moved or moved to somebody else
    bd = [[src.pick([0, 1, 7]), src.pick([0, 1, 3])] for _ in range(dims)]
    if dims == 1:
        w = [want]
    elif dims == 2:
        a = src.draw(300, 5000)
        w = [a, want // a + 1]
    else:
        a, b = src.draw(20, 300), src.draw(20, 300)
        w = [a, b, want // (a * b) + 1]
    box = []
    inner = []
    for d in range(dims):
        box += [base[d], base[d] + w[d] + sum(bd[d])]
        inner += [base[d] + bd[d][0], base[d] + bd[d][0] + w[d]]
    owner = src.draw(0, n - 1)
    to = (owner + src.draw(1, n - 1)) % n
    ins = [owner]
    if red:
        ins = src.subset(list(range(n)), 60, 1)
        if src.chance(30):
            ins = list(range(n))
    outs = src.weighted((4, [to]), (1 if red else 0, list(range(n))), (1 if red else 0, [to, (to + 1) % n] if n > 1 else [to]))
    op = src.pick([MAX, MIN, AND, OR]) if red and ty not in ("double", "float") else src.pick([MAX, MIN]) if red else RO_NONE
    if be == "tcp":
        op = RO_NONE
        ins = ins[:1]
        outs = outs[:1]
    if be != "mpi":
        n = max(n, 2)
    if len(ins) == 1 and dims > 1:
        op = RO_NONE
    return {"n": n, "big": True, "dims": dims, "ty": ty, "box": box, "inner": inner, "ins": ins, "outs": sorted(set(outs)), "op": op,
            "how": src.pick(["sw", "sw", "exect", "acts"]), "seed": src.draw(1, 1 << 30),
            "head": (gen_sim_head(src) + gen_mpi_env(src)) if be == "mpi" else []}


def text(c, be="mpi"):
    s = Script(c["n"], be)
    s.head = list(c["head"])
    d = c["dims"]
    s.add("space 0 %d %s" % (d, bs(c["box"])))
    a = ["%d 0 %s" % (r, bs(c["box"])) for r in c["ins"]]
    b = []
    for r in c["outs"]:
        b.append("%d 0 %s" % (r, bs(c["inner"])))
    # the rest (1D: source must cover target, the rest is not owned)
    s.add("pr 0 custom 0 %d %d %s" % (d, len(a), " ".join(a)), "part 0 0 0 0 -1 0")
    s.add("pr 1 custom %d %d %d %s" % (PF_NOCOVER, d, len(b), " ".join(b)), "part 1 0 0 1 -1 0")
    s.add("data 0 0 %s" % c["ty"], "switch 0 0 0 0", "fill 0 %d 0 0 0" % c["seed"])
    if c["how"] == "sw":
        s.add("switch 0 1 1 %d" % c["op"])
    elif c["how"] == "exect":
        s.add("trans 0 0 0 1 1 %d" % c["op"], "exect 0 0")
    else:
        s.add("res 0 0", "resadd 0 0", "resadd 0 1", "resalloc 0", "resuse 0 0", "switch 0 0 0 0", "fill 0 %d 0 0 0" % c["seed"],
              "trans 0 0 0 1 1 %d" % c["op"], "actions 0 0 0 0 0", "execa 0")
    s.add("check 0 a %d 0 0" % c["seed"], "finalize")
    return s.text()


def evaluate(c, res):
    res.require_ok()
    sz = 1
    for k in range(c["dims"]):
        sz *= c["inner"][2 * k + 1] - c["inner"][2 * k]
    for r in range(c["n"]):
        want = sz if r in c["outs"] else 0
        l = [x.split() for x in res.ranks[r] if x.startswith("CHECK ")]
        if len(l) != 1 or int(l[0][2]) != want:
            raise Fail("rank %d checked %s elements, should be %d" % (r, l, want))
        if int(l[0][3]):
            raise Fail("rank %d: %s of %d elements wrong, first at %s" % (r, l[0][3], want, l[0][4:4 + c["dims"]]))
    return {"nontrivial": True, "classes": ["big", "big-" + c["how"]] + (["big-reduced"] if c["op"] != RO_NONE else []), "counts": {"moved": sz}}
