"""Histories of switches on one index space: structured case, script rendering,
and the reference model (a map index -> value, independent of LAIK)."""
from .core import Fail, Discard
from .model import *


# ------------------------------------------------------------------ generation
def gen_part(src, dims, box, nt, want=None, builtin=True, tagged=False, fine=False):
    """one partitioning description. k: single (each index at most one owner),
    multi (overlaps), all"""
    n = box_size(box)
    # tagged: usable in a reservation (at most one mapping per process, or tags > 0)
    tg = src.draw(1, 2) if tagged else None
    if fine and src.chance(80):
        multi = src.chance(30) if want is None else want == "multi"
        c = gen_fine(src, dims, box, nt, multi, tg)
        return {"k": "multi" if multi and nt > 1 else "single", "pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}
    if want == "single":
        w = src.weighted((8, "cs"), (2, "master"), (3, "block"), (2, "bis"))
    elif want == "multi":
        w = src.weighted((6, "cm"), (2, "all"), (2, "halo"))
    else:
        w = src.weighted((7, "cs"), (4, "cm"), (2, "master"), (2, "all"), (3, "block"), (2, "bis"), (2, "halo"), (1, "copy"))
    if not builtin and w not in ("cs", "cm"):
        w = "cs" if want == "single" else "cm"
    if w == "cs":
        c = gen_single(src, dims, box, nt, tags=tg)
        return {"k": "single", "pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}
    if w == "cm":
        c = gen_multi(src, dims, box, nt, tags=tg)
        return {"k": "multi" if nt > 1 else "single", "pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}
    if w == "master":
        return {"k": "single", "pr": src.pick(["Master", "master"])}
    if w == "all":
        return {"k": "all" if nt > 1 else "single", "pr": src.pick(["All", "all"])}
    if w == "block" or w == "halo" or w == "copy":
        ds = [d for d in range(dims)]
        d = src.pick(ds)
        cyc = src.weighted((5, 1), (1, 2), (1, 3))
        if tagged:
            cyc = 1
        p = {"k": "single", "pr": "block %d %d %d %s none" % (d, cyc, src.draw(0, 1),
                                                             src.pick(["none", "none", "hash %d %d" % (src.draw(1, 99), src.draw(1, 5))]))}
        if w == "block":
            return p
    if w == "bis":
        return {"k": "single", "pr": "bisection"}
    if w == "halo":
        if dims == 1:
            # ranges of one process must not overlap in 1d
            tl = tiling(src, box, nt)
            ts = src.shuffle(list(range(nt)))
            c = finish_custom(src, 1, box, [(ts[i], 0, b) for i, b in enumerate(tl)], 1)
        else:
            c = gen_single(src, dims, box, nt, holes=False, tags=1, maxpieces=nt)
        base = {"k": "single", "pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}
        return {"k": "multi" if nt > 1 else "single", "pr": "%s %d" % (src.pick(["cornerhalo", "halo"]), src.draw(1, 2)), "base": base,
                "halo": True}
    if w == "copy":
        return {"k": "multi", "pr": "copy 0 0", "base": p, "copy": True}


def cover1d(part, box):
    """set of 1d indexes owned by anybody"""
    if "base" in part and part.get("halo"):
        d = int(part["pr"].split()[1])
        s = cover1d(part["base"], box)
        return {j for i in s for j in range(i - d, i + d + 1) if box[0] <= j < box[1]}
    if "ranges" not in part:
        return set(range(box[0], box[1]))
    return {i for _, _, b in part["ranges"] for i in range(b[0], b[1])}


def preservable(dims, box, fr, to):
    """may data be switched from/to without reduction?"""
    if fr["k"] != "single":
        # several owners: values have no unique source
        return dims > 1 and fr["k"] == "all" and to["k"] == "all"
    return dims > 1 or cover1d(to, box) <= cover1d(fr, box)


def expected(part):
    """frozen range list if determined by the case (custom partitioners)"""
    if "ranges" not in part:
        return None
    c = CustomP(0, [tuple(r) for r in part["ranges"]], part["flags"])
    return c.normal()


GAPS = [2 ** 31 - 2, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 10 ** 12, 2 ** 62]


def stretch(src, case):
    """huge gap inside of the space which nobody owns: ranges of a case far away from each other"""
    ps = case["parts"]
    k = src.draw(0, case["dims"] - 1)
    lo, hi = case["box"][2 * k], case["box"][2 * k + 1]
    if hi - lo < 2 or any("ranges" not in p or p["flags"] & PF_SINGLE for p in ps):
        return case
    m = src.draw(lo + 1, hi - 1)
    g = src.pick(GAPS)
    down = src.chance(50) and (case["box"][0] > -10 ** 9 or g < 10 ** 15)

    def f(x):
        return x - g if down and x < m else x + g if not down and x >= m else x

    def split(b):
        for a, e in ((b[2 * k], min(b[2 * k + 1], m)), (max(b[2 * k], m), b[2 * k + 1])):
            if a < e:
                yield b[:2 * k] + [f(a), f(e - 1) + 1] + b[2 * k + 2:]
    for p in ps:
        rs = [(t, 2 * tag + (b[2 * k] >= m) if tag else 0, b) for t, tag, c in p["ranges"] for b in split(list(c))]
        # side of the gap in the tag: no mapping spans the gap
        rs = [(t, 2 * (tag // 2) + (b[2 * k] >= f(m)) if tag else 0, b) for t, tag, b in rs]
        c = CustomP(case["dims"], rs, p["flags"] | PF_NOCOVER)
        p.update(pr=c.cmd(0).split(" ", 2)[2], ranges=c.ranges, flags=c.flags)
    case["box"] = case["box"][:2 * k] + [f(lo), f(hi - 1) + 1] + case["box"][2 * k + 2:]
    for st in case["steps"]:
        if st[0] == "fill" and st[4]:
            st[4] = list(st[4])
            st[4][2 * k:2 * k + 2] = [f(st[4][2 * k]), f(st[4][2 * k + 1] - 1) + 1]
    case["gap"] = 1
    return case


def gen_hist(src, tier, types=None, nmin=1, nmax=5, flows=True, subgroup=True, dims=None, maxsteps=7, sizes=None,
             gen_layouts=True, parts=None, halos=True, ndata=None):
    big = tier == "thorough" and src.chance(25)
    n = src.draw(nmin, nmax)
    dims = src.weighted((5, 1), (4, 2), (3, 3)) if dims is None else dims
    wide = sizes is None and src.chance(6)      # huge gap in the space
    fine = sizes is None and not wide and src.chance(4)
    lim = (sizes or {1: 40, 2: 9, 3: 5})[dims]
    if big:
        lim = {1: 200, 2: 20, 3: 9}[dims]
    box = gen_fine_box(src, dims) if fine else gen_box(src, dims, lim)
    rm = []
    if subgroup and n > 1 and src.chance(25):
        rm = src.subset(list(range(n)), 30)
        if len(rm) >= n:
            rm = rm[1:]
    nt = n - len(rm)
    ps = []
    for _ in range(src.draw(2, 4) if parts is None else parts):
        ps.append(gen_part(src, dims, box, nt, builtin=not wide, fine=fine))
    if not any(p["k"] == "single" for p in ps):
        ps[0] = gen_part(src, dims, box, nt, "single", builtin=not wide, fine=fine)
    ds = []
    for _ in range(src.weighted((4, 1), (1, 2)) if ndata is None else ndata):
        ty = src.pick(types or ["int32", "double", "char", "int64", "uchar", "uint32", "uint64", "float"])
        gl = bool(gen_layouts and dims > 1 and src.chance(20))
        ds.append({"ty": ty, "gen": gl, "am": 1 if gl else src.pick([0, 1, 2])})
    steps = []
    cur = [None] * len(ds)
    seed = src.draw(1, 100000)
    fseed = seed
    for _ in range(src.draw(2, maxsteps)):
        d = src.draw(0, len(ds) - 1)
        if cur[d] is None:
            p = src.draw(0, len(ps) - 1)
            steps.append(["sw", d, p, src.pick([NONE, PRESERVE]), RO_NONE])
            cur[d] = p
        else:
            p = src.draw(0, len(ps) - 1)
            flow = PRESERVE
            if not preservable(dims, box, ps[cur[d]], ps[p]):
                flow = NONE
            elif flows and src.chance(8):
                flow = NONE
            steps.append(["sw", d, p, flow, RO_NONE])
            cur[d] = p
        if src.chance(85):
            seed += 1
            if src.chance(20):
                b = gen_subbox(src, box)
                steps.append(["fill", d, seed, 0, b, 0])
            else:
                steps.append(["fill", d, seed, 0, None, 0])
    # always end with a preserving pair of switches
    d = src.draw(0, len(ds) - 1)
    sp = [i for i, p in enumerate(ps) if p["k"] == "single"]
    if cur[d] is None or ps[cur[d]]["k"] != "single":
        p = src.pick(sp)
        steps.append(["sw", d, p, NONE, RO_NONE])
        seed += 1
        steps.append(["fill", d, seed, 0, None, 0])
        cur[d] = p
    p = src.pick([i for i, q in enumerate(ps) if preservable(dims, box, ps[cur[d]], q)])
    steps.append(["sw", d, p, PRESERVE, RO_NONE])
    c = {"n": n, "head": gen_sim_head(src) + gen_mpi_env(src), "dims": dims, "box": box, "rm": rm, "parts": ps,
            "datas": ds, "steps": steps}
    return stretch(src, c) if wide else c


INTTYPES = ["int32", "char", "int64", "uchar", "uint32", "uint64"]


def isint(ty):
    return ty in INTTYPES or ty[0] == "t"


def gen_ops(src, ty):
    return src.pick([SUM, MIN, MAX, PROD] + ([AND, OR] if isint(ty) else []))


def gen_full(src, dims, box, nt, tasks):
    """custom partitioner giving the whole space to given tasks"""
    rs = [(t, 0, list(box)) for t in tasks]
    c = CustomP(dims, src.shuffle(rs), src.pick([0, PF_NOCOVER]))
    return {"k": "all" if len(tasks) == nt and nt > 1 else "single" if len(tasks) == 1 else "multi",
            "pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}


def gen_rhist(src, tier, init_pct=25, none_pct=5, nmax=6, dims=None, maxsteps=7, flowsw=15, ndata=None, nfix=None, wide=0, types=None):
    """histories with reductions and init. wide: chance for more than 8 processes, most of them giving input"""
    many = bool(wide) and src.chance(wide)
    n = nfix or (src.draw(9, 14) if many else src.draw(1, nmax if tier == "quick" else 8))
    maxsteps = min(maxsteps, 4) if many else maxsteps
    dims = src.weighted((8, 1), (1, 2), (1, 3)) if dims is None else dims
    fine = dims == 1 and not many and src.chance(4)
    box = gen_fine_box(src, dims) if fine else gen_box(src, dims)
    gap = dims == 1 and not fine and src.chance(6)
    rm = []
    if n > 1 and src.chance(20):
        rm = src.subset(list(range(n)), 30)
        if len(rm) >= n:
            rm = rm[1:]
    nt = n - len(rm)
    ps = []
    for _ in range(src.draw(2, 4)):
        if dims == 1 and (src.chance(70) or gap):
            ps.append(gen_part(src, dims, box, nt, src.weighted((4, "multi"), (1, "single")), builtin=not gap, fine=fine))
        else:
            w = src.draw(0, 4)
            if w <= 1:
                ps.append({"k": "all" if nt > 1 else "single", "pr": src.pick(["All", "all"]), "full": True})
            elif w == 2:
                ps.append(dict(gen_full(src, dims, box, nt, list(range(nt))), full=True))
            elif w == 3:
                ps.append(dict(gen_full(src, dims, box, nt, [src.draw(0, nt - 1)]), full=True))
            else:
                ps.append({"k": "single", "pr": src.pick(["Master", "master"]), "full": True})
    if many:
        # reductions with many inputs
        if src.chance(50):
            ps[0] = gen_full(src, dims, box, nt, src.subset(list(range(nt)), 85, 1))
            ps[0]["full"] = True
        else:
            c = gen_multi(src, dims, box, nt, maxpieces=2, pct=85)
            ps[0] = {"k": "multi", "pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}
    ds = []
    for _ in range(src.weighted((4, 1), (1, 2)) if ndata is None else ndata):
        ty = src.pick(types or ["int32", "double", "char", "int64", "uchar", "uint32", "uint64", "float"])
        ds.append({"ty": ty, "gen": False, "am": src.pick([0, 1, 2])})
        if ty[0] == "t":
            ds[-1]["red"] = 1
    steps = []
    cur = [None] * len(ds)
    seed = src.draw(1, 100000)
    for _ in range(src.draw(2, maxsteps)):
        d = src.draw(0, len(ds) - 1)
        ty = ds[d]["ty"]
        op = gen_ops(src, ty)
        p = src.draw(0, len(ps) - 1)
        flow = PRESERVE
        if src.chance(init_pct) and dims == 1:
            flow = INIT
        elif src.chance(none_pct) or cur[d] is None:
            flow = NONE
        if cur[d] is None:
            cur[d] = p
            steps.append(["sw", d, p, flow, op if flow == INIT else RO_NONE])
        elif src.chance(flowsw):
            q = ps[cur[d]]
            if flow == PRESERVE and dims > 1 and q["k"] == "single" and not q.get("full"):
                op = RO_NONE
            steps.append(["swf", d, flow, op if flow != NONE else RO_NONE])
        else:
            f, t = ps[cur[d]], ps[p]
            if flow == PRESERVE:
                if dims == 1:
                    if not cover1d(t, box) <= cover1d(f, box):
                        flow = NONE
                else:
                    if f["k"] == "single" and nt > 1:
                        op = RO_NONE
                    if nt > 1 and f["k"] == "all" and t["k"] not in ("all", "single"):
                        flow = NONE
            cur[d] = p
            steps.append(["sw", d, p, flow, op if flow != NONE else RO_NONE])
        if src.chance(80):
            seed += 1
            prod = any(s[0] == "sw" and s[4] == PROD or s[0] == "swf" and s[3] == PROD for s in steps[-1:])
            mode = 0 if isint(ty) else 2
            if src.chance(25) and ty[0] != "t":
                mode = 1
            b = gen_subbox(src, box) if src.chance(25) else None
            steps.append(["fill", d, seed, mode, b, src.weighted((4, 1), (1, 0))])
    # always end with a reducing switch of freshly written data
    d = src.draw(0, len(ds) - 1)
    ty = ds[d]["ty"]
    p = src.pick([i for i, q in enumerate(ps) if dims == 1 or q["k"] == "all"] or [0])
    if cur[d] is None:
        steps.append(["sw", d, p, NONE, RO_NONE])
        cur[d] = p
    elif cur[d] != p:
        steps.append(["sw", d, p, NONE, RO_NONE])
        cur[d] = p
    seed += 1
    steps.append(["fill", d, seed, 0 if isint(ty) else 2, None, 1])
    f = ps[p]
    c = [i for i, q in enumerate(ps) if (dims == 1 and cover1d(q, box) <= cover1d(f, box)) or (dims > 1 and q.get("full"))]
    p = src.pick(c)
    op = gen_ops(src, ty)
    if dims > 1 and nt > 1 and f["k"] == "single":
        op = RO_NONE
    steps.append(["sw", d, p, PRESERVE, op])
    c = {"n": n, "head": gen_sim_head(src) + gen_mpi_env(src), "dims": dims, "box": box, "rm": rm, "parts": ps,
            "datas": ds, "steps": steps}
    return stretch(src, c) if gap else c


def gen_subbox(src, box):
    b = []
    for k in range(0, len(box), 2):
        f = src.draw(box[k], box[k + 1] - 1)
        b += [f, src.draw(f + 1, box[k + 1])]
    return b


# ------------------------------------------------------------------ rendering
def gen_passes(src, case, pct):
    """action sequences are prepared by transformation passes in generated order, at last the preparation of the
    backend (B) or passes until everything can be executed. f flatten packing, c combine, a allocate buffers, r split
    reductions, m use all-reduce, o sort by rounds, 2/d sort against deadlocks, y copy"""
    if src.chance(pct):
        p = ""
        for _ in range(src.draw(0, 7)):
            t = src.pick("fcraomy2d")
            # each of these needs three times the rounds, there are at most 255
            if t not in "fcr" or sum(p.count(x) for x in "fcr") < 2:
                p += t
        case["passes"] = p + src.weighted((3, "B"), (1, "faraoca2"), (2, "faraocad"), (1, "famraocad"))
    return case


def prologue(case, backend="mpi"):
    s = Script(case["n"], backend)
    s.head = list(case["head"])
    mem = [r for r in range(case["n"]) if r not in case["rm"]]
    if case.get("passes") and backend == "mpi":
        s.add("passes " + (case["passes"].replace("m", "") if "!env LAIK_MPI_REDUCE 0" in case["head"] else case["passes"]))
    # processes outside of the group may have the containers, too
    every = list(range(case["n"])) if case.get("new") and not any("base" in p for p in case["parts"]) else mem
    s.add("space 0 %d %s" % (case["dims"], bs(case["box"])))
    g = 0
    if case["rm"]:
        s.add("shrink 1 0 %d %s" % (len(case["rm"]), bs(case["rm"])))
        g = 1
    nb = 100
    for i, p in enumerate(case["parts"]):
        o = -1
        if "base" in p:
            s.at(mem, "pr %d %s" % (nb, p["base"]["pr"]))
            s.at(mem, "part %d %d 0 %d -1 0" % (nb, g, nb))
            o = nb
            nb += 1
        s.at(every, "pr %d %s" % (i, p["pr"]))
        if case.get("filt"):
            # only keep own ranges at first
            s.at(mem, "part %d %d 0 %d %d 1" % (i, g, i, o))
            s.at(mem, "pstore %d my" % i)
        else:
            s.at(mem, "part %d %d 0 %d %d 0" % (i, g, i, o))
        s.at(mem, "dumpp %d own" % i)
    for a, b in case.get("filt", []):
        s.at(mem, "pstore %d inter %d" % (a, b))
    for i, d in enumerate(case["datas"]):
        if d["ty"].startswith("t:"):
            s.at(mem, "type %d %s%s" % (i, d["ty"][2:], " 1" if d.get("red") else ""))
            s.at(mem, "data %d 0 t%d" % (i, i))
        else:
            s.at(every, "data %d 0 %s" % (i, d["ty"]))
        if d["gen"]:
            s.at(mem, "genlayout %d" % i)
        if d.get("track"):
            s.at(mem, "alloctrack %d" % i)
    return s, mem


def add_new(src, case):
    """some switches create their partitioning on the fly (steps in case["new"]); it is released after the container left it"""
    case["new"] = []
    if not case.get("filt") and src.chance(40):
        case["new"] = [k for k, st in enumerate(case["steps"]) if st[0] == "sw" and st[2] >= 0 and "base" not in case["parts"][st[2]] and src.chance(50)]
        case["nfree"] = src.draw(0, 2)
    return case


def render(case, backend="mpi", finalize=True):
    s, mem = prologue(case, backend)
    n = 0
    newp, cnt = {}, 115
    for st in case["steps"]:
        if st[0] == "fill":
            d = case["datas"][st[1]]
            s.at(mem, "fill %d %d %d %d %d%s" % (st[1], st[2], st[5], st[3], d["am"], " %d %s" % (case["dims"], bs(st[4])) if st[4] else ""))
        elif st[0] == "swf":
            d = case["datas"][st[1]]
            s.at(mem, "switchflow %d %d %d" % (st[1], st[2], st[3]))
            s.at(mem, "dump %d s%d %d" % (st[1], n, d["am"]))
        elif st[0] == "sw":
            d = case["datas"][st[1]]
            old = newp.pop(st[1], None)
            if n in case.get("new", ()) and "base" not in case["parts"][st[2]] and cnt < 130:
                every = not d["ty"].startswith("t:") and not any("base" in p for p in case["parts"])
                s.at(list(range(case["n"])) if every else mem, "switchnew %d %d %d %d %d %d" % (st[1], cnt, 1 if case["rm"] else 0, st[2], st[3], st[4]))
                newp[st[1]] = cnt
                cnt += 1
            else:
                s.at(mem, "switch %d %d %d %d" % (st[1], st[2], st[3], st[4]))
            if old and case.get("nfree", 0) & 1:
                s.at(mem, "pfree %d" % old)
            s.at(mem, "dump %d s%d %d" % (st[1], n, d["am"]))
            if old and case.get("nfree", 0) == 2:
                s.at(mem, "pfree %d" % old)
        elif st[0] == "trans":         # t a b flow op
            s.at(mem, "trans %d 0 %d %d %d %d" % tuple(st[1:6]))
        elif st[0] == "actions":       # a d t r1 r2
            s.at(mem, "actions %d %d %d %d %d" % tuple(st[1:6]))
        elif st[0] in ("ex", "exa"):   # d id a b flow op
            d = case["datas"][st[1]]
            s.at(mem, ("exect %d %d" % (st[1], st[2])) if st[0] == "ex" else "execa %d" % st[2])
            s.at(mem, "dump %d s%d %d" % (st[1], n, d["am"]))
        elif st[0] == "res":           # r d parts
            s.at(mem, "res %d %d" % (st[1], st[2]))
            for p in st[3]:
                s.at(mem, "resadd %d %d" % (st[1], p))
            s.at(mem, "resalloc %d" % st[1])
        elif st[0] == "use":           # d r
            s.at(mem, ("resuse %d %d" % (st[1], st[2])) if st[2] >= 0 else "resunuse %d" % st[1])
        elif st[0] == "raw":
            s.at(st[2] if len(st) > 2 and isinstance(st[2], list) else mem, st[1])
        elif st[0] == "gone":
            pass
        else:
            raise ValueError(st)
        n += 1
    if finalize:
        s.add("finalize")
    return s.text()


# ------------------------------------------------------------------ model
def own_lists(res, mem, part_ids, dims, boxes_key="own"):
    """{part: {tid: [(mapNo, tag, box)]}} from 'dumpp own' of every member"""
    out = {}
    for tid, r in enumerate(mem):
        lines = res.ranks[r]
        for k, l in enumerate(lines):
            if l.startswith("PART ") and l.endswith(" own"):
                pi = int(l.split()[1])
                if pi not in part_ids:
                    continue
                cnt = int(lines[k + 1].split()[1])
                lst = []
                for m in lines[k + 2:k + 2 + cnt]:
                    v = m.split(" nd")[0].split()[1:]
                    v = [int(x) for x in v]
                    if v[0] != tid:
                        raise Fail("own range with task %d reported to task %d" % (v[0], tid))
                    lst.append((v[1], v[2], v[4:]))
                out.setdefault(pi, {}).setdefault(tid, lst)
    return out


class Model:
    """values per process and index; no entry = undefined"""

    def __init__(self, case):
        self.case = case
        nt = case["n"] - len(case["rm"])
        self.vals = [[dict() for _ in range(nt)] for _ in case["datas"]]
        self.cur = [None] * len(case["datas"])
        self.moved = self.kept = self.reduced = self.inited = 0
        self.maxin = 0

    def fill(self, d, own, seed, mode, box, useid):
        ty = self.case["datas"][d]["ty"]
        for tid, lst in own.items():
            v = self.vals[d][tid]
            for _, _, b in lst:
                bb = box_and(b, box) if box else b
                if box_empty(bb):
                    continue
                for i in box_idx(bb):
                    v[i] = val(ty, seed, i, tid + 1 if useid else 0, mode)

    def switch(self, d, fr, to, flow, op):
        """fr, to: {tid: list}"""
        ty = self.case["datas"][d]["ty"]
        old = self.vals[d]
        new = self.vals[d] = [dict() for _ in old]
        if flow == INIT:
            x = neutral(ty, op)
            for tid, lst in to.items():
                for _, _, b in lst:
                    for i in box_idx(b):
                        new[tid][i] = x
                        self.inited += 1
            return
        if flow != PRESERVE or fr is None:
            return
        src = {}
        for tid, lst in fr.items():
            for _, _, b in lst:
                for i in box_idx(b):
                    src.setdefault(i, []).append(tid)
        memo = {}
        for tid, lst in to.items():
            for _, _, b in lst:
                for i in box_idx(b):
                    own = src.get(i)
                    if not own or any(i not in old[t] for t in own):
                        continue
                    if len(own) == 1 or op == RO_NONE:
                        # no reduction: copy (only used if all copies are the same)
                        t = own[0] if tid not in own else tid
                        new[tid][i] = old[t][i]
                        if t != tid:
                            self.moved += 1
                        else:
                            self.kept += 1
                    else:
                        if i not in memo:
                            x = old[own[0]][i]
                            for t in own[1:]:
                                x = reduce2(ty, op, x, old[t][i])
                            memo[i] = x
                            self.maxin = max(self.maxin, len(own))
                        new[tid][i] = memo[i]
                        self.reduced += 1


def check_dump(res, rank, label, ty, dims, own, vals, what):
    got = parse_dump(res.ranks[rank], label, ty, dims)
    if got is None:
        raise Fail("%s: rank %d cannot access its elements" % (what, rank))
    if [(m, t, b) for m, t, b, _ in got] != [(m, t, list(b)) for m, t, b in own]:
        raise Fail("%s: rank %d own ranges differ from partitioning: %s / %s" % (what, rank, [(m, t, b) for m, t, b, _ in got], own))
    for m, t, b, vs in got:
        if len(vs) != box_size(b):
            raise Fail("%s: rank %d: %d values for range %s" % (what, rank, len(vs), b))
        for i, x in zip(box_idx(b), vs):
            e = vals.get(i)
            if e is not None and e != x:
                raise Fail("%s: rank %d index %s is %r, should be %r" % (what, rank, i, x, e))


def check_parts(case, res, mem):
    """own ranges as reported; for custom partitioners also as required"""
    own = own_lists(res, mem, set(range(len(case["parts"]))), case["dims"])
    for i, p in enumerate(case["parts"]):
        e = expected(p)
        o = own.get(i, {})
        if len(o) != len(mem):
            raise Fail("partitioning %d not reported by all" % i)
        if e is not None:
            for tid in range(len(mem)):
                x = [(m, t, b) for (k, m, t, _, b) in e if k == tid]
                # ranges of equal order key may come in any order
                if sorted(map(repr, [(m, t, list(b)) for m, t, b in x])) != sorted(map(repr, o[tid])) and \
                        sorted(map(repr, [(t, list(b)) for m, t, b in x])) != sorted(map(repr, [(t, b) for m, t, b in o[tid]])):
                    raise Fail("partitioning %d task %d: own ranges %s, given %s" % (i, tid, o[tid], x))
    return own


def run_model(case, res, mem, own):
    m = Model(case)
    n = 0
    for st in case["steps"]:
        d = st[1]
        if st[0] == "fill":
            m.fill(d, own[m.cur[d]], st[2], st[3], st[4], st[5])
        elif st[0] == "gone":          # switched to no partitioning
            m.cur[d] = None
            m.vals[d] = [dict() for _ in m.vals[d]]
        elif st[0] in ("sw", "swf", "ex", "exa"):
            fr = None if m.cur[d] is None else own[m.cur[d]]
            if st[0] == "swf":
                st = ["sw", d, m.cur[d], st[2], st[3]]
            elif st[0] in ("ex", "exa"):
                assert st[3] == m.cur[d]
                st = ["sw", d, st[4], st[5], st[6]]
            m.switch(d, fr, own[st[2]], st[3], st[4])
            m.cur[d] = st[2]
            for tid, r in enumerate(mem):
                check_dump(res, r, "s%d" % n, case["datas"][d]["ty"], case["dims"], own[st[2]][tid], m.vals[d][tid],
                           "step %d (%s)" % (n, " ".join(map(str, st))))
        n += 1
    return m


def classes(case, own, m=None):
    c = ["dims%d" % case["dims"]]
    if case["rm"]:
        c.append("subgroup")
    if case["n"] > 8:
        c.append("many-processes")
    if case.get("gap"):
        c.append("huge-gap")
    if any(len(p.get("ranges", ())) > 60 for p in case["parts"]):
        c.append("many-ranges")
    if case["box"][0] < 0:
        c.append("negative-borders")
    elif case["box"][0] > 0:
        c.append("offset-borders")
    if any(d["gen"] for d in case["datas"]):
        c.append("user-layout")
    if any(len({x[0] for x in l}) > 1 for o in own.values() for l in o.values()):
        c.append("multi-map")
    if any(len(l) > len({x[0] for x in l}) for o in own.values() for l in o.values()):
        c.append("multi-range-map")
    if any(p["k"] != "single" for p in case["parts"]):
        c.append("overlap")
    for k in ("block", "bisection", "halo", "cornerhalo", "copy", "Master", "All"):
        if any(p["pr"].split()[0] == k for p in case["parts"]):
            c.append(k)
    if m is not None and m.moved:
        c.append("moved")
    if m is not None and m.reduced:
        c.append("reduced")
        c.append("inputs%d" % m.maxin)
    if m is not None and m.inited:
        c.append("inited")
    for st in case["steps"]:
        if st[0] in ("sw", "swf") and st[-1] not in (RO_NONE,):
            c.append("op%d" % st[-1])
    c = sorted(set(c))
    return c
