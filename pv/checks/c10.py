from ..core import Check, Fail
from ..model import *
from .. import hist
from .c06 import edge
from .c07 import stat_line


def kv(lines, head, label):
    for l in lines:
        if l.startswith("%s %s " % (head, label)):
            return {k: int(v) for k, v in (x.split("=") for x in l.split()[2:])}
    raise Fail("no %s %s" % (head, label))


class C10(Check):
    id = "C10"
    rule = "memory was allocated at least twice for one process, some of it returned, and mappings of all containers compared with the allocator's blocks"
    quick, thorough = 4000, 50000
    technique = ("property-based testing: generated histories of switches, reservations, provided memory and container releases with a tracking allocator; mappings, "
                 "element addresses and statistics compared with the allocator's view after every step; AddressSanitizer; shrinking")
    assumptions = ["a reservation is freed before its container and when not in use", "memory provided by the application is large enough, or only for the next switch (withdrawn afterwards)",
                   "reductions only in 1D (MPI backend)"]

    def generate(self, src, tier):
        n = src.draw(1, 4 if tier == "quick" else 7)
        dims = src.weighted((6, 1), (3, 2), (2, 3))
        box = gen_box(src, dims, {1: 30, 2: 7, 3: 4}[dims])
        rm = []
        if n > 1 and src.chance(15):
            rm = src.subset(list(range(n)), 30)[:n - 1]
        nt = n - len(rm)
        tagged = src.chance(50)
        ps = [hist.gen_part(src, dims, box, nt, src.pick(["single", None, "single", "multi"]), tagged=tagged) for _ in range(src.draw(2, 4))]
        ds, st, steps = [], [], []
        seed = src.draw(1, 100000)
        for d in range(src.draw(1, 3)):
            gl = bool(dims > 1 and src.chance(15))
            ds.append({"ty": src.pick(["int32", "double", "char", "int64", "uchar", "uint32", "uint64", "float"]), "gen": gl,
                       "am": 1 if gl else src.pick([0, 1, 2]), "track": True})
            st.append({"cur": None, "curres": None, "act": None, "res": set(), "dead": False})
        nres = 0

        def look():
            k = len(steps)
            steps.append(["raw", "astat a%d" % k])
            for d, s in enumerate(st):
                if not s["dead"]:
                    steps.append(["raw", "dstat %d s%d.%d" % (d, k, d)])
                    steps.append(["raw", "dastat %d s%d.%d" % (d, k, d)])
                    if s["cur"] is not None:
                        steps.append(["raw", "maps %d m%d.%d" % (d, k, d)])
                        steps.append(["raw", "addrs %d d%d.%d %d" % (d, k, d, ds[d]["am"])])

        def end(d):
            s = st[d]
            if s["res"] and s["curres"] is not None or src.chance(30):
                if s["cur"] is not None:
                    steps.append(["raw", "switch %d -1 0 0" % d])
                    steps.append(["gone", d])
                    s["cur"] = s["curres"] = None
            for r in sorted(s["res"]):
                steps.append(["raw", "resfree %d" % r])
            s["res"] = set()
            steps.append(["raw", "dfree %d" % d])
            s["dead"] = True
            look()

        for _ in range(src.draw(3, 10)):
            al = [d for d in range(len(ds)) if not st[d]["dead"]]
            if not al:
                break
            d = src.pick(al)
            s = st[d]
            ty = ds[d]["ty"]
            free = [r for r in s["res"] if r != s["curres"]]
            w = src.weighted((9, "sw"), (3 if len(s["res"]) < 2 and tagged else 0, "res"), (1 if s["res"] else 0, "use"), (2 if free else 0, "free"),
                             (1 if s["cur"] is not None and dims == 1 else 0, "swf"), (2 if s["cur"] is not None else 0, "no"), (3, "prov"), (1, "end"))
            if w == "res":
                sub = src.subset(list(range(len(ps))), 60, 1)
                steps.append(["res", nres, d, sub])
                s["res"].add(nres)
                if src.chance(80):
                    steps.append(["use", d, nres])
                    s["act"] = nres
                nres += 1
                look()
            elif w == "use":
                s["act"] = src.pick(sorted(s["res"]) + [-1])
                steps.append(["use", d, s["act"]])
            elif w == "free":
                r = src.pick(sorted(free))
                steps.append(["raw", "resfree %d" % r])
                s["res"].remove(r)
                if s["act"] == r:
                    s["act"] = None
                look()
            elif w == "no":
                steps.append(["raw", "switch %d -1 0 0" % d])
                steps.append(["gone", d])
                s["cur"] = s["curres"] = None
                look()
            elif w == "end":
                end(d)
            else:
                p = src.draw(0, len(ps) - 1) if w != "swf" else s["cur"]
                if s["cur"] is None:
                    flow, op = NONE, RO_NONE
                else:
                    flow, op = edge(src, dims, box, nt, ps, s["cur"], p, ty)
                    if src.chance(80):
                        seed += 1
                        mode = 0 if op == RO_NONE or ty in hist.INTTYPES else 2
                        steps.append(["fill", d, seed, mode, None, 1 if op != RO_NONE else 0])
                if w == "prov":
                    pv = len(steps)
                    keep = src.chance(50)        # used further on, large enough for everything
                    steps.append(["raw", "provide %d %d" % (d, TYPES[ty][0] * box_size(box) if keep else -p - 1), True])
                steps.append(["sw", d, p, flow, op] if w != "swf" else ["swf", d, flow, op])
                s["cur"] = p
                s["curres"] = s["act"] if s["act"] in s["res"] and p in next(x[3] for x in steps if x[0] == "res" and x[1] == s["act"]) else None
                if w == "prov":
                    # not used in a reservation
                    steps[pv][2] = s["curres"] is None
                    if not keep:
                        steps.append(["raw", "provide %d 0" % d])
                look()
        for d in range(len(ds)):
            if not st[d]["dead"] and src.chance(85):
                end(d)
        return {"n": n, "head": gen_sim_head(src) + gen_mpi_env(src), "dims": dims, "box": box, "rm": rm, "parts": ps,
                "datas": ds, "steps": steps}

    def evaluate(self, case, eng):
        res = eng.run(hist.render(case))
        res.require_ok()
        mem = [r for r in range(case["n"]) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(case, res, mem, own)
        cnt = {"allocs": 0, "frees": 0, "mappings": 0, "addresses": 0}
        cl = set(hist.classes(case, own, m))
        ok = False
        for tid, rank in enumerate(mem):
            c = self.memory(case, res.ranks[rank], cl)
            ok = ok or (c["allocs"] > 1 and c["frees"] > 0 and c["mappings"] > 0)
            for k in c:
                cnt[k] += c[k]
        return {"nontrivial": ok, "classes": sorted(cl), "counts": cnt}

    def memory(self, case, lines, cl):
        cnt = {"allocs": 0, "frees": 0, "mappings": 0, "addresses": 0}
        # one pass over the output, in order
        prov = {}            # container -> provided regions
        dead = set()
        live = []
        maps = {}            # container -> [(start, cap)] of current look
        elems = []
        steps = iter([s for s in case["steps"]])
        out = [l for l in lines if l.split(" ")[0] in ("ALLOC", "STAT", "DALLOC", "MAPS", "M", "ADDRS", "A", "PROVIDED", "NOMAP")]
        pos = 0
        hulls = []
        must = {}            # step of "maps" -> address which had to be used for mapping 0
        for k, st in enumerate(case["steps"]):
            if st[0] != "raw":
                continue
            w = st[1].split()
            what = "step %d %s: " % (k, st[1])
            if w[0] == "dfree":
                dead.add(int(w[1]))
                cl.add("container-freed")
            elif w[0] == "resfree":
                cl.add("reservation-freed")
            elif w[0] == "provide" and w[2] != "0":
                # (only if the process has a mapping)
                if pos < len(out) and out[pos].startswith("PROVIDED"):
                    x = out[pos].split()
                    prov.setdefault(int(x[1]), []).append((int(x[2]), int(x[3])))
                    cl.add("provided")
                    pos += 1
                    q = [j for j in range(k, len(case["steps"])) if case["steps"][j][0] == "raw" and case["steps"][j][1].startswith("maps %s " % w[1])]
                    if q and st[2]:
                        must[q[0]] = int(x[2])
            elif w[0] == "astat":
                self.overlap(elems, hulls, what)
                maps, elems, hulls = {}, [], []
                l = out[pos].split()
                pos += 1
                if l[0] != "ALLOC" or l[1] != w[1]:
                    raise Fail(what + "output " + " ".join(l))
                if l[7] != "0":
                    raise Fail(what + "a block was returned which is not allocated, or for another container")
                live = [tuple(int(y) for y in x.split(":")) for x in l[l.index("live") + 1:]]
                cnt["allocs"], cnt["frees"] = int(l[3]), int(l[5])
                for p, n, d in live:
                    if d in dead:
                        raise Fail(what + "%d bytes still allocated for container %d which is freed" % (n, d))
                if int(l[9]) != sum(x[1] for x in live) or int(l[3]) - int(l[5]) != len(live):
                    raise Fail(what + "allocator")
            elif w[0] == "dstat":
                a = out[pos]
                b = out[pos + 1]
                pos += 2
                if not a.startswith("STAT " + w[2]) or not b.startswith("DALLOC " + w[2]):
                    raise Fail(what + "output " + a)
                a, b = [{x.split("=")[0]: int(x.split("=")[1]) for x in y.split()[2:]} for y in (a, b)]
                # statistics also count communication buffers, which exist only during a switch
                x = {q: a[q] - b[q] for q in b}
                if x["curB"] or x["malloc"] != x["free"] or x["mallocB"] != x["freedB"] or min(x.values()) < 0 \
                        or (case["n"] == 1 and any(x.values())):
                    raise Fail(what + "container statistics %s do not match allocator calls %s" % ({q: a[q] for q in b}, b))
            elif w[0] == "maps":
                d = int(w[1])
                l = out[pos].split()
                if l[0] != "MAPS" or l[1] != w[2]:
                    raise Fail(what + "output " + " ".join(l))
                pos += 1
                maps[d] = []
                es = TYPES[case["datas"][d]["ty"]][0]
                for j in range(int(l[2])):
                    x = out[pos].split()
                    pos += 1
                    if x[1] == "null":
                        raise Fail(what + "mapping %d missing" % j)
                    c, base, start, cap = int(x[5]), int(x[7]), int(x[9]), int(x[11])
                    req = [int(v) for v in x[13:]]
                    if c != box_size(req) or cap < c * es:
                        raise Fail(what + "mapping %d has %d bytes for %d elements of range %s" % (j, cap, c, req))
                    bl = [x for x in live if x[2] == d and x[0] <= start and start + cap <= x[0] + x[1]]
                    pr = [x for x in prov.get(d, []) if x[0] <= start and start + cap <= x[0] + x[1]]
                    if len(bl) + len(pr) != 1:
                        raise Fail(what + "mapping %d [%d,+%d] is in %d allocated and %d provided blocks" % (j, start, cap, len(bl), len(pr)))
                    if not start <= base < start + cap:
                        raise Fail(what + "mapping %d: base outside of memory" % j)
                    if pr:
                        cl.add("in-provided")
                    elif cap > c * es:
                        cl.add("larger-block")
                    if j == 0 and k in must and must[k] != start:
                        raise Fail(what + "memory provided at %s was not used for this switch, mapping 0 is at %d" % (must[k], start))
                    maps[d].append((start, cap, d, j))
                    if case["dims"] == 1:
                        # whole mapping, including indexes between owned ranges
                        hulls.append((base, c * es, d, j))
                    cnt["mappings"] += 1
            elif w[0] == "addrs":
                d = int(w[1])
                l = out[pos].split()
                if l[0] != "ADDRS" or l[1] != w[2]:
                    raise Fail(what + "output " + " ".join(l))
                pos += 1
                es = TYPES[case["datas"][d]["ty"]][0]
                while pos < len(out) and out[pos].startswith("A "):
                    x = [int(v) for v in out[pos].split()[1:]]
                    pos += 1
                    s = maps[d][x[0]]
                    if not s[0] <= x[4] <= s[0] + s[1] - es:
                        raise Fail(what + "index %s of mapping %d is outside of its memory" % (x[1:4], x[0]))
                    elems.append((x[4], es, d, x[0], tuple(x[1:4])))
                    cnt["addresses"] += 1
        self.overlap(elems, hulls, "end: ")
        return cnt

    def overlap(self, elems, hulls, what):
        for l in (sorted(hulls), sorted(set(elems))):
            for a, b in zip(l, l[1:]):
                if a[0] + a[1] > b[0]:
                    raise Fail(what + "memory of %s and %s overlaps (container, mapping, index)" % (a[2:], b[2:]))

    def summary(self, case):
        return hist.render(case)


CHECK = C10()
