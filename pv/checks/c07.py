from ..core import Check, Fail
from ..model import *
from .. import hist
from .c06 import edge


def alloc_line(lines, label):
    for l in lines:
        if l.startswith("ALLOC %s " % label):
            w = l.split()
            live = [tuple(int(y) for y in x.split(":")) for x in w[w.index("live") + 1:]]
            return {"allocs": int(w[3]), "frees": int(w[5]), "err": int(w[7]), "cur": int(w[9]), "live": live}
    raise Fail("no allocator statistics for %s" % label)


def stat_line(lines, label):
    for l in lines:
        if l.startswith("STAT %s " % label):
            return {k: int(v) for k, v in (x.split("=") for x in l.split()[2:])}
    raise Fail("no container statistics for %s" % label)


def addr_block(lines, label):
    """[(mapNo, idx, addr(access), addr(offset), addr(index))] in order of own ranges"""
    for k, l in enumerate(lines):
        if l.startswith("ADDRS %s " % label):
            out = []
            for m in lines[k + 1:]:
                w = m.split()
                if w[0] != "A":
                    if w[0] == "NOMAP":
                        raise Fail("no mapping for owned range")
                    break
                out.append((int(w[1]), (int(w[2]), int(w[3]), int(w[4])), int(w[5]), int(w[6]), int(w[7])))
            return out
    raise Fail("no addresses for %s" % label)


class C07(Check):
    id = "C07"
    rule = "a switch between two reserved partitionings moved, kept or reduced data, or a reservation was freed after use"
    quick, thorough = 5000, 60000
    technique = ("property-based testing: generated histories of reservations, switches and releases compared with a value model without reservations, "
                 "with a tracking allocator and address checks; shrinking")
    assumptions = ["partitionings in a reservation use tags > 0 if a process has several mappings, and belong to one group",
                   "a reservation is freed only when its mappings are not in use", "reductions only in 1D (MPI backend)"]

    def generate(self, src, tier):
        n = src.draw(1, 5 if tier == "quick" else 8)
        dims = src.weighted((6, 1), (3, 2), (2, 3))
        box = gen_box(src, dims, {1: 30, 2: 7, 3: 4}[dims])
        rm = []
        if n > 1 and src.chance(15):
            rm = src.subset(list(range(n)), 30)[:n - 1]
        nt = n - len(rm)
        nr = src.draw(2, 4)
        ps = [hist.gen_part(src, dims, box, nt, src.pick(["single", None, "single", "multi"]), tagged=True) for _ in range(nr)]
        if src.chance(40):
            ps.append(hist.gen_part(src, dims, box, nt, "single"))
        ds, st = [], []
        steps = []
        seed = src.draw(1, 100000)
        for d in range(src.weighted((3, 1), (1, 2))):
            gl = bool(dims > 1 and src.chance(15))
            ds.append({"ty": src.pick(["int32", "double", "char", "int64", "uchar", "uint32", "uint64", "float"]), "gen": gl,
                       "am": 1 if gl else src.pick([0, 1, 2]), "track": True})
            st.append({"cur": None, "curres": None, "act": None, "res": {}})
        nres = 0
        k = 0

        def astat():
            nonlocal k
            steps.append(["raw", "astat a%d" % len(steps)])

        for _ in range(src.draw(4, 14)):
            d = src.draw(0, len(ds) - 1)
            s = st[d]
            free = [r for r in s["res"] if r != s["curres"]]
            w = src.weighted((8, "sw"), (3 if len(s["res"]) < 3 else 0, "new"), (2 if s["res"] else 0, "use"), (2 if free else 0, "free"),
                             (1 if s["cur"] is not None and dims == 1 else 0, "swf"))
            ty = ds[d]["ty"]
            if w == "new" or (w == "sw" and not s["res"] and nres == 0):
                sub = src.subset(list(range(nr)), 60, 1)
                steps.append(["res", nres, d, sub])
                s["res"][nres] = sub
                astat()
                if src.chance(80):
                    steps.append(["use", d, nres])
                    s["act"] = nres
                nres += 1
            elif w == "use":
                r = src.pick(sorted(s["res"]))
                steps.append(["use", d, r])
                s["act"] = r
            elif w == "free":
                r = src.pick(sorted(free))
                steps.append(["raw", "resfree %d" % r])
                astat()
                del s["res"][r]
                if s["act"] == r:
                    s["act"] = None
            elif w in ("sw", "swf"):
                p = src.draw(0, len(ps) - 1) if w == "sw" else s["cur"]
                if s["cur"] is None:
                    flow, op = NONE, RO_NONE
                else:
                    flow, op = edge(src, dims, box, nt, ps, s["cur"], p, ty)
                if s["cur"] is not None and src.chance(85):
                    seed += 1
                    mode = 0 if op == RO_NONE or ty in hist.INTTYPES else 2
                    steps.append(["fill", d, seed, mode, hist.gen_subbox(src, box) if src.chance(15) else None, 1 if op != RO_NONE else 0])
                if w == "sw":
                    steps.append(["sw", d, p, flow, op])
                    s["cur"] = p
                    s["curres"] = s["act"] if s["act"] is not None and p in s["res"].get(s["act"], []) else None
                else:
                    steps.append(["swf", d, flow, op])
                    s["curres"] = s["act"] if s["act"] is not None and p in s["res"].get(s["act"], []) else None
                astat()
                steps.append(["raw", "addrs %d d%d %d" % (d, len(steps), ds[d]["am"])])
        for d, s in enumerate(st):
            if src.chance(60) and s["res"]:
                # out of the reservation, then free everything
                if s["curres"] is not None:
                    if len(ps) > nr:
                        p = nr
                        a = [PRESERVE, RO_NONE] if hist.preservable(dims, box, ps[s["cur"]], ps[p]) else [NONE, RO_NONE]
                        seed += 1
                        steps.append(["fill", d, seed, 0, None, 0])
                        steps.append(["sw", d, p] + a)
                        s["cur"] = p
                        s["curres"] = None
                    else:
                        steps.append(["raw", "switch %d -1 0 0" % d])
                        steps.append(["gone", d])
                        s["cur"] = s["curres"] = None
                    astat()
                for r in sorted(s["res"]):
                    steps.append(["raw", "resfree %d" % r])
                    astat()
        for d, s in enumerate(st):
            if s["cur"] is not None or True:
                steps.append(["raw", "dstat %d e%d" % (d, d)])
        return {"n": n, "head": gen_sim_head(src) + gen_mpi_env(src), "dims": dims, "box": box, "rm": rm, "parts": ps,
                "datas": ds, "steps": steps}

    def evaluate(self, case, eng):
        res = eng.run(hist.render(case))
        res.require_ok()
        mem = [r for r in range(case["n"]) if r not in case["rm"]]
        own = hist.check_parts(case, res, mem)
        m = hist.run_model(case, res, mem, own)
        inres = freed = 0
        for tid, rank in enumerate(mem):
            a, b = self.memory(case, res.ranks[rank], own, tid)
            inres = max(inres, a)
            freed = max(freed, b)
        c = hist.classes(case, own, m)
        if inres:
            c.append("switch-in-reservation")
        if freed:
            c.append("reservation-freed")
        return {"nontrivial": (inres > 0 and (m.moved + m.kept + m.reduced) > 0) or freed > 0, "classes": c,
                "counts": {"in-reservation": inres, "freed": freed, "moved": m.moved, "kept": m.kept, "reduced": m.reduced}}

    def memory(self, case, lines, own, tid):
        """allocations and addresses of one process"""
        prev = {"allocs": 0, "frees": 0, "err": 0, "cur": 0, "live": []}
        parts = {}                  # r -> list of partitionings
        blocks = {}                 # r -> allocated blocks
        act, cur, curres = {}, {}, {}
        addr = {}                   # (r, tag, index) -> address
        elem = {}
        inres = freed = 0
        ty = case["datas"]
        for k, st in enumerate(case["steps"]):
            what = "step %d %s, task %d" % (k, " ".join(map(str, st)), tid)
            if st[0] == "raw" and st[1].startswith("astat"):
                a = alloc_line(lines, st[1].split()[1])
                if a["err"]:
                    raise Fail("%s: memory freed that is not allocated (or twice)" % what)
                q = case["steps"][k - 1]
                if q[0] in ("use", "gone"):
                    q = case["steps"][k - 2]
                if q[0] == "res":
                    r, d, ps = q[1], q[2], q[3]
                    blocks[r] = [x for x in a["live"] if x not in prev["live"]]
                    if [x for x in prev["live"] if x not in a["live"]]:
                        raise Fail("%s: reservation freed other memory" % what)
                    # required: per tag the bounding box over all partitionings
                    bb = {}
                    for p in ps:
                        for _, tag, b in own[p][tid]:
                            o = bb.get(tag)
                            if o is None:
                                bb[tag] = list(b)
                            else:
                                for j in range(0, len(b), 2):
                                    o[j], o[j + 1] = min(o[j], b[j]), max(o[j + 1], b[j + 1])
                    es = TYPES[ty[d]["ty"]][0]
                    want = sorted(box_size(b) * es for b in bb.values())
                    if len(blocks[r]) != len(want) or any(x[1] < w for x, w in zip(sorted(blocks[r], key=lambda x: x[1]), want)):
                        raise Fail("%s: reservation allocated %s bytes, needs %s" % (what, [x[1] for x in blocks[r]], want))
                elif q[0] in ("sw", "swf"):
                    d = q[1]
                    if curres.get(d) is not None and (a["allocs"] != prev["allocs"]):
                        raise Fail("%s: switch to a reserved partitioning allocated memory" % what)
                    for r, bl in blocks.items():
                        if any(b not in a["live"] for b in bl):
                            raise Fail("%s: memory of reservation %d not allocated anymore" % (what, r))
                elif q[0] == "raw" and q[1].startswith("resfree"):
                    r = int(q[1].split()[1])
                    if any(b in a["live"] for b in blocks[r]):
                        raise Fail("%s: freeing reservation %d did not release its memory" % (what, r))
                    if blocks[r]:
                        freed += 1
                    del blocks[r]
                    for key in [x for x in addr if x[0] == r]:
                        del addr[key]
                prev = a
            elif st[0] == "res":
                parts[st[1]] = st[3]
            elif st[0] == "use":
                act[st[1]] = st[2]
            elif st[0] == "raw" and st[1].startswith("resfree"):
                r = int(st[1].split()[1])
                for d in act:
                    if act[d] == r:
                        act[d] = None
                del parts[r]
            elif st[0] == "gone":
                cur[st[1]] = curres[st[1]] = None
            elif st[0] in ("sw", "swf"):
                d = st[1]
                p = st[2] if st[0] == "sw" else cur[d]
                r = act.get(d)
                nr = r if r is not None and p in parts[r] else None
                if nr is not None and curres.get(d) == nr:
                    inres += 1
                cur[d], curres[d] = p, nr
            elif st[0] == "raw" and st[1].startswith("addrs"):
                d = int(st[1].split()[1])
                lst = addr_block(lines, st[1].split()[2])
                tags = {mno: tag for mno, tag, _ in own[cur[d]][tid]}
                live = [x for x in prev["live"]]
                es = TYPES[ty[d]["ty"]][0]
                mode = ty[d]["am"]
                hit = None
                for v in lst:
                    x = v[2 + mode]
                    if hit is None or not hit[0] <= x <= hit[0] + hit[1] - es:
                        hit = next((b for b in live if b[0] <= x <= b[0] + b[1] - es), None)
                        if hit is None:
                            raise Fail("%s: address of index %s is not in allocated memory" % (what, v[1]))
                    r = curres[d]
                    if r is not None:
                        if hit not in blocks[r]:
                            raise Fail("%s: index %s is not in memory of the reservation" % (what, v[1]))
                        key = (r, tags[v[0]], v[1])
                        if addr.setdefault(key, x) != x:
                            raise Fail("%s: index %s with tag %d changed its address within reservation %d" % (what, v[1], tags[v[0]], r))
            elif st[0] == "raw" and st[1].startswith("dstat"):
                if len(case["datas"]) == 1:
                    s = stat_line(lines, st[1].split()[2])
                    if s["curB"] != prev["cur"] and prev["allocs"]:
                        raise Fail("%s: container reports %d bytes allocated, allocator %d" % (what, s["curB"], prev["cur"]))
        return inres, freed

    def summary(self, case):
        return hist.render(case)


CHECK = C07()
