from ..core import Check, Fail
from ..model import *
from .. import hist


def hull(boxes):
    r = list(boxes[0])
    for b in boxes[1:]:
        for k in range(0, len(r), 2):
            r[k] = min(r[k], b[k])
            r[k + 1] = max(r[k + 1], b[k + 1])
    return r


def subbox(src, b):
    """non-empty box within b"""
    r = []
    for k in range(0, len(b), 2):
        w = src.weighted((3, 0), (3, 1), (1, 2))
        if w == 0:
            r += [b[k], b[k + 1]]
        elif w == 1:
            f = src.draw(b[k], b[k + 1] - 1)
            r += [f, src.draw(f + 1, b[k + 1])]
        else:
            f = src.draw(b[k], b[k + 1] - 1)
            r += [f, f + 1]
    return r


class C08(Check):
    id = "C08"
    rule = "a range of at least 2 elements was packed or unpacked in several chunks, or copied between two mappings"
    quick, thorough = 8000, 80000
    technique = ("property-based testing: generated layouts, mappings (own, embedded in larger allocations, reserved, user-defined layout) and pack/unpack/copy "
                 "operations compared with a byte-level model of the complete memory of all mappings; shrinking")
    assumptions = ["packed, unpacked and copied ranges lie within the mapping's required range", "user-defined layouts: dense permutation (reversed dimension order)"]

    def generate(self, src, tier):
        big = tier == "thorough" and src.chance(20)
        dims = src.weighted((4, 1), (4, 2), (4, 3))
        box = gen_box(src, dims, {1: 120, 2: 20, 3: 8}[dims] if big else {1: 30, 2: 8, 3: 5}[dims])
        ty = src.pick(["int32", "double", "char", "int64", "float", "uint32", "uchar", "uint64", "t:1", "t:3", "t:12", "t:17"])
        c = {"dims": dims, "box": box, "ty": ty, "env": src.weighted((6, 0), (1, 1)), "lay": [], "data": [], "ops": []}
        # plain layouts
        for _ in range(src.draw(0, 2)):
            rs = [b for b in tiling(src, subbox(src, box), src.draw(1, 6))]
            rs = src.shuffle(rs)[:src.draw(1, len(rs))]
            if src.chance(20):
                rs.append(subbox(src, box))
            probes = []
            for _ in range(src.draw(0, 6)):
                b = src.pick(rs)
                probes.append([src.draw(b[2 * k] - 1, b[2 * k + 1]) for k in range(dims)])
            c["lay"].append([rs, probes])
        # containers
        maps = []
        for d in range(src.draw(1, 3)):
            gl = bool(dims > 1 and src.chance(30))
            seq = []
            resv = src.chance(20)
            for k in range(src.weighted((4, 1), (3, 2), (1, 3))):
                b = list(box) if (k == 0 and src.chance(60)) else subbox(src, box)
                rs = [(0, 0, x) for x in src.shuffle(tiling(src, b, src.draw(1, 5)))]
                rs = rs[:src.draw(1, len(rs))]
                rs, how = gen_tags(src, rs, src.draw(1, 2) if resv else None)
                p = CustomP(dims, rs, PF_NOCOVER | (PF_GROUP if how else 0))
                seq.append({"pr": p.cmd(0).split(" ", 2)[2], "ranges": p.ranges, "flags": p.flags})
            c["data"].append({"gen": gl, "seq": seq, "res": resv})
            n = {}
            for t, m, g, _, b in CustomP(dims, [tuple(x) for x in seq[-1]["ranges"]], seq[-1]["flags"]).normal():
                n.setdefault(m, []).append(b)
            for m in sorted(n):
                maps.append((d, m, hull(n[m])))
        es = int(ty[2:]) if ty[0] == "t" else TYPES[ty][0]
        for _ in range(src.draw(1, 8)):
            a = src.pick(maps)
            w = src.weighted((3, "lpack"), (3, "lunpack"), (3, "lcopy"))
            if w == "lcopy":
                o = [m for m in maps if m != a and not box_empty(box_and(m[2], a[2]))]
                if not o:
                    w = "lpack"
                else:
                    t = src.pick(o)
                    c["ops"].append(["lcopy", a[0], a[1], t[0], t[1], subbox(src, box_and(a[2], t[2])), src.draw(0, 1)])
                    continue
            b = subbox(src, a[2])
            ch = []
            for _ in range(src.draw(1, 4)):
                e = src.weighted((2, 1), (4, 2), (2, 3))
                e = {1: 1, 2: src.draw(1, 9), 3: src.draw(1, box_size(b) + 1)}[e]
                ch.append(e * es + (src.draw(0, es - 1) if src.chance(30) else 0))
            if src.chance(10):
                ch.append(src.draw(1, es))
            if w == "lpack":
                c["ops"].append(["lpack", a[0], a[1], b, ch])
            else:
                c["ops"].append(["lunpack", a[0], a[1], b, ch, src.draw(1, 10 ** 6)])
        return c

    def summary(self, case):
        s = Script(1, "fake 1")
        dims, ty = case["dims"], case["ty"]
        if case["env"]:
            s.head.append("!env LAIK_LAYOUT_GENERIC 1")
        s.add("space 0 %d %s" % (dims, bs(case["box"])))
        tn = ty
        if ty[0] == "t":
            s.add("type 0 " + ty[2:])
            tn = "t0"
        for rs, pr in case["lay"]:
            s.add("lexlay 0 %d %s %s" % (len(rs), " ".join(bs(b) for b in rs), " ".join(bs(p) for p in pr)))
        np = 0
        es = int(ty[2:]) if ty[0] == "t" else TYPES[ty][0]
        for d, x in enumerate(case["data"]):
            s.add("data %d 0 %s" % (d, tn))
            if x["gen"]:
                s.add("genlayout %d" % d)
            ids = []
            for p in x["seq"]:
                s.add("pr %d %s" % (np, p["pr"]), "part %d 0 0 %d -1 0" % (np, np))
                ids.append(np)
                np += 1
            if x["res"]:
                s.add("res %d %d" % (d, d), *["resadd %d %d" % (d, p) for p in ids])
                s.add("resalloc %d" % d, "resuse %d %d" % (d, d))
            for p in ids:
                s.add("switch %d %d 0 0" % (d, p))
        nm = []
        for d, x in enumerate(case["data"]):
            ms = sorted({m for _, m, _, _, _ in CustomP(dims, [tuple(r) for r in x["seq"][-1]["ranges"]], x["seq"][-1]["flags"]).normal()})
            for m in ms:
                nm.append((d, m))
                s.add("rawset %d %d %d" % (d, m, 1000 + len(nm)), "offs %d %d" % (d, m), "raw %d %d" % (d, m))
        for k, o in enumerate(case["ops"]):
            s.add("echo OP%d" % k)
            if o[0] == "lcopy":
                s.add("lcopy %d %d %d %d %s %d" % (o[1], o[2], o[3], o[4], bs(o[5]), o[6]))
            elif o[0] == "lpack":
                s.add("lpack %d %d %s %d %s" % (o[1], o[2], bs(o[3]), len(o[4]), bs(o[4])))
            else:
                s.add("lunpack %d %d %s %d %d %s" % (o[1], o[2], bs(o[3]), o[5], len(o[4]), bs(o[4])))
            for d, m in nm:
                s.add("raw %d %d" % (d, m))
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        dims, ty = case["dims"], case["ty"]
        res = eng.run(self.summary(case))
        res.require_ok()
        L = iter(res.ranks[0])
        cl = {"dims%d" % dims, ty.split(":")[0] if ty[0] != "t" else "usertype"}
        L = iter([l for l in res.ranks[0] if l.split(" ")[0] in ("LEX", "LM", "LS", "LD", "OFFS", "RAW", "LPACK", "LUNPACK", "ECHO")])
        nxt = lambda p: self.next(L, p)
        for rs, pr in case["lay"]:
            w = nxt("LEX").split()
            if w[2] != str(dims) or w[4] != str(len(rs)) or int(w[6]) != sum(box_size(b) for b in rs):
                raise Fail("layout: dimensions, maps or count wrong: " + " ".join(w))
            for k, b in enumerate(rs):
                a, o = nxt("LM").split(":")
                w = a.split()
                st = [int(x) for x in w[5:]]
                if w[1] != str(k) or w[3] != str(k) or len(st) != dims:
                    raise Fail("layout: map entry " + a)
                seen = set()
                for i, x in zip(box_idx(b), o.split()):
                    off, sec = map(int, x.split("/"))
                    if off in seen or not 0 <= off < box_size(b):
                        raise Fail("layout: offset %d of index %s duplicate or out of bounds" % (off, i))
                    seen.add(off)
                    if off != sum((i[q] - b[2 * q]) * st[q] for q in range(dims)):
                        raise Fail("layout: offset %d of %s does not match strides %s" % (off, i, st))
                    if sec != min(q for q, r in enumerate(rs) if box_has(r, i)):
                        raise Fail("layout: section %d for index %s" % (sec, i))
                if len(seen) != box_size(b):
                    raise Fail("layout: indexes missing")
            for p in pr:
                q = [q for q, r in enumerate(rs) if box_has(r, p)]
                if int(nxt("LS").split()[1]) != (q[0] if q else -1):
                    raise Fail("layout: section for index %s" % p)
            if nxt("LD") != "LD 1":
                raise Fail("no description")
            cl.add("layout")
        mem, off = {}, {}
        order = []
        for d, x in enumerate(case["data"]):
            n = {}
            for t, m, g, _, b in CustomP(dims, [tuple(r) for r in x["seq"][-1]["ranges"]], x["seq"][-1]["flags"]).normal():
                n.setdefault(m, []).append(b)
            for m in sorted(n):
                order.append((d, m))
                a, o = nxt("OFFS").split(":")
                req = [int(v) for v in a.split()[2:]]
                if req != hull(n[m]):
                    raise Fail("mapping %d of container %d is for range %s instead of %s" % (m, d, req, hull(n[m])))
                os_ = [int(v) for v in o.split()]
                off[d, m] = dict(zip(box_idx(req), os_))
                a, v = nxt("RAW").split(":")
                cnt = int(a.split()[2])
                vals = [parse_val(ty, t) for t in v.split()]
                exp = [val(ty, 1000 + len(order), (q,), 77) for q in range(cnt)]
                if vals != exp:
                    raise Fail("memory of mapping %d of container %d not as written" % (m, d))
                mem[d, m] = vals
                if len(set(os_)) != len(os_) or min(os_) < 0 or max(os_) >= cnt or len(os_) != box_size(req):
                    raise Fail("mapping %d of container %d: offsets not distinct or not within %d allocated elements: %s" % (m, d, cnt, os_))
                if cnt > len(os_):
                    cl.add("embedded")
            if x["gen"]:
                cl.add("userlayout")
            if x["res"]:
                cl.add("reserved")
        nontriv = False
        moved = 0
        es = int(ty[2:]) if ty[0] == "t" else TYPES[ty][0]
        for k, o in enumerate(case["ops"]):
            nxt("ECHO OP%d" % k)
            if o[0] == "lcopy":
                a, b = (o[1], o[2]), (o[3], o[4])
                for i in box_idx(o[5]):
                    mem[b][off[b][i]] = mem[a][off[a][i]]
                    moved += 1
                nontriv = nontriv or box_size(o[5]) > 1
                cl.add("copy")
            elif o[0] == "lpack":
                l = nxt("LPACK")
                body, end = l.split(" end ")
                exp = [mem[o[1], o[2]][off[o[1], o[2]][i]] for i in box_idx(o[3])]
                self.chunks(o, body, es, exp, lambda t: parse_val(ty, t))
                if end != "0":
                    raise Fail("packing at end of range gives %s elements" % end)
                moved += len(exp)
                nontriv = nontriv or (len(exp) > 1 and body.count("|") > 1)
                cl.add("pack")
            else:
                l = nxt("LUNPACK")
                body, end = l.split(" end ")
                for i in box_idx(o[3]):
                    mem[o[1], o[2]][off[o[1], o[2]][i]] = val(ty, o[5], i, 0)
                    moved += 1
                cs = [int(x.strip()) for x in body.split("|")[1:]]
                if sum(cs) != box_size(o[3]) or end != "1":
                    raise Fail("unpacked %s of %d elements, at end: %s" % (cs, box_size(o[3]), end))
                nontriv = nontriv or (box_size(o[3]) > 1 and len(cs) > 1)
                cl.add("unpack")
            for dm in order:
                vals = [parse_val(ty, t) for t in nxt("RAW").split(":")[1].split()]
                if vals != mem[dm]:
                    q = [q for q in range(len(vals)) if vals[q] != mem[dm][q]]
                    raise Fail("after operation %d (%s): mapping %d of container %d differs at offsets %s" % (k, o, dm[1], dm[0], q[:8]))
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {"elements": moved}}

    def next(self, L, p):
        l = next(L, None)
        if l is None or not (l + " ").startswith(p + " "):
            raise Fail("unexpected output: %s instead of %s" % (l, p))
        return l

    def chunks(self, o, body, es, exp, pv):
        got = []
        n = len(o[4])
        for k, x in enumerate(body.split("|")[1:]):
            w = x.split()
            v = [pv(t) for t in w[1:]]
            if int(w[0]) != len(v):
                raise Fail("pack count")
            if len(v) != min(o[4][k % n] // es, len(exp) - len(got)):
                raise Fail("buffer of %d bytes: %d elements packed, %d left" % (o[4][k % n], len(v), len(exp) - len(got)))
            got += v
        if got != exp:
            q = [q for q in range(max(len(got), len(exp))) if q >= len(got) or q >= len(exp) or got[q] != exp[q]]
            raise Fail("packed sequence of range %s differs at positions %s of %d" % (o[3], q[:8], len(exp)))


CHECK = C08()
