"""C21: spaces and locations synchronised between processes arrive exactly."""
from ..core import Check, Discard, Fail
from ..model import *
from .c20 import Store, sync

BIG = 1 << 61


def gen_border(src):
    w = src.draw(0, 9)
    if w < 4:
        return src.draw(0, 20)
    if w < 7:
        return src.draw(-30, 30)
    if w < 8:
        return (1 << src.draw(28, 34)) + src.draw(-2, 2)
    v = src.weighted((1, src.pick([BIG, BIG - 1, 10 ** 18, 1 << 60])), (1, src.draw(1 << 50, BIG)))
    return -v if src.chance(60) else v


def gen_sbox(src, dims, small):
    box = []
    for _ in range(dims):
        if small:
            a = src.draw(-4, 4)
            b = a + src.draw(1, 7)
        else:
            a, b = gen_border(src), gen_border(src)
            if a == b:
                b += 1
        box += [min(a, b), max(a, b)]
    return box


def boxs(b):
    return " ".join(map(str, b))


class C21(Check):
    id = "C21"
    rule = "spaces of at least two processes or a changed space synchronised, or locations synchronised in a shrunk world"
    quick, thorough = 5000, 50000
    technique = ("property-based testing: generated histories of publishing, changing, synchronising and using spaces, and synchronising locations, over the simulated "
                 "MPI against a dictionary model (dimensions, borders, names, sizes; received spaces used for containers); shrinking")
    assumptions = ["processes changing the same published space between two synchronisations change it equally", "absolute values of borders up to 2^61"]

    def generate(self, src, tier):
        n = src.weighted((1, 1), (5, 2), (5, src.draw(2, 5)), (1, src.draw(2, 8)))
        names = ["sp%d" % i for i in range(src.draw(1, 3))] + (["long_name_" + "x" * 80] if src.chance(10) else [])
        small = src.chance(40)
        dims = {nm: src.draw(1, 3) for nm in names}
        st = [Store() for _ in range(n)]
        members = list(range(n))
        ops = []
        for _ in range(src.draw(2, 7) + src.draw(0, 6)):
            op = src.weighted((6, "new"), (5, "change"), (6, "sync"), (3, "get"), (2, "loc"), (1, "getloc"), (1 if n > 1 else 0, "shrink"), (2 if small else 0, "use"))
            nm = src.pick(names)
            who = [src.pick(members)] if src.chance(70) else src.subset(members, 60, 1)
            o = None
            if op in ("new", "change"):
                have = [m for m in who if nm in st[m].e]
                who = have if op == "change" else [m for m in who if m not in have]
                if not who:
                    continue
                box = gen_sbox(src, dims[nm], small)
                # changed by others in this interval: all have to agree
                p = [m for m in members if nm in st[m].pend]
                if p and (set(p) != set(who)):
                    box = st[p[0]].pend[nm][1]
                o = [op, who, nm, dims[nm], box]
            elif op == "shrink":
                if len(members) > 1:
                    rm = src.subset(list(range(len(members))), 40, 1)
                    if len(rm) == len(members):
                        rm.pop()
                    o = ["shrink", rm]
                    members = [m for j, m in enumerate(members) if j not in rm]
            elif op == "use":
                if all(nm in st[m].e and st[m].e[nm] == st[members[0]].e.get(nm) for m in members):
                    o = ["use", nm, src.pick(["all", "block", "master"])]
            elif op == "getloc":
                o = [op, src.draw(0, 1)]
            else:
                o = [op]
            if o:
                ops.append(o)
                self.apply(st, o, members)
        ops.append(["sync"])
        self.apply(st, ops[-1], members)
        if small:
            for nm in names:
                if nm in st[members[0]].e:
                    ops.append(["use", nm, src.pick(["all", "block", "master"])])
        if src.chance(60):
            ops.append(["loc"])
        return {"n": n, "names": names, "ops": ops, "head": gen_sim_head(src)}

    def apply(self, st, o, members):
        if o[0] in ("new", "change"):
            for m in o[1]:
                if (o[2] in st[m].e) != (o[0] == "change"):
                    raise Discard("space known/unknown")
                st[m].set(o[2], (o[3], o[4]))
        elif o[0] == "sync":
            r = sync([st[m] for m in members])
            if isinstance(r, str):
                raise Discard("conflict")

    def summary(self, case):
        n = case["n"]
        s = Script(n, "mpi")
        s.head += case["head"]
        s.add("world 0")
        members = list(range(n))
        h = {nm: i for i, nm in enumerate(case["names"])}
        st = [Store() for _ in range(n)]
        g = u = 0
        k = len(h)
        for i, o in enumerate(case["ops"]):
            s.at(members, "echo O%d" % i)
            if o[0] in ("new", "change") and not set(o[1]) <= set(members):
                raise Discard("no member")
            if o[0] == "new":
                for m in o[1]:
                    s.at([m], "space %d %d %s" % (h[o[2]], o[3], boxs(o[4])))
                    s.at([m], "spname %d %s" % (h[o[2]], o[2]))
                    s.at([m], "spset %d" % h[o[2]])
            elif o[0] == "change":
                for m in o[1]:
                    s.at([m], "spget %d %s" % (h[o[2]], o[2]))
                    s.at([m], "chspace %d %d %s" % (h[o[2]], o[3], boxs(o[4])))
                    s.at([m], "dumps %d" % h[o[2]])
            elif o[0] in ("sync", "get"):
                if o[0] == "sync":
                    s.at(members, "spsync")
                for nm in case["names"] + ["nospace"]:
                    s.at(members, "spget %d %s" % (h.get(nm, 50), nm))
            elif o[0] == "loc":
                s.at(members, "syncloc")
                s.at(members, "dumploc %d" % g)
            elif o[0] == "getloc":
                # without synchronising
                s.at(members, "dumploc %d" % (g if o[1] else 0))
            elif o[0] == "shrink":
                rm = [j for j in o[1] if j < len(members)]
                g += 1
                s.at(members, "shrink %d %d %d %s" % (g, g - 1, len(rm), " ".join(map(str, rm))))
                s.at(members, "setworld %d" % g)
                members = [m for j, m in enumerate(members) if j not in rm]
                if not members:
                    raise Discard("no process left")
            elif o[0] == "use":
                if not all(o[1] in x.e and x.e[o[1]] == st[members[0]].e.get(o[1]) for x in (st[m] for m in members)):
                    raise Discard("not known everywhere")
                a, b = 20 + 3 * u, 21 + 3 * u
                for c in ("spget %d %s" % (h[o[1]], o[1]),
                          "pr %d %s" % (a, o[2] if o[2] != "block" else "block 0 1 0 none none"), "pr %d all" % b,
                          "part %d %d %d %d -1 0" % (a, g, h[o[1]], a), "part %d %d %d %d -1 0" % (b, g, h[o[1]], b),
                          "data %d %d int64" % (u, h[o[1]]), "switch %d %d 0 0" % (u, a), "fill %d %d 0 0 0" % (u, 7 + u)) + \
                        (("switch %d %d 1 0" % (u, b), "dump %d u 0" % u) if o[2] != "all" or len(members) == 1 else ("dump %d u 0" % u,)):
                    s.at(members, c)
                u += 1
            self.apply(st, o, members)
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        n = case["n"]
        res = eng.run(self.summary(case))
        res.require_ok()
        st = [Store() for _ in range(n)]
        members = list(range(n))
        segs = []
        for p in range(n):
            seg, cur = {}, None
            for l in res.ranks[p]:
                if l.startswith("ECHO O"):
                    cur = int(l[6:])
                    seg[cur] = []
                elif cur is not None:
                    seg[cur].append(l)
            segs.append(seg)
        my = {}
        known = set()       # locations synchronised
        cl = set()
        nontriv = False
        u = 0
        for i, o in enumerate(case["ops"]):
            if o[0] == "sync":
                ch = [m for m in members if st[m].pend]
                if len(ch) > 1:
                    nontriv = True
                    cl.add("two-publishers")
                if any(k in st[m].e and st[m].e[k] != v for c in ch for k, v in st[c].pend.items() for m in members):
                    nontriv = True
                    cl.add("changed")
                if any(max(map(abs, v[1])) > 1 << 40 for c in ch for v in st[c].pend.values()):
                    cl.add("large-borders")
                cl |= {"%dd" % v[0] for c in ch for v in st[c].pend.values()}
            self.apply(st, o, members)
            for p in members:
                L = segs[p].get(i)
                what = "process %d, operation %d %s" % (p, i, o)
                if L is None:
                    raise Fail("%s: not executed" % what)
                if o[0] == "change" and p in o[1]:
                    want = "SPACE %d %d %s" % (o[3], self.size(o[4]), boxs(o[4]))
                    if L[-1].split() != want.split():
                        raise Fail("%s: %s, expected %s" % (what, L[-1], want))
                elif o[0] in ("sync", "get"):
                    want = []
                    for nm in case["names"] + ["nospace"]:
                        e = st[p].e.get(nm)
                        want.append("SPGET %s 0" % nm if e is None else "SPGET %s 1 %d %s %d %s" % (nm, e[0], nm, self.size(e[1]), boxs(e[1])))
                    got = [" ".join(l.split()) for l in L]
                    if got != want:
                        d = [(a, b) for a, b in zip(got, want) if a != b]
                        raise Fail("%s: (found, expected) %s" % (what, d or (got, want)))
                elif o[0] == "loc":
                    f = L[0].split()
                    my[p] = f[2]
                elif o[0] == "use":
                    dims, box = st[p].e[o[1]]
                    dump = parse_dump(L, "u", "int64", dims)
                    if dump is None:
                        raise Fail("%s: no dump: %s" % (what, L[:5]))
                    vals = {}
                    for _, _, b, v in dump:
                        vals.update(zip(box_idx(b), v))
                    want = {ix: val("int64", 7 + u, ix) for ix in box_idx(box)}
                    if vals != want:
                        d = [(ix, vals.get(ix), want.get(ix)) for ix in sorted(set(vals) | set(want)) if vals.get(ix) != want.get(ix)]
                        raise Fail("%s: container on received space: (index, found, expected) %s" % (what, d[:4]))
                    cl.add("used")
            if o[0] == "use":
                u += 1
            if o[0] == "getloc":
                for p in members:
                    f = segs[p][i][0].split()
                    want = [my[m] if m in known else "(null)" for m in (members if o[1] else range(n))]
                    if f[4:] != want:
                        raise Fail("process %d, operation %d: locations %s, expected %s" % (p, i, f[4:], want))
                cl.add("locations-kept" if known else "locations-unknown")
            if o[0] == "loc":
                known |= set(members)
                if len({my[p] for p in members}) != len(members):
                    raise Fail("harness: locations not unique %s" % my)
                for p in members:
                    f = segs[p][i][0].split()
                    if f[4:] != [my[m] for m in members]:
                        raise Fail("process %d, operation %d: locations %s, expected %s" % (p, i, f[4:], [my[m] for m in members]))
                cl.add("locations")
                if len(members) < n:
                    nontriv = True
                    cl.add("locations-shrunk")
            if o[0] == "shrink":
                members = [m for j, m in enumerate(members) if j not in o[1]]
        return {"nontrivial": nontriv, "classes": sorted(cl), "counts": {}}

    def size(self, b):
        s = 1
        for x, y in zip(b[::2], b[1::2]):
            s *= y - x
        return s % (1 << 64)


CHECK = C21()
