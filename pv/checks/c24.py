"""C24: processes join and leave only at resize points, consistently for all."""
import re
from ..core import Check, Discard, Fail
from ..model import *
from .. import hist, proc


def gen_pat(src, world, everknown):
    """removal request: regular expression matched with locations "L<id>:<host>:<pid>" """
    w = src.weighted((5, "one"), (3, "set"), (1, "all"), (1, "none"), (1, "alt"), (1, "master"), (1, "bad"))
    c = [l for l in world if l]
    if w in ("one", "set", "alt") and not c:
        w = "none"
    if w == "one":
        return "^L%d:" % src.pick(c) if src.chance(50) else "L%d:" % src.pick(c)
    if w == "set":
        s = [l for l in src.subset(c, 50, 1)]
        if max(s) < 10 and src.chance(50):
            return "L[%s]:" % "".join(map(str, s))
        return "^L(%s):" % "|".join(map(str, s))
    if w == "alt":
        return "^L%d:|^L%d:" % (src.pick(c), src.pick(everknown))
    if w == "all":
        return src.pick([".*", "^L", ":"])
    if w == "master":
        return src.pick(["L0:", "^L0"])
    if w == "bad":
        return src.pick(["[", "(", "*("])
    return "nowhere"


def match(pat, lids):
    try:
        r = re.compile(pat)
    except re.error:
        return set()
    return {l for l in lids if l and r.search("L%d:h:1" % l)}


class C24(Check):
    id = "C24"
    rule = "at least one resize point changed the world, with at least one process staying besides the master or one joining, and data moved to the new world"
    quick, thorough = 1500, 30000
    technique = ("property-based testing (stateful): generated histories of join requests (real processes), removal requests, vanished joiners and resize points with container "
                 "data, key/value stores and locations over the TCP2 backend; world, ids, parent relation, epoch, phase and data compared with a reference model on every process; shrinking")
    assumptions = ["joining processes are known to the master before the resize point (synchronised by the harness)",
                   "every container is switched to the new world after each change", "loopback network; processes do not crash while in the world"]

    def generate(self, src, tier):
        n = src.weighted((2, 1), (4, 2), (4, src.draw(2, 4)), (1, 5))
        dims = src.weighted((6, 1), (2, 2), (1, 3))
        box = gen_box(src, dims, {1: 30, 2: 7, 3: 4}[dims])
        datas = [src.pick(["int32", "double", "char", "int64", "uint32", "float"]) for _ in range(src.weighted((4, 1), (1, 2)))]
        world = list(range(n))
        nxt = n
        spare = src.weighted((4, 0), (1, src.draw(1, 3)))       # started with the others, but not part of the initial world
        rounds = []
        seed = src.draw(1, 10 ** 6)

        def part(w):
            c = gen_single(src, dims, box, len(w), tags=None, holes=dims > 1)
            return {"pr": c.cmd(0).split(" ", 2)[2], "ranges": c.ranges, "flags": c.flags}
        for r in range(src.draw(1, 3) + src.draw(0, 2)):
            rd = {"inner": [], "req": []}
            for _ in range(src.draw(0, 3)):
                k = src.weighted((5, "sw"), (2, "red" if dims == 1 else "sw"), (2, "kvs"), (2, "loc"))
                if k == "sw":
                    rd["inner"].append(["sw", src.draw(0, len(datas) - 1), part(world)])
                elif k == "red":
                    rd["inner"].append(["red", src.draw(0, len(datas) - 1), src.draw(1, 10 ** 6), part(world), hist.gen_ops(src, "double")])
                elif k == "kvs":
                    rd["inner"].append(["kvs", src.draw(1, 99)])
                else:
                    rd["inner"].append(["loc"])
                if k == "sw" and src.chance(80):
                    seed += 1
                    rd["inner"].append(["fill", rd["inner"][-1][1], seed])
            # requests, at a position in the round
            reqs = []
            nj = spare if r == 0 else 0
            if src.chance(85):
                for _ in range(src.weighted((6, 1), (3, 2), (1, 3))):
                    w = src.weighted((6 if nxt + nj < 9 else 0, "join"), (6, "cut"), (1, "vanish"))
                    if w == "join":
                        reqs.append(["join"])
                        nj += 1
                    elif w == "cut":
                        reqs.append(["cut", src.pick(world), gen_pat(src, world, list(range(nxt)))])
                    else:
                        reqs.append(["vanish", src.pick(world), src.weighted((1, "at-once"), (1, "queued"), (1, "late"))])
            rd["req"] = [[src.draw(0, len(rd["inner"]))] + q for q in reqs]
            rd["req"].sort(key=lambda q: q[0])
            gone = set()
            for q in rd["req"]:
                if q[1] == "cut":
                    gone |= match(q[3], world)
            world = [l for l in world if l not in gone] + list(range(nxt, nxt + nj))
            nxt += nj
            rd["phase"] = src.weighted((5, r + 1), (1, src.draw(0, 1000)))
            rd["fin"] = src.chance(70)
            rd["late"] = src.chance(15) and bool(gone)       # same removal requested again before the resize is finished
            rd["new"] = [part(world) for _ in datas]
            rd["flow"] = [src.weighted((9, PRESERVE), (1, NONE)) for _ in datas]
            rounds.append(rd)
        return {"n": n, "dims": dims, "box": box, "datas": datas, "rounds": rounds, "p0": [part(list(range(n))) for _ in datas],
                "bin": src.weighted((2, 1), (2, 0), (2, [0, 1]), (1, [1, 0, 0])), "spare": spare, "seed": src.draw(1, 10 ** 6)}

    # ------------------------------------------------------------ scripts and model in one pass
    def plan(self, case):
        """(number of processes, script lines per LID, expectations per LID: list of (label, kind, data))"""
        n, dims, box = case["n"], case["dims"], case["box"]
        L = {l: ["init tcp2"] for l in range(n)}
        E = {l: [] for l in range(n)}
        st = {"world": list(range(n)), "nxt": n, "np": 0, "lab": 0, "epoch": 0, "phase": 0, "moved": 0, "changed": 0, "kept": 0, "same": {}}
        vals = [{} for _ in case["datas"]]          # per data: {lid: {idx: value}} (known values)
        cur = [None] * len(case["datas"])           # (handle, description)
        cl = set()

        def add(lids, *lines):
            for l in lids:
                L[l] += lines

        def expect(lids, kind, f):
            st["lab"] += 1
            t = "x%d" % st["lab"]
            for l in lids:
                L[l].append("echo " + t)
                E[l].append((t, kind, f(l) if callable(f) else f))
            return t

        def world_check(lids, world, par):
            """dumpw/dumpg, par: list of old world if a change was just done"""
            def f(l):
                tid = world.index(l) if l in world else -1
                w = "WORLD size %d myid %d epoch %d phase %d myloc %d" % (len(world), tid, st["epoch"], st["phase"], l)
                g = "GROUP 0 size %d myid %d loc %s parent " % (len(world), tid, bs(world))
                if par is None:
                    return [w, g + "-1"]
                return [w, g + "%d to %s from %s" % (len(par), bs([par.index(x) if x in par else -1 for x in world]),
                                                     bs([world.index(x) if x in world else -1 for x in par]))]
            expect(lids, "lines", f)
            add(lids, "dumpw", "dumpg 0")

        def own(desc, world):
            o = {}
            for t, _, _, _, b in CustomP(dims, desc["ranges"], desc["flags"]).normal():
                o.setdefault(world[t], []).append(b)
            return o

        def mkpart(lids, desc, g):
            h = st["np"]
            st["np"] += 1
            add(lids, "pr %d %s" % (h, desc["pr"]), "part %d %d 0 %d -1 0" % (h, g, h))
            return h

        def switch(lids, d, h, desc, world, flow, oldworld):
            """all single owner; values follow"""
            add(lids, "switch %d %d %d 0" % (d, h, flow))
            new = {}
            if flow == PRESERVE:
                src = {}
                for l, v in vals[d].items():
                    for i, x in v.items():
                        src[i] = (l, x)
                for l, bl in own(desc, world).items():
                    for b in bl:
                        for i in box_idx(b):
                            if i in src:
                                new.setdefault(l, {})[i] = src[i][1]
                                if src[i][0] != l:
                                    st["moved"] += 1
                                else:
                                    st["kept"] += 1
            vals[d] = new
            o = own(desc, world)
            t = expect([l for l in lids if l in world], "dump", lambda l: [d, o.get(l, []), dict(new.get(l, {}))])
            for l in lids:
                if l in world:
                    L[l].append("dump %d %s 0" % (d, t))

        def fill(lids, d, seed):
            ty = case["datas"][d]
            add(lids, "fill %d %d 0 0 0" % (d, seed))
            vals[d] = {}
            for l, bl in own(cur[d][1], st["world"]).items():
                for b in bl:
                    for i in box_idx(b):
                        vals[d].setdefault(l, {})[i] = val(ty, seed, i, 0, 0)

        W = st["world"]
        world_check(W, W, None)
        add(W, "space 0 %d %s" % (dims, bs(box)))
        for d, ty in enumerate(case["datas"]):
            add(W, "data %d 0 %s" % (d, ty))
            h = mkpart(W, case["p0"][d], 0)
            add(W, "switch %d %d 0 0" % (d, h))
            cur[d] = (h, case["p0"][d])
            fill(W, d, case["seed"] + d)
        for r, rd in enumerate(case["rounds"]):
            W = st["world"]
            gone = set()
            joins = []
            ghosts = []
            sent = []                       # requests by other processes to wait for

            if r == 0 and case["spare"]:
                for lid in range(n, n + case["spare"]):
                    joins.append(lid)
                    st["nxt"] += 1
                    L[lid], E[lid] = ["init tcp2"], []
                cl.add("spare")

            def requests(pos):
                for k, q in enumerate(rd["req"]):
                    if q[0] != pos:
                        continue
                    if q[1] == "join":
                        lid = st["nxt"]
                        st["nxt"] += 1
                        add([0], "touch go%d" % lid)
                        joins.append(lid)
                        L[lid] = ["waitfile go%d" % lid, "init tcp2"]
                        st["same"].setdefault(r, []).append(lid)
                        E[lid] = []
                        cl.add("join")
                        continue
                    if q[2] not in W:
                        raise Discard("sender left")
                    name = "%d.%d" % (r, k)
                    if q[1] == "cut":
                        m = match(q[3], W)
                        if m & gone:
                            cl.add("requested-twice")
                        add([q[2]], "sendport cutoff " + q[3])
                        if q[2] == 0:
                            cl.add("request-by-master")
                        else:
                            if m - gone:
                                cl.add("request-by-other")
                            add([q[2]], "touch s" + name)
                            sent.append("s" + name)
                        gone.update(m)
                        cl.add("remove" if m else "no-match")
                    else:
                        cl.add("vanished-joiner")
                        # connection is closed at once / when the request is queued / right before the resize point
                        if q[3] == "late" and q[2] in ghosts:
                            raise Discard("one connection")
                        turn(q[2], "p" + name, ("sendport" if q[3] == "at-once" else "keepport") + " register ghost localhost 1")
                        cl.add("vanish-" + q[3])
                        if q[3] == "queued":
                            if q[2] in ghosts:
                                raise Discard("one connection")
                            turn(q[2], "q" + name, "closeport")
                        elif q[3] == "late":
                            ghosts.append(q[2])

            def turn(l, name, line):
                """process does something while the master waits"""
                if l:
                    add([0], "touch " + name)
                    add([l], "waitfile " + name, line, "touch r" + name)
                    add([0], "waitfile r" + name)
                else:
                    add([0], line)
                add([0], "progress")

            for pos, o in enumerate(rd["inner"]):
                requests(pos)
                if o[0] in ("sw", "red") and any(t >= len(W) for t, _, _ in (o[2] if o[0] == "sw" else o[3])["ranges"]):
                    raise Discard("world too small")
                if o[0] == "sw":
                    h = mkpart(W, o[2], 0)
                    switch(W, o[1], h, o[2], W, PRESERVE, W)
                    cur[o[1]] = (h, o[2])
                elif o[0] == "fill":
                    fill(W, o[1], o[2])
                elif o[0] == "red":
                    d, ty = o[1], case["datas"][o[1]]
                    add(W, "pr %d All" % st["np"], "part %d 0 0 %d -1 0" % (st["np"], st["np"]))
                    add(W, "switch %d %d 0 0" % (d, st["np"]), "fill %d %d 1 1 0" % (d, o[2]))
                    st["np"] += 1
                    h = mkpart(W, o[3], 0)
                    add(W, "switch %d %d 1 %d" % (d, h, o[4]))
                    new = {}
                    for l, bl in own(o[3], W).items():
                        for b in bl:
                            for i in box_idx(b):
                                x = None
                                for t in range(len(W)):
                                    y = val(ty, o[2], i, t + 1, 1)
                                    x = y if x is None else reduce2(ty, o[4], x, y)
                                new.setdefault(l, {})[i] = x
                    vals[d] = new
                    cur[d] = (h, o[3])
                    oo = own(o[3], W)
                    t = expect(W, "dump", lambda l: [d, oo.get(l, []), dict(new.get(l, {}))])
                    add(W, "dump %d %s 0" % (d, t))
                    cl.add("reduction")
                elif o[0] == "kvs":
                    s = st["np"]
                    st["np"] += 1
                    add(W, "kvs %d store%d" % (s, s))
                    for l in W:
                        L[l].append("kset %d k%d %s00" % (s, l, ("v%d" % (o[1] + l)).encode().hex()))
                    add(W, "ksync %d" % s)
                    expect(W, "lines", ["KGET k%d 1 1 %s00" % (l, ("v%d" % (o[1] + l)).encode().hex()) for l in W])
                    add(W, "kget %d %s" % (s, " ".join("k%d" % l for l in W)), "kfree %d" % s)
                    cl.add("kvs")
                elif o[0] == "loc":
                    add(W, "syncloc")
                    expect(W, "loc", list(W))
                    add(W, "dumploc 0")
                    cl.add("locations" + ("-after-change" if st["changed"] else ""))
            requests(len(rd["inner"]))
            add([0], *["waitfile " + x for x in sent], "progress", "waitreq %d" % (len(joins) + len(ghosts)))
            for l in ghosts:
                turn(l, "g%d.%d" % (r, l), "closeport")
            st["phase"] = rd["phase"]
            add(W, "resize 0 %d" % rd["phase"])
            new = [l for l in W if l not in gone] + joins
            if new == W:
                world_check(W, W, None)
                cl.add("no-change")
                continue
            st["epoch"] += 1
            st["changed"] += 1
            st["world"] = new
            world_check(W + joins, new, W)
            if gone and joins:
                cl.add("join+remove")
            if rd["late"]:
                # processes to be removed have left already for requests
                for l in sorted(gone):
                    add([0], "sendport cutoff ^L%d:" % l)
                add([0], "progress")
                cl.add("request-again")
            if joins:
                add(joins, "space 0 %d %s" % (dims, bs(box)), "gparent 1")
            for d, ty in enumerate(case["datas"]):
                h0, desc0 = cur[d]
                if any(t >= len(new) for t, _, _ in rd["new"][d]["ranges"]):
                    raise Discard("world too small")
                if joins:
                    add(joins, "data %d 0 %s" % (d, ty), "pr %d %s" % (h0, desc0["pr"]), "part %d 1 0 %d -1 0" % (h0, h0), "initpart %d %d" % (d, h0))
                h = mkpart(W + joins, rd["new"][d], 0)
                switch(W + joins, d, h, rd["new"][d], new, rd["flow"][d], W)
                cur[d] = (h, rd["new"][d])
            if rd["fin"]:
                add(W + joins, "finishresize")
                world_check(new, new, None)
            for l in sorted(gone):
                L[l].append("finalize")
            for d, ty in enumerate(case["datas"]):
                if rd["flow"][d] == NONE:
                    fill(new, d, case["seed"] + 100 * r + d)
        add(st["world"], "finalize")
        return L, E, st, cl

    def summary(self, case):
        L, E, st, cl = self.plan(case)
        return "\n".join("process %d: %s" % (l, "; ".join(L[l])) for l in sorted(L))

    def evaluate(self, case, eng):
        L, E, st, cl = self.plan(case)
        n = case["n"]
        run = proc.Run(eng.bdir, "tcp2", n, {"bin": case["bin"]})
        try:
            # ids of processes started or joining together are given in order of registration: same script for all, lines selected by id
            same = dict(st["same"])
            first = list(range(n + case["spare"]))
            for grp in [first + (same.pop(0, []) if case["spare"] else [])] + list(same.values()):
                text = "".join("@%d %s\n" % (l, x) for l in grp for x in L[l][L[l].index("init tcp2") + 1:])
                for l in grp:
                    run.start("\n".join(L[l][:L[l].index("init tcp2") + 1]) + "\n" + text)
            res = run.wait(30)
        finally:
            run.close()
        res.require_ok()
        if sorted(res.ranks) != sorted(L):
            raise Fail("ids of processes are %s, expected %s" % (sorted(res.ranks), sorted(L)))
        locs = {}
        for l in sorted(L):
            seg, c = {}, None
            for x in res.ranks[l]:
                if x.startswith("ECHO "):
                    c = x[5:]
                    seg[c] = []
                elif c:
                    seg[c].append(x)
            for t, kind, e in E[l]:
                what = "process %d, %s" % (l, t)
                if t not in seg:
                    raise Fail("%s: no output" % what)
                if kind == "lines":
                    if seg[t][:len(e)] != e:
                        raise Fail("%s: %s, expected %s" % (what, seg[t][:len(e)], e))
                elif kind == "loc":
                    my, all = seg[t][0].split(" : ", 1)
                    a = all.split()
                    if len(a) != len(e) or a[e.index(l)] != my.split()[2] or not my.split()[2].startswith("L%d:" % l):
                        raise Fail("%s: own location %s, all %s" % (what, my, a))
                    for x, y in zip(e, a):
                        if locs.setdefault(x, y) != y:
                            raise Fail("%s: location of process %d is %s, elsewhere %s" % (what, x, y, locs[x]))
                else:
                    d, bl, v = e
                    got = parse_dump(res.ranks[l], t, case["datas"][d], case["dims"])
                    if got is None:
                        raise Fail("%s: no access to data" % what)
                    if sorted(b for _, _, b, _ in got) != sorted(list(b) for b in bl):
                        raise Fail("%s: own ranges %s, expected %s" % (what, [b for _, _, b, _ in got], bl))
                    for _, _, b, vs in got:
                        for i, x in zip(box_idx(b), vs):
                            if i in v and v[i] != x:
                                raise Fail("%s: data %d index %s is %r, expected %r" % (what, d, i, x, v[i]))
        return {"nontrivial": st["changed"] > 0 and st["moved"] > 0, "classes": sorted(cl | {"dims%d" % case["dims"], "mixed" if isinstance(case["bin"], list) else "bin" if case["bin"] else "text"}),
                "counts": {"changes": st["changed"], "moved": st["moved"]}}


CHECK = C24()
