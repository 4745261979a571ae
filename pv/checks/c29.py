"""C29: message passing of the TCP backend follows MPI semantics: order, content, collectives, communicators."""
import time
from ..core import Check, Fail
from .. import proc
from . import c23

UNDEF = -1
SIZE = [8, 4, 8, 4, 1, 8, 4, 1]
TYPES = 8                       # double float int64 int32 int8 uint64 uint32 uint8


def split(members, colors, hints):
    """{world rank: list of members} of new communicators"""
    out = {}
    for i, w in enumerate(members):
        if colors[i] == UNDEF:
            out[w] = [w]
        else:
            g = sorted((hints[j], j) for j in range(len(members)) if colors[j] == colors[i])
            out[w] = [members[j] for _, j in g]
    return out


class C29(Check):
    id = "C29"
    needs_engine = False
    rule = "a message was received or a collective operation done by at least two processes"
    quick, thorough = 1500, 18000
    technique = ("property-based testing, model-based: generated programs of sends, receives (reordered among independent flows), broadcasts, reductions, barriers, duplicated and split "
                 "communicators on the message layer of the TCP backend, in real processes over Unix and TCP sockets, with generated thread, connection and memory limits, "
                 "delays, late starts and failing connection attempts; results compared with a reference model; shrinking")
    assumptions = ["sum reductions only (others are not implemented)", "loopback network", "messages are received before processes finish", "connection attempts may fail, established connections do not break"]

    def generate(self, src, tier):
        n = src.draw(1 if src.chance(10) else 2, 4 if tier == "quick" else 7)
        opts = c23.gen_backend(src, n, "tcp")[1]
        if src.chance(12):
            opts["general"] = [x for x in opts["general"] if x[0] not in ("inbox_size", "outbox_size")] + [("inbox_size", src.pick([1, 100, 1000])), ("outbox_size", src.pick([1, 100, 1000]))]
        tight = any(k == "outbox_size" for k, _ in opts["general"])
        if src.chance(15):
            opts["general"] = [x for x in opts["general"] if x[0] != "receive_delay"] + [("receive_delay", "0.005"), ("receive_attempts", "2000")]
        comms = [{w: list(range(n)) for w in range(n)}]
        ops = []
        big = src.chance(10)
        for _ in range(src.draw(2, 14 if tier == "quick" else 40)):
            k = src.weighted((8, "send"), (3, "bcast"), (3, "reduce"), (2, "allreduce"), (2, "barrier"), (2, "dup"), (3, "split"))
            c = src.draw(0, len(comms) - 1)
            groups = sorted({tuple(m) for m in comms[c].values()})
            g = src.pick([x for x in groups if len(x) > 1] or groups)
            ty = src.draw(0, TYPES - 1)
            cnt = src.weighted((2, 0), (8, src.draw(1, 20)), (3, src.draw(20, 3000)), (1 if big else 0, src.draw(20000, 300000)))
            if k == "send":
                if len(g) < 2:
                    continue
                a, b = src.shuffle(list(range(len(g))))[:2]
                # several messages, to be received later
                for _ in range(src.weighted((4, 1), (3, 2), (2, 4), (1, 12))):
                    cap = cnt if src.chance(70) else cnt + src.draw(1, 9) if src.chance(80) or cnt == 0 else src.draw(0, cnt - 1)
                    ops.append(["send", c, list(g), a, b, src.pick([0, 0, 1, 5, 257, 65537, 2 ** 31 - 1]), ty, cnt, src.draw(0, 999), cap])
                    if src.chance(50):
                        a, b = src.shuffle(list(range(len(g))))[:2]
                    cnt = src.draw(0, 30)
            elif k == "bcast":
                ops.append([k, c, list(g), src.draw(0, len(g) - 1), ty, cnt, src.draw(0, 999)])
            elif k in ("reduce", "allreduce"):
                ops.append([k, c, list(g), src.draw(0, len(g) - 1) if k == "reduce" else -1, ty, cnt, src.draw(0, 1) if src.chance(50) else [src.draw(0, 1) for _ in g],
                            [src.draw(0, 999) for _ in g]])
            elif k == "barrier":
                ops.append([k, c, list(g), [src.draw(0, 2000) if src.chance(30) else 0 for _ in g]])
            elif k == "dup" and len(comms) < 20:
                ops.append([k, c, len(comms), list(g)])
                comms.append({w: list(g) for w in g})
            elif k == "split" and len(comms) < 20:
                cols = [src.pick([0, 0, 0, 1, 7, UNDEF] if src.chance(60) else [0]) for _ in g]
                if UNDEF in cols and src.chance(50):
                    cols = [0 if x == UNDEF else x for x in cols]
                hm = src.weighted((3, "rank"), (2, "rev"), (2, "rand"), (2, "same"), (1, "wide"))
                h = {"rank": list(range(len(g))), "rev": list(range(len(g)))[::-1], "rand": [src.draw(-3, 3) for _ in g], "same": [0] * len(g),
                     "wide": [src.pick([-2 ** 31, 2 ** 31 - 1, 0, 5]) for _ in g]}[hm]
                ops.append([k, c, len(comms), list(g), cols, h])
                comms.append(split(list(g), cols, h))
        # position of receives: later than their send, in order within a flow
        late = not tight and src.chance(75)
        pos = []
        for i, o in enumerate(ops):
            pos.append(i if not late or src.chance(40) else src.draw(i, min(len(ops) - 1, i + src.pick([2, 6, 40]))))
        last = {}
        for i, o in enumerate(ops):
            if o[0] == "send":
                f = (o[1], tuple(o[2]), o[3], o[4], o[5])
                pos[i] = max(pos[i], last.get(f, 0))
                last[f] = pos[i]
        return {"n": n, "opts": opts, "ops": ops, "pos": pos, "connfail": src.pick([5, 30, 60]) if src.chance(20) else 0,
                "late": [src.draw(0, 60) if src.chance(15) else 0 for _ in range(n)], "seed": src.draw(0, 10 ** 6)}

    def program(self, case):
        """(lines per world rank, expected per rank)"""
        n, ops = case["n"], case["ops"]
        L = {w: [] for w in range(n)}
        E = {w: [] for w in range(n)}
        recv = {}
        for i, o in enumerate(ops):
            if o[0] == "send":
                recv.setdefault(case["pos"][i], []).append(i)
        comms = [{w: list(range(n)) for w in range(n)}]
        state = {}

        def rank(c, w):
            m = comms[c][w]
            L[w].append("mm rank 0 %d" % c)
            E[w].append("MM rank 0 %d %d" % (m.index(w), len(m)))
        for w in range(n):
            rank(0, w)
        rnd = case["seed"]
        for i, o in enumerate(ops):
            k = o[0]
            if k == "send":
                c, g, a, b, tag, ty, cnt, seed, cap = o[1:]
                L[g[a]].append("mm send %d %d %d %d %d %d %d" % (i, c, b, tag, ty, cnt, seed))
                E[g[a]].append("MM send %d ok" % i)
            elif k == "bcast":
                c, g, root, ty, cnt, seed = o[1:]
                for w in g:
                    L[w].append("mm bcast %d %d %d %d %d %d" % (i, c, root, ty, cnt, seed))
                    E[w].append("MM bcast %d ok" % i)
            elif k in ("reduce", "allreduce"):
                c, g, root, ty, cnt, inp, seeds = o[1:]
                for j, w in enumerate(g):
                    ip = inp if isinstance(inp, int) else inp[j]
                    L[w].append("mm %s %d %d %d %d %d %d %d %s" % (k, i, c, root, ty, cnt, ip, len(g), " ".join(map(str, seeds))))
                    E[w].append("MM %s %d ok" % (k, i) + ("" if ip else " ok"))
            elif k == "barrier":
                c, g, delay = o[1:]
                for j, w in enumerate(g):
                    if delay[j]:
                        L[w].append("busy %d" % delay[j])
                    L[w].append("mm barrier %d %d" % (i, c))
                    E[w].append("MM barrier %d" % i)
            elif k == "dup":
                c, new, g = o[1:]
                comms += [{}] * (new + 1 - len(comms))
                comms[new] = {w: list(g) for w in g}
                for w in g:
                    L[w].append("mm dup %d %d" % (new, c))
                    E[w].append("MM dup 0")
                    rank(new, w)
            elif k == "split":
                c, new, g, cols, h = o[1:]
                comms += [{}] * (new + 1 - len(comms))
                comms[new] = split(g, cols, h)
                for j, w in enumerate(g):
                    L[w].append("mm split %d %d %d %d" % (new, c, cols[j], h[j]))
                    E[w].append("MM split 0")
                    rank(new, w)
            # receives placed here: any order among flows, in order within
            todo = recv.get(i, [])
            rnd = (rnd * 1103515245 + 12345) % 2 ** 31
            if rnd % 3 == 0:
                flows = {}
                for x in todo:
                    flows.setdefault((ops[x][1], tuple(ops[x][2]), ops[x][3], ops[x][4], ops[x][5]), []).append(x)
                todo = [x for f in reversed(list(flows.values())) for x in f]
            for x in todo:
                c, g, a, b, tag, ty, cnt, seed, cap = ops[x][1:]
                w = g[b]
                rnd = (rnd * 1103515245 + 12345) % 2 ** 31
                if rnd >> 16 & 7 == 0:
                    L[w].append("busy %d" % (rnd >> 20 & 1023))
                L[w].append("mm recv %d %d %d %d %d %d %d %d" % (x, c, a, tag, ty, cap, cnt, seed))
                E[w].append("MM recv %d %d ok 1" % (x, cnt) if cap >= cnt else "MM recv %d error:1" % x)
        for w in range(n):
            L[w].append("mm fin")
            E[w].append("MM fin 0 0 0")
        return L, E

    def summary(self, case):
        L, E = self.program(case)
        return "options %s, connection failures %d%%, late %s\n" % (case["opts"], case["connfail"], case["late"]) + "\n".join(
            "process %d: %s" % (w, "; ".join(L[w])) for w in L)

    def evaluate(self, case, eng):
        n = case["n"]
        L, E = self.program(case)
        # the rank is decided at start
        text = "mm init\n" + "".join("@%d %s\n" % (w, l) for w in L for l in L[w])
        run = proc.Run(eng, "tcp", n, case["opts"], {"DRV_CONNFAIL": str(case["connfail"])} if case["connfail"] else None)
        try:
            for i in range(n):
                if case["late"][i]:
                    time.sleep(case["late"][i] / 1000)
                run.start(text)
            res = run.wait(25)
        finally:
            run.close()
        res.require_ok()
        bar = {}
        T = {"send": {}, "recv": {}}
        got2 = 0
        for w in range(n):
            got = [l for l in res.ranks[w] if l.startswith("MM ")]
            if len(got) != len(E[w]):
                raise Fail("process %d: %d results instead of %d" % (w, len(got), len(E[w])))
            for k, (a, b) in enumerate(zip(got, E[w])):
                x = a.split()
                if x[1] == "barrier":
                    if len(x) != 5:
                        raise Fail("process %d: %s" % (w, a))
                    bar.setdefault(int(x[2]), []).append((float(x[3]), float(x[4]), w))
                    a = " ".join(x[:3])
                if x[1] in T:
                    T[x[1]][int(x[2])] = float(x[3][1:])
                    a = " ".join(x[:3] + x[4:])
                if a != b:
                    raise Fail("process %d, result %d: %s, expected %s" % (w, k, a, b))
        for i, v in bar.items():
            enter, leave = max(v), min(v, key=lambda t: t[1])
            if leave[1] < enter[0]:
                raise Fail("barrier %d: process %d left %.6f s before process %d entered" % (i, leave[2], enter[0] - leave[1], enter[2]))
        # memory for messages is limited: messages not requested yet fit into outbox of sender and inbox of receivers
        gen = dict(case["opts"]["general"])
        lim = [int(gen.get(k, 1 << 24)) for k in ("outbox_size", "inbox_size")]
        blocked = 0
        for i, o in enumerate(case["ops"]):
            if o[0] == "send":
                t = T["send"][i]
                open_ = [(j, x) for j, x in enumerate(case["ops"][:i + 1]) if x[0] == "send" and x[2][x[3]] == o[2][o[3]] and T["recv"][j] > t]
                size = sum(x[7] * SIZE[x[6]] for _, x in open_)
                rcv = {x[2][x[4]] for _, x in open_}
                if size > lim[0] + len(rcv) * lim[1]:
                    raise Fail("send %d returned with %d bytes of messages not requested yet (%d messages to %d processes), limits for outbox/inbox %s" % (i, size, len(open_), len(rcv), lim))
                blocked += lim[0] < 1000 and lim[1] < 2000
        cl = {"unix" if case["opts"]["unix"] else "inet"}
        for o in case["ops"]:
            cl.add(o[0])
            if o[0] == "send":
                got2 += 1
                if o[9] < o[7]:
                    cl.add("too-small")
                if o[7] > 10000:
                    cl.add("large")
            elif o[0] not in ("dup", "split") and len(o[2]) > 1:
                got2 += 1
        if any(p > i for i, p in enumerate(case["pos"]) if case["ops"][i][0] == "send"):
            cl.add("late-receive")
        for k, _ in case["opts"]["general"]:
            cl.add("opt-" + k)
        if case["connfail"]:
            cl.add("connection-failures")
        if blocked:
            cl.add("limited-memory")
        if any(case["late"]):
            cl.add("late-start")
        par = {}
        for o in case["ops"]:
            if o[0] in ("dup", "split"):
                par[o[1]] = par.get(o[1], 0) + 1
        if any(v > 1 for v in par.values()):
            cl.add("siblings")
        return {"nontrivial": n > 1 and got2 > 0, "classes": sorted(cl), "counts": {"messages": sum(o[0] == "send" for o in case["ops"]), "collectives": sum(o[0] not in ("send", "dup") for o in case["ops"])}}


CHECK = C29()
