"""C20: key/value stores hold the same entries on all processes after synchronisation."""
import re
from ..core import Check, Discard, Fail
from ..model import *

ALPHA = "ab.-_/%Z0"


def gen_key(src):
    k = "".join(src.pick(ALPHA) for _ in range(src.weighted((6, 1), (4, 2), (2, src.draw(1, 8)))))
    if src.chance(4):
        k += "x" * src.draw(20, 230)
    return k


def gen_val(src, prev):
    w = src.draw(0, 99)
    if prev and w < 15:                 # prefix of or prefixed by a value used before, or changed at one byte
        v = src.pick(prev)
        w = src.draw(0, 3)
        if w == 0:
            v += "%02x" % src.pick([0, 0, 65, 255])
        elif w == 1 and len(v) > 2:
            v = v[:-2]
        elif w == 2:
            i = 2 * src.draw(0, len(v) // 2 - 1)
            v = v[:i] + "%02x" % ((int(v[i:i + 2], 16) + 1) % 256) + v[i + 2:]
        return v
    if prev and w < 25:
        return src.pick(prev)
    n = src.weighted((3, 1), (5, src.draw(1, 6)), (2, src.draw(1, 40)), (1, src.pick([100, 999, 1000, 1001, 2000, 5000])))
    if n > 40:
        return "".join("%02x" % ((i * 7 + n + w) % 256) for i in range(n))
    return "".join("%02x" % src.weighted((2, 0), (5, src.draw(97, 100)), (2, src.draw(0, 255))) for _ in range(n))


class Store:
    """entries on one process: key -> value (hex), None: removed, and pending changes"""
    def __init__(self):
        self.e, self.pend = {}, {}

    def set(self, k, v):
        if self.e.get(k) == v:
            return
        self.e[k] = self.pend[k] = v

    def rm(self, k):
        if self.e.get(k) is None:
            return 0
        self.e[k] = self.pend[k] = None
        return 1


def sync(stores):
    """merge pending changes; returns (callbacks per store) or key with conflict as string"""
    all = {}
    for s in stores:
        for k, v in s.pend.items():
            if k in all and all[k] != v:
                return k
            all[k] = v
    res = []
    for s in stores:
        cb = []
        for k, v in all.items():
            o = s.e.get(k)
            if v is None:
                if o is not None:
                    cb.append("CB removed %s" % k)
                    s.e[k] = None
            elif o != v:
                cb.append("CB %s %s %s" % ("created" if o is None else "changed", k, v))
                s.e[k] = v
        s.pend = {}
        res.append(sorted(cb))
    return res


class C20(Check):
    id = "C20"
    rule = "at least two synchronisations with changes of at least two processes in one interval, or a removal/overwrite synchronised to others"
    quick, thorough = 3600, 40000
    technique = ("property-based testing: generated histories of set/remove/clean/sort/lookup/sync on several processes and stores over the simulated MPI against "
                 "a dictionary model with change journals (contents byte-exact, callbacks, lookups), also after shrinking the world; conflicting changes must be reported; shrinking")
    assumptions = ["values have at least one byte; keys without white space (limits of the driver)", "removed keys may still be listed, with empty value (documented in kvs.c)"]

    text = False        # values are text with terminating 0, no shrinking of the world (C23)
    backend = "mpi"

    def gen_val(self, src, prev):
        if not self.text:
            return gen_val(src, prev)
        if prev and src.chance(25):
            v = bytes.fromhex(src.pick(prev))[:-1].decode()
            v = src.pick([v, v + "x", v[:-1], v + " ", " " + v])
        else:
            n = src.weighted((1, 0), (8, src.draw(1, 12)), (2, src.draw(1, 80)), (1, src.pick([200, 999, 1000, 2000, 4000])))
            v = "".join(src.pick("abcxyz  .:=0159#%") for _ in range(min(n, 20)))
            v = (v * 300)[:n]
        return v.encode().hex() + "00"

    def generate(self, src, tier):
        n = src.weighted((1, 1), (5, 2), (5, src.draw(2, 5)), (1 if not self.text else 0, src.draw(2, 8)))
        nk = src.weighted((3, 1), (1, 2))
        keys = sorted({gen_key(src) for _ in range(src.draw(1, 6) + (src.draw(0, 10) if src.chance(30) else 0))})
        ops, prev = [], []
        members = list(range(n))
        st = [[Store() for _ in range(n)] for _ in range(nk)]
        conflict = src.chance(4)
        nops = src.draw(3, 12) + src.draw(0, 12)
        bulk = False
        for i in range(nops):
            op = src.weighted((12, "set"), (4, "rm"), (1, "clean"), (1, "sort"), (6, "sync"), (3, "get"), (1, "dump"), (1 if n > 1 and not self.text else 0, "shrink"),
                              (1 if not bulk else 0, "bulk"))
            k = src.draw(0, nk - 1)
            who = [src.pick(members)] if src.chance(75) else src.subset(members, 50, 1)
            if op == "set":
                key = src.pick(keys)
                v = self.gen_val(src, prev)
                prev.append(v)
                ops.append(["set", k, who, key, v])
            elif op == "rm":
                ops.append(["rm", k, who, src.pick(keys)] + (["null"] if src.chance(30) else []))
            elif op == "bulk":
                bulk = True
                ops.append(["bulk", k, who, src.weighted((9, src.draw(5, 60)), (0 if self.text else 1, src.pick([999, 1000, 1001, 1100])))])
            elif op == "sync":
                self.agree(st[k], members, ops, k, src, conflict and i > nops // 2)
                ops.append(["sync", k])
            elif op == "shrink":
                if len(members) > 1:
                    rm = src.subset(list(range(len(members))), 40, 1)
                    if len(rm) == len(members):
                        rm.pop()
                    members = [m for j, m in enumerate(members) if j not in rm]
                    ops.append(["shrink", rm])
            else:
                ops.append([op, k])
            self.apply(st, ops[-1], members)
        for k in range(nk):
            self.agree(st[k], members, ops, k, src, conflict)
            ops.append(["sync", k])
            self.apply(st, ops[-1], members)
        return {"n": n, "nk": nk, "keys": keys, "ops": ops, "cb": src.chance(70), "head": gen_sim_head(src)}

    def agree(self, st, members, ops, k, src, conflict):
        """resolve conflicting pending changes by adding operations"""
        all = {}
        for m in members:
            for key, v in st[m].pend.items():
                all.setdefault(key, {})[m] = v
        for key, d in sorted(all.items()):
            if len(set(d.values())) > 1:
                if conflict and src.chance(70):
                    continue
                v = src.pick(sorted(set(d.values()), key=str))
                w = [m for m in sorted(d) if d[m] != v]
                o = ["rm", k, w, key] if v is None else ["set", k, w, key, v]
                ops.append(o)
                for m in w:
                    st[m].set(key, v) if v is not None else st[m].rm(key)

    def bulk(self, n, m):
        if self.text:
            return [("b%d_%d" % (m, (i * 37) % n), ("v%d %d" % (m, i)).encode().hex() + "00") for i in range(n)]
        return [("b%d_%d" % (m, (i * 37) % n), "%02x%04x" % (m, i)) for i in range(n)]

    def apply(self, st, o, members):
        """on all processes; returns result of sync"""
        if o[0] == "set":
            for m in o[2]:
                st[o[1]][m].set(o[3], o[4])
        elif o[0] == "rm":
            return {m: st[o[1]][m].rm(o[3]) for m in o[2]}
        elif o[0] == "clean":
            for m in members[:1]:
                for key in list(st[o[1]][m].e):
                    st[o[1]][m].rm(key)
        elif o[0] == "bulk":
            for m in o[2]:
                for key, v in self.bulk(o[3], m):
                    st[o[1]][m].set(key, v)
        elif o[0] == "sync":
            return sync([st[o[1]][m] for m in members])

    def summary(self, case):
        n = case["n"]
        s = Script(n, self.backend)
        s.head += case["head"]
        s.add("world 0")
        for k in range(case["nk"]):
            s.add("kvs %d store%d" % (k, k))
            if case["cb"]:
                s.add("kcb %d" % k)
        members = list(range(n))
        g = 0
        for i, o in enumerate(case["ops"]):
            t = "O%d" % i
            s.at(members, "echo " + t)
            if o[0] in ("set", "rm", "bulk") and not set(o[2]) <= set(members):
                raise Discard("process not member any more")
            if o[0] == "set":
                s.at(o[2], "kset %d %s %s" % (o[1], o[3], o[4]))
            elif o[0] == "rm":
                s.at(o[2], "%s %d %s" % ("knull" if o[4:] else "kremove", o[1], o[3]))
            elif o[0] == "bulk":
                for m in o[2]:
                    for key, v in self.bulk(o[3], m):
                        s.at([m], "kset %d %s %s" % (o[1], key, v))
            elif o[0] == "clean":
                s.at(members[:1], "kclean %d" % o[1])
            elif o[0] == "sort":
                s.at(members[-1:], "ksort %d" % o[1])
            elif o[0] == "sync":
                s.at(members, "ksync %d" % o[1])
                s.at(members, "kdump %d d" % o[1])
            elif o[0] == "get":
                s.at(members, "kget %d %s nokey" % (o[1], " ".join(case["keys"])))
            elif o[0] == "dump":
                s.at(members, "kdump %d d" % o[1])
            elif o[0] == "shrink":
                rm = [j for j in o[1] if j < len(members)]
                g += 1
                s.at(members, "shrink %d %d %d %s" % (g, g - 1, len(rm), " ".join(map(str, rm))))
                s.at(members, "setworld %d" % g)
                members = [m for j, m in enumerate(members) if j not in rm]
                if not members:
                    raise Discard("no process left")
        for k in range(case["nk"]):
            s.at(members, "kget %d %s nokey" % (k, " ".join(case["keys"])))
            s.add("kfree %d" % k)
        s.add("finalize")
        return s.text()

    def execute(self, case, eng):
        return eng.run(self.summary(case), 30000)

    def evaluate(self, case, eng):
        n = case["n"]
        st = [[Store() for _ in range(n)] for _ in range(case["nk"])]
        members = list(range(n))
        # model first: conflicts?
        exp = {}        # (op, rank) -> expected
        cl = set()
        conflict = None
        nsync = 0
        both = other = False
        for i, o in enumerate(case["ops"]):
            if o[0] == "sync":
                if sum(1 for m in members if st[o[1]][m].pend) > 1:
                    both = True
                    if len({k for m in members for k in st[o[1]][m].pend}) < sum(len(st[o[1]][m].pend) for m in members):
                        cl.add("same-key")
                if not any(st[o[1]][m].pend for m in members):
                    cl.add("no-changes")
                if any(len(v or "") >= 2000 for m in members for v in st[o[1]][m].pend.values()):
                    cl.add("large")
            r = self.apply(st, o, members)
            if o[0] == "sync":
                nsync += 1
                if isinstance(r, str):
                    conflict = (i, r)
                    break
                for m, c in zip(members, r):
                    exp[i, m] = (c, {k: v for k, v in st[o[1]][m].e.items() if v is not None})
                    if any("removed" in x or "changed" in x for x in c):
                        other = True
                        cl.add("removed" if any("removed" in x for x in c) else "changed")
            elif o[0] in ("get", "dump"):
                for m in members:
                    exp[i, m] = {k: v for k, v in st[o[1]][m].e.items() if v is not None}
            elif o[0] == "rm":
                for m in r:
                    exp[i, m] = r[m]
            elif o[0] == "shrink":
                members = [m for j, m in enumerate(members) if j not in o[1]]
                cl.add("shrink")
            elif o[0] == "bulk" and o[3] > 990:
                cl.add("many-keys")
        res = self.execute(case, eng)
        if conflict:
            cl.add("conflict")
            if res.ok() or "update inconsistency" not in res.stderr:
                raise Fail("conflicting changes of key %s at operation %d of %s are not reported (%s)" % (conflict[1], conflict[0], case["ops"], res.why()))
            return {"nontrivial": both, "classes": sorted(cl), "counts": {"syncs": nsync}}
        res.require_ok()
        for p in range(n):
            seg, cur = {}, None
            for l in res.ranks[p]:
                m = re.match(r"ECHO O(\d+)$", l)
                if m:
                    cur = int(m.group(1))
                    seg[cur] = []
                elif cur is not None:
                    seg[cur].append(l)
            for i, o in enumerate(case["ops"]):
                if i not in seg:
                    if (i, p) in exp:
                        raise Fail("process %d: no output of operation %d" % (p, i))
                    continue
                L = seg[i]
                what = "process %d, operation %d %s" % (p, i, o if len(str(o)) < 200 else str(o)[:200])
                cbs = sorted(l for l in L if l.startswith("CB "))
                if o[0] == "sync":
                    if case["cb"] and cbs != exp[i, p][0]:
                        raise Fail("%s: callbacks %s, expected %s" % (what, cbs, exp[i, p][0]))
                    self.check_dump(L, exp[i, p][1], what, True)
                else:
                    if cbs:
                        raise Fail("%s: callbacks outside of sync: %s" % (what, cbs))
                    if o[0] == "dump":
                        self.check_dump(L, exp[i, p], what, False)
                    elif o[0] == "get":
                        self.check_get([l for l in L if l.startswith("KGET")], case["keys"] + ["nokey"], exp[i, p], what)
                    elif o[0] == "rm" and (i, p) in exp:
                        if L != ["KREM %d" % exp[i, p]]:
                            raise Fail("%s: %s, expected %d" % (what, L, exp[i, p]))
            if p in members:
                q = len(case["keys"]) + 1
                L = [l for l in res.ranks[p] if l.startswith("KGET")][-q * case["nk"]:]
                for k in range(case["nk"]):
                    self.check_get(L[k * q:(k + 1) * q], case["keys"] + ["nokey"], {a: b for a, b in st[k][p].e.items() if b is not None},
                                   "process %d, store %d at end of %s" % (p, k, case["ops"]))
        return {"nontrivial": nsync >= 2 and both or other, "classes": sorted(cl), "counts": {"syncs": nsync}}

    def check_get(self, L, keys, want, what):
        if len(L) != len(keys):
            raise Fail("%s: %d lookups reported" % (what, len(L)))
        for l, k in zip(L, keys):
            f = l.split()
            if f[1] != k:
                raise Fail("%s: unexpected %s" % (what, l))
            if k in want:
                if f[2:4] != ["1", "1"] or f[4] != want[k]:
                    raise Fail("%s: lookup of %s gives %s, expected %s" % (what, k, f[2:], want[k]))
            elif f[2] != "0":
                raise Fail("%s: lookup of %s gives %s but has no entry" % (what, k, f[2:]))

    def check_dump(self, L, want, what, sorted_):
        n = [int(l.split()[2]) for l in L if l.startswith("KVS ")]
        es = [l.split() for l in L if l.startswith("KE ")]
        if len(n) != 1 or n[0] != len(es) or "KEND 1" not in L:
            raise Fail("%s: count %s but %d entries" % (what, n, len(es)))
        got = {}
        for f in es:
            if f[1] in got:
                raise Fail("%s: key %s listed twice" % (what, f[1]))
            got[f[1]] = f[3]
            if f[3] == "-":
                if f[2] != "0":
                    raise Fail("%s: %s" % (what, f))
                continue
            if int(f[2]) * 2 != len(f[3]) or int(f[5]) != min(16, int(f[2])) or f[6] != f[3][:32]:
                raise Fail("%s: size or copy of value wrong: %s" % (what, f))
        got = {k: v for k, v in got.items() if v != "-"}
        if got != want:
            d = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            raise Fail("%s: entries differ (key, found, expected): %s" % (what, d[:5]))
        if sorted_ and [f[1] for f in es] != sorted(f[1] for f in es):
            raise Fail("%s: entries not sorted" % what)


CHECK = C20()
