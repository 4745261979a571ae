"""C22: initial values and element-wise reductions of the predefined types."""
import struct
from ..core import Check, Discard, Fail
from ..model import *

FMT = {"char": "b", "int32": "i", "int64": "q", "uchar": "B", "uint32": "I", "uint64": "Q", "float": "f", "double": "d"}
INTOPS = [SUM, PROD, MIN, MAX, AND, OR]
FLOPS = [SUM, PROD, MIN, MAX]


def gen_elem(src, ty):
    size, k = TYPES[ty]
    w = src.draw(0, 9)
    if k == "f":
        if w < 3:
            v = float(src.draw(-3, 3))
        elif w < 5:
            v = src.draw(-10000, 10000) / src.pick([1, 3, 7, 64])
        elif w < 7:
            v = src.pick([1, -1]) * src.pick([1e-30, 1e30, 3.0e38, 1.5e-38, 16777217.0, 0.1]) if size == 4 else \
                src.pick([1, -1]) * src.pick([1e-300, 1e300, 1.7e308, 2.3e-308, 9007199254740993.0, 0.1])
        else:
            v = src.draw(0, 1 << 30) * 2.0 ** src.draw(-60, 60) * src.pick([1, -1])
        return struct.unpack(FMT[ty], struct.pack(FMT[ty], v))[0]
    lo = 0 if k == "u" else -(1 << (8 * size - 1))
    hi = (1 << (8 * size)) - 1 if k == "u" else (1 << (8 * size - 1)) - 1
    if w < 3:
        v = src.draw(0, 3)
    elif w < 5:
        v = src.pick([lo, hi, lo + 1, hi - 1, 0, -1, hi // 2, hi // 2 + 1])
    elif w < 6:
        v = 1 << src.draw(0, 8 * size - 1)
    else:
        v = mix(src.draw(0, 1 << 30), 1, 2, 3, 4)
    return wrap(ty, v)


def red(ty, op, a, b):
    try:
        return reduce2(ty, op, a, b)
    except OverflowError:
        return float("inf")


def same(x, y):
    return x == y or (x != x and y != y)


class C22(Check):
    id = "C22"
    rule = "a reduction of two inputs with at least two elements, or with a missing input, with a non-trivial value in each given input"
    quick, thorough = 12000, 150000
    technique = ("property-based testing: generated element arrays (extreme values included), element counts, missing inputs and aliasing for every predefined type and "
                 "operation against exact arithmetic (modulo width / rounded to the type); sanitizer and guard bytes around the buffers; shrinking")
    assumptions = ["no NaN or infinite inputs", "no bitwise operations on floating point types (documented as unsupported)"]

    def generate(self, src, tier):
        ops = []
        for _ in range(src.draw(1, 6)):
            ty = src.pick(sorted(FMT))
            op = src.pick(FLOPS if TYPES[ty][1] == "f" else INTOPS)
            n = src.weighted((6, src.draw(1, 6)), (2, src.draw(0, 40)), (1, src.draw(100, 300)))
            if src.chance(15):
                ops.append(["init", ty, op, n])
                continue
            ins = []
            null = src.weighted((6, 0), (1, 1), (1, 2), (1, 3))
            big = gen_elem(src, ty) if n > 40 else None
            for k in range(2):
                if null >> k & 1:
                    ins.append(None)
                elif big is not None:
                    b = [big] + [gen_elem(src, ty) for _ in range(6)]
                    ins.append([b[(i * (k + 3)) % 7] for i in range(n)])
                else:
                    ins.append([gen_elem(src, ty) for _ in range(n)])
            alias = src.pick([0, 0, 1, 2])
            if alias and ins[alias - 1] is None:
                alias = 0
            ops.append(["red", ty, op, n, alias, ins])
        return {"ops": ops}

    def summary(self, case):
        s = Script(1, "fake 1")
        for o in case["ops"]:
            if o[0] == "init":
                s.add("tinit %s %d %d" % tuple(o[1:]))
            else:
                f = "<%d%s" % (o[3], FMT[o[1]])
                s.add("tred %s %d %d %d %s" % (o[1], o[2], o[3], o[4],
                                               " ".join("null" if x is None else (struct.pack(f, *x).hex() or "-") for x in o[5])))
        s.add("finalize")
        return s.text()

    def evaluate(self, case, eng):
        res = eng.run(self.summary(case))
        res.require_ok()
        L = [l.split() for l in res.ranks[0] if l.startswith(("TINIT", "TRED"))]
        if len(L) != len(case["ops"]):
            raise Fail("%d results for %d operations" % (len(L), len(case["ops"])))
        cl = set()
        nt = False
        for l, o in zip(L, case["ops"]):
            ty, op, n = o[1:4]
            got = [parse_val(ty, x) for x in l[2:]]
            if l[1] != "1":
                raise Fail("%s: memory outside of the output was changed" % o)
            if o[0] == "init":
                want = [neutral(ty, op)] * n
                cl.add("init")
            else:
                a, b = o[5]
                if a is None and b is None:
                    want = [neutral(ty, op)] * n
                elif a is None or b is None:
                    want = b if a is None else a
                    cl.add("missing-input")
                else:
                    want = [red(ty, op, x, y) for x, y in zip(a, b)]
                    if o[4]:
                        cl.add("in-place")
                    if n > 40:
                        cl.add("long")
                    if TYPES[ty][1] != "f" and any(wrap(ty, w) != (x + y if op == SUM else x * y) for w, x, y in zip(want, a, b)) and op in (SUM, PROD):
                        cl.add("wrapped")
                cl.add(ty)
                nt |= n >= 2 and a is not None and b is not None or (a is None) != (b is None)
            if len(got) != n or not all(same(x, y) for x, y in zip(got, want)):
                d = [(i, x, y) for i, (x, y) in enumerate(zip(got, want)) if not same(x, y)]
                raise Fail("%s: (position, found, expected) %s" % (str(o)[:300], d[:4]))
        return {"nontrivial": nt, "classes": sorted(cl), "counts": {"ops": len(L)}}


CHECK = C22()
