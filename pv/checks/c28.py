"""C28: applications give the results of their sequential counterparts, for any number of processes and options."""
import re
from ..core import Check, Discard, Fail
from ..model import *
from .. import proc
from . import c23
from .c05 import sched

F = r"(-?[0-9.]+(?:e[-+]?\d+)?|-?nan|-?inf)"


def near(a, b, rel=1e-9, ab=2e-6):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


# ------------------------------------------------------------------ sequential references
def jac1d(ksize, maxiter):
    n = ksize * 1000
    a = [float(i & 6) for i in range(n)]
    a[0], a[-1] = -5.0, 10.0
    out = []
    it = 0
    while it < maxiter:
        b = [-5.0] + [0.5 * (a[i - 1] + a[i + 1]) for i in range(1, n - 1)] + [10.0]
        if it % 10 == 0:
            res = sum((a[i] - b[i]) ** 2 for i in range(1, n - 1))
            out.append(("res", it + 1, res))
            if res < .001:
                a = b
                break
        a = b
        it += 1
    out.append(("sum", it, sum(a)))
    return out


def jac2d(n, maxiter, dosum):
    def bound(a):
        for x in range(n):
            a[0][x] = -5.0
        for x in range(n):
            a[n - 1][x] = 10.0
        for y in range(n):
            a[y][0] = -10.0
        for y in range(n):
            a[y][n - 1] = 5.0
    a = [[float((x + y) & 6) for x in range(n)] for y in range(n)]
    bound(a)
    out = []
    it = 0
    while it < maxiter:
        b = [[0.0] * n for _ in range(n)]
        bound(b)
        res = 0.0
        for y in range(1, n - 1):
            for x in range(1, n - 1):
                v = 0.25 * (a[y - 1][x] + a[y][x - 1] + a[y][x + 1] + a[y + 1][x])
                res += (a[y][x] - v) ** 2
                b[y][x] = v
        a = b
        if it % 10 == 0:
            out.append(("res", it + 1, res))
            if res < .001:
                break
        it += 1
    if dosum:
        out.append(("sum", it, sum(map(sum, a))))
    return out


def jac3d(n, maxiter, dosum):
    R = range(n)

    def bound(a):
        for p, q in ((0, -20.0), (n - 1, 15.0)):
            for y in R:
                for x in R:
                    a[p][y][x] = q
        for p, q in ((0, -5.0), (n - 1, 10.0)):
            for z in R:
                for x in R:
                    a[z][p][x] = q
        for p, q in ((0, -10.0), (n - 1, 5.0)):
            for z in R:
                for y in R:
                    a[z][y][p] = q
    a = [[[float((x + y + z) & 6) for x in R] for y in R] for z in R]
    bound(a)
    out = []
    it = 0
    c = 1.0 / 6.0
    while it < maxiter:
        b = [[[0.0] * n for _ in R] for _ in R]
        bound(b)
        res = 0.0
        for z in range(1, n - 1):
            for y in range(1, n - 1):
                for x in range(1, n - 1):
                    v = c * (a[z - 1][y][x] + a[z + 1][y][x] + a[z][y - 1][x] + a[z][y + 1][x] + a[z][y][x - 1] + a[z][y][x + 1])
                    res += (a[z][y][x] - v) ** 2
                    b[z][y][x] = v
        a = b
        if it % 10 == 0:
            out.append(("res", it + 1, res))
            if res < .001:
                break
        it += 1
    if dosum:
        out.append(("sum", it, sum(v for p in a for r in p for v in r)))
    return out


def chain(n, deg, fine, incoming):
    """the graph of markov (incoming) / markov2: per state list of (other state, prob)"""
    tot = [0.0] * n
    g = []
    for i in range(n):
        l = [(i, 5.0)]
        tot[i] += 5.0
        step = 1
        for j in range(1, deg + 1):
            o = (i + step) % n
            p = float((j + i) % (5 * deg)) + 1
            tot[o if incoming else i] += p
            l.append((o, p))
            step = 2 * step + j + fine * (i % 37)
            while step > n:
                step -= n
        g.append(l)
    return [[(o, p / tot[o if incoming else i]) for o, p in l] for i, l in enumerate(g)]


def markov(n, deg, fine, incoming, miter, start):
    g = chain(n, deg, fine, incoming)
    v = list(start)
    for _ in range(miter):
        if incoming:
            v = [sum(v[o] * p for o, p in l) for l in g]
        else:
            w = [0.0] * n
            for i, l in enumerate(g):
                for o, p in l:
                    w[o] += v[i] * p
            v = w
    return v[0], v[1], v[2], sum(v)


def unit(n, k):
    return [1.0 if i == k else 0.0 for i in range(n)]


class C28(Check):
    id = "C28"
    rule = "the application ran with at least two processes"
    quick, thorough = 2500, 30000
    nso = 8
    technique = ("property-based testing: the repository's applications run with generated arguments and options, numbers of processes, MPI schedules and backend options (simulated MPI; "
                 "TCP2 and TCP in real processes, TCP2 also with processes joining while running); all results they print are compared with sequential computations; shrinking")
    assumptions = ["applications without timing output, with every process owning at least one cell", "markov and markov2 without indirection (-i, -c) when more than one process, and "
                   "markov2 with a start state of process 0 (assertions in these applications)", "sums of doubles compared with relative tolerance 1e-9 plus the printed precision"]

    APPS = [(3, "vsum"), (3, "vsum2"), (3, "vsum3"), (3, "spmv"), (6, "spmv2"), (4, "jac1d"), (5, "jac2d"), (9, "jac3d"), (4, "markov"), (4, "markov2"),
            (4, "propagation2d"), (2, "ping_pong"), (1, "min"), (1, "resize")]

    def generate(self, src, tier):
        be = src.weighted((14, "mpi"), (2, "tcp2"), (1, "tcp"))
        app = src.weighted(*self.APPS)
        join = src.chance(4)
        if join:
            be, app = "tcp2", "jac1d"
        big = tier != "quick"
        n = src.draw(1, 8) if be == "mpi" else src.draw(1, 4)
        o, a = [], []
        el = 0
        if app in ("vsum", "vsum2"):
            a = [src.size(1, 3000)]
        elif app == "vsum3":
            a = [src.draw(1, 4), src.size(1, 2000)]
        elif app == "spmv":
            a = [src.draw(2, 120)]
        elif app == "spmv2":
            if src.chance(50):
                o.append("-r")
            if src.chance(60):
                o += ["-s", str(src.draw(1, 3))]
                if src.chance(50):
                    o.append("-i")
                if src.chance(60):
                    o += ["-t", str(src.draw(0, n - 1))]
            m = src.draw(1, 10)
            if "-t" in o:
                # the application asserts that the process to remove exists
                k = o.index("-t") + 1
                o[k] = str(min(int(o[k]), max(1, n - max(0, (m - 2) // int(o[1 + o.index("-s")])))))
            a = [m, src.draw(2 * m + 4, 100)]
        elif app == "jac1d":
            a = [src.draw(1, 2), src.draw(1, 25 if big else 14)]
            if src.chance(60):
                a.append(src.draw(1, 5))
            if join:
                a = [1, src.draw(20, 60), -src.draw(1, 3)]
                n = max(n, 2)
                # a process coming after the end waits for others forever
                el = 1
        elif app == "jac2d":
            o = src.subset(["-n", "-s"], 70)
            a = [src.draw(8, 24) if src.chance(60) else src.draw(max(n, 3), 9), src.draw(1, 25)]
        elif app == "jac3d":
            o = src.subset(["-n", "-s", "-r", "-e", "-a", "-g", "-l"], 40)
            if src.chance(25):
                o += ["-x", str(src.draw(1, 4))]
            grid = "-g" in o or "-x" in o
            if src.chance(50):
                o += ["-i", str(src.draw(1, 4))]
                if src.chance(40):
                    o += ["-c", str(src.draw(1, 3))]
            a = [src.draw(6, 10) if src.chance(60) else src.draw(max(n, 3), 8), src.draw(1, 13)]
            if grid and "-i" in o:
                k = o.index("-i")
                del o[k:k + 2]
        elif app in ("markov", "markov2"):
            o = src.subset(["-s", "-f"], 50)
            m = src.draw(max(n, 6), 80)
            a = [m, src.draw(1, min(6, m - 1)), src.draw(1, 8)]
            if app == "markov2" and src.chance(50):
                a.append(src.draw(0, m // n - 1))
            if n == 1 and src.chance(40):
                o.append(src.pick(["-i", "-c"]))
        elif app == "propagation2d":
            o = src.subset(["-o"], 50)
            a = [src.draw(1, 7), src.draw(1, 6)]
        elif app == "ping_pong":
            n = max(n, 2)
            o = src.subset(["-r", "-a", "-s"], 40)
            a = [src.size(n, 2000), src.draw(1, 4)]
        elif app == "resize":
            a = [src.draw(1, 3)]
        c = {"app": app, "n": n, "o": o, "a": a, "el": el, "be": c23.gen_backend(src, n, be)}
        c["head"] = sched(src) + gen_mpi_env(src) if be == "mpi" else (["!env LAIK_LAYOUT_GENERIC 1"] if src.chance(20) else [])
        return c

    def fixed_cases(self, tier):
        return [{"app": "README-example", "n": n, "o": [], "a": [], "el": 0, "be": ["mpi", {}], "head": []} for n in (1, 3)]

    def text(self, case):
        s = Script(case["n"], case["be"][0])
        s.head = case["head"]
        # the application itself initializes LAIK
        s.lines = ["example %s %s" % (case["be"][0], " ".join([case["app"]] + case["o"] + [str(x) for x in case["a"]]))]
        return s.text()

    def summary(self, case):
        return self.text(case) + "# backend %s, joining %d\n" % (case["be"], case["el"])

    def evaluate(self, case, eng):
        be, opts = case["be"]
        n = case["n"]
        if be == "mpi":
            res = eng.run(self.text(case))
        elif case["el"]:
            res = self.elastic(case, eng)
        else:
            res = proc.run(eng.bdir, self.text(case), n, be, opts)
        if not res.ok():
            raise Fail("%s failed: %s" % (case["app"], res.why()))
        lines = {}
        if case["el"]:
            n = max(res.ranks) + 1
        for r in range(n):
            l = res.ranks.get(r, [])
            if "NOEXAMPLE" in l:
                raise Discard("application does not build")
            if "EXIT 0" not in l:
                raise Fail("process %d of %s did not finish" % (r, case["app"]))
            lines[r] = [x[2:] for x in l if x.startswith("P ")]
        f = {"vsum": self.vsum, "vsum2": self.vsum, "vsum3": self.vsum3, "spmv": self.spmv, "spmv2": self.spmv2, "jac1d": self.jac, "jac2d": self.jac,
             "jac3d": self.jac, "markov": self.markov, "markov2": self.markov, "propagation2d": self.prop, "ping_pong": self.ping, "min": self.hello,
             "resize": self.hello, "README-example": self.readme}[case["app"]]
        f(case, n, lines)
        return {"nontrivial": n > 1 or case["el"] > 0, "classes": [case["app"], be] + (["joined %d" % (n - case["n"])] if case["el"] else []) + ["opt %s %s" % (case["app"], x) for x in case["o"] if x[0] == "-"],
                "counts": {"lines": sum(map(len, lines.values()))}}

    def elastic(self, case, eng):
        n = case["n"]
        run = proc.Run(eng.bdir, "tcp2", n, case["be"][1])
        try:
            for _ in range(n + case["el"]):
                run.start(self.text(case))
            return run.wait_master(30)
        finally:
            run.close()

    # -------------------------------------------------------------- output
    @staticmethod
    def val(case, lines, pat, want, **kw):
        """the only line among lines matching pat has the wanted values"""
        m = [x for x in (re.match(pat + "$", l) for l in lines) if x]
        if len(m) != 1:
            raise Fail("%s: %d lines '%s' instead of one" % (case["app"], len(m), pat))
        got = [float(x) for x in m[0].groups()]
        if len(got) != len(want) or not all(near(g, w, **kw) for g, w in zip(got, want)):
            raise Fail("%s: '%s', but values are %s" % (case["app"], m[0].group(0), ", ".join("%.9g" % w for w in want)))

    def only0(self, case, n, lines):
        for r in range(1, n):
            if lines[r]:
                raise Fail("%s: process %d prints '%s'" % (case["app"], r, lines[r][0]))

    def vsum(self, case, n, lines):
        size = case["a"][0]
        tot = size * (size - 1) / 2
        self.val(case, lines[0], "Total sums: %s, %s, %s, %s" % (F, F, F, F), [tot] * 4)
        part = [0.0] * 4
        for r in range(n):
            m = [x for x in (re.match(r"Id (\d+): partitial sums %s, %s, %s, %s$" % (F, F, F, F), l) for l in lines[r]) if x]
            if len(m) != 1 or int(m[0].group(1)) != r:
                raise Fail("%s: no partial sums of process %d" % (case["app"], r))
            for k in range(4):
                part[k] += float(m[0].group(2 + k))
            if r == 0 and n > 1 and float(m[0].group(5)) != 0:
                raise Fail("%s: process 0 has weight 0, but cells" % case["app"])
        if any(p != tot for p in part):
            raise Fail("%s: partial sums add up to %s instead of %s" % (case["app"], part, tot))

    def vsum3(self, case, n, lines):
        maxit, size = case["a"]
        for ph in range(maxit + 1):
            self.val(case, lines[0], "Phase %d: total sum: %s" % (ph, F), [size * (size - 1) / 2])
            at = 0
            for r in range(n):
                m = [x for x in (re.match(r"Phase %d, Epoch \d+, Proc %d/%d: sum of (\d+) values at (-?\d+) - (-?\d+) : %s$" % (ph, r, n, F), l) for l in lines[r]) if x]
                if len(m) != 1:
                    raise Fail("vsum3: no sum of process %d in phase %d" % (r, ph))
                c, f, t = (int(m[0].group(k)) for k in (1, 2, 3))
                if c == 0:
                    continue
                if f != at or t + 1 - f != c or float(m[0].group(4)) != sum(range(f, t + 1)):
                    raise Fail("vsum3: wrong sum: '%s'" % m[0].group(0))
                at = t + 1
            if at != size:
                raise Fail("vsum3: blocks cover %d cells of %d" % (at, size))

    def spmv(self, case, n, lines):
        size = case["a"][0]
        w = float(sum((size - r) * sum(c + 1 for c in range(r)) for r in range(size)))
        self.val(case, lines[0], r"Res sum \(regular\): " + F, [w])
        self.val(case, lines[0], r"Res sum \(reduce\): " + F, [w])
        self.only0(case, n, lines)

    def spmv2(self, case, n, lines):
        maxit, size = case["a"]
        v = [1.0] * size
        ref = []
        for _ in range(maxit):
            run, w = 0.0, []
            for r in range(size):
                w.append((size - r) * run)
                run += v[r]
            s = sum(w)
            ref.append(s)
            v = [x / s for x in w]
        # the first remaining process prints
        all_ = [l for r in range(n) for l in lines[r]]
        for k, s in enumerate(ref):
            self.val(case, all_, "Sum at iter %2d: %s" % (k, F), [s])
        self.val(case, all_, r"Result sum: %s \(should be same as last iter sum\)" % F, [ref[-1]])
        self.val(case, all_, r"Input sum: %s \(should be 1.0\)" % F, [1.0])

    def jac(self, case, n, lines):
        app, a = case["app"], case["a"]
        ref = jac1d(a[0], a[1]) if app == "jac1d" else (jac2d if app == "jac2d" else jac3d)(a[0], a[1], "-s" in case["o"])
        if any(k == "res" and abs(v - .001) < 1e-7 for k, _, v in ref):
            raise Discard("end of iteration not decided")
        # with shrinking or joining, the process with ID 0 may change
        all_ = [l for r in range(n) for l in lines[r]]
        for k, it, v in ref:
            if k == "res":
                self.val(case, all_, "Residuum after %2d iters: %s" % (it, F), [v])
            else:
                self.val(case, all_, "Global value sum after %d iterations: %s" % (it, F), [v])
        c = sum(l.startswith(("Residuum", "Global")) for l in all_)
        if c != len(ref):
            raise Fail("%s prints %d results instead of %d" % (app, c, len(ref)))

    def markov(self, case, n, lines):
        a = case["a"]
        fine = "-f" in case["o"]
        if case["app"] == "markov2":
            m = max(a[0], 5)
            deg = a[1]
            st = [unit(m, a[3])] if len(a) > 3 and a[3] < m else [[1.0 / m] * m]
            got = [l for l in lines[0] if l.startswith("Result probs")]
            inc = False
        else:
            m, deg = a[0], a[1]
            st = [unit(m, 0), unit(m, 1), [1.0 / m] * m]
            got = [l.strip() for l in lines[0] if "result probs" in l]
            inc = True
        if len(got) != len(st):
            raise Fail("%s prints %d results instead of %d" % (case["app"], len(got), len(st)))
        for l, s in zip(got, st):
            self.val(case, [l], ".esult probs: p0 = %s, p1 = %s, p2 = %s, Sum: %s" % (F, F, F, F), markov(m, deg, fine, inc, a[2], s), rel=2e-5, ab=1e-6)
        self.only0(case, n, lines)

    def prop(self, case, n, lines):
        self.val(case, lines[0], "calculated: " + F, [1.0])
        self.only0(case, n, lines)

    def ping(self, case, n, lines):
        if not any(l.startswith("GB/s") for l in lines[0]):
            raise Fail("ping_pong gives no result")
        self.only0(case, n, lines)

    def hello(self, case, n, lines):
        for r in range(n):
            w = ["Hello from process %d (from %d)" % (r, n)] if case["app"] == "min" else ["Hello from process %d of %d" % (r, n)] * (case["a"][0] + 1)
            if [re.sub("^Epoch .*: ", "", l) for l in lines[r]] != w:
                raise Fail("%s: process %d prints %s" % (case["app"], r, lines[r]))

    def readme(self, case, n, lines):
        self.val(case, lines[0], "Result: " + F, [1e6])
        self.only0(case, n, lines)


CHECK = C28()
