"""Choice-sequence generator, case runner, shrinker, evidence and command line
shared by all checks."""
import hashlib, importlib, json, multiprocessing as mp, os, random, select, signal, subprocess, sys, time, traceback

from . import build as B

VERIF = B.VERIF
ASAN = ("detect_leaks=0:detect_odr_violation=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:"
        "max_malloc_fill_size=1000000000:malloc_fill_byte=170:handle_abort=0:symbolize=1:detect_stack_use_after_return=0")


# ------------------------------------------------------------------ choices
class Src:
    """Source of all random choices. Recorded as a list of integers, so that a
    case can be replayed and shrunk by editing the list."""

    def __init__(self, seed=None, choices=None):
        self.rnd = random.Random(seed) if choices is None else None
        self.given = choices
        self.rec = []

    def draw(self, lo, hi):
        """integer in [lo, hi]; lo is the simplest value"""
        n = hi - lo
        if n <= 0:
            return lo
        if self.rnd is not None:
            v = self.rnd.randint(0, n)
        else:
            i = len(self.rec)
            v = self.given[i] if i < len(self.given) else 0
            if v > n:
                v = n
        self.rec.append(v)
        return lo + v

    def pick(self, seq):
        return seq[self.draw(0, len(seq) - 1)]

    def chance(self, pct):
        """True with given probability; False is simplest"""
        return self.draw(0, 99) >= 100 - pct

    def weighted(self, *pairs):
        """pairs of (weight, value); the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        v = self.draw(0, tot - 1)
        for w, x in pairs:
            if v < w:
                return x
            v -= w

    def size(self, lo, hi):
        """integer in [lo,hi], biased to small values"""
        k = self.draw(0, 3)
        if k <= 1:
            return self.draw(lo, min(hi, lo + max(1, (hi - lo) // 8)))
        if k == 2:
            return self.draw(lo, min(hi, lo + max(1, (hi - lo) // 3)))
        return self.draw(lo, hi)

    def shuffle(self, l):
        l = list(l)
        for i in range(len(l) - 1, 0, -1):
            j = i - self.draw(0, i)
            l[i], l[j] = l[j], l[i]
        return l

    def subset(self, l, pct=50, atleast=0):
        l = list(l)
        s = [x for x in l if self.chance(pct)]
        while len(s) < atleast:
            rest = [x for x in l if x not in s]
            s.append(self.pick(rest))
        return sorted(s, key=l.index)


# ------------------------------------------------------------------ engine
class Fail(Exception):
    """property broken on this case"""


class Discard(Exception):
    """case not usable (counted)"""


class Result:
    def __init__(self, status, body):
        self.status = status          # OK, TIMEOUT, SIGNALn, EXITn
        self.sim = None
        self.simlines = []
        self.ranks = {}
        self.done = {}
        self.stderr = ""
        self.body = body
        cur = None
        it = iter(body.split("\n"))
        for l in it:
            if l == "#stderr":
                self.stderr = "\n".join(it)
                break
            if self.sim is None and l.startswith("!"):
                self.sim = l[1:]
            elif l.startswith("#rank "):
                p = l.split()
                cur = int(p[1])
                self.ranks[cur] = []
                self.done[cur] = p[2] != "running"
            elif l == "#end":
                cur = None
            elif cur is not None:
                self.ranks[cur].append(l)
            elif l:
                self.simlines.append(l)

    def ok(self):
        return self.status == "OK" and self.sim == "OK"

    def why(self):
        tail = self.stderr.strip().split("\n")
        keep = [l for l in tail if any(k in l for k in ("ERROR", "ssert", "PANIC", "anic", "driver:", "SUMMARY"))]
        return "%s/%s %s %s" % (self.status, self.sim, "; ".join(self.simlines[:4]), " | ".join((keep or tail)[:4])[:600])

    def require_ok(self, what="run"):
        if self.sim in ("LIMIT",):
            raise Discard("LIMIT")
        if self.sim == "BADCASE":
            raise RuntimeError("harness problem: " + self.why())
        if not self.ok():
            raise Fail("%s failed: %s" % (what, self.why()))

    def tagged(self, rank, tag):
        """all lines of a rank starting with tag"""
        return [l for l in self.ranks.get(rank, []) if l.split(" ", 1)[0] == tag]


class Engine:
    def __init__(self, bdir, nso=8):
        self.bdir, self.nso = bdir, nso
        self.p = None

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ASAN
        for k in list(env):
            if k.startswith("LAIK_"):
                del env[k]
        self.p = subprocess.Popen([self.bdir + "/engine", self.bdir + "/rank", str(self.nso)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, bufsize=0)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
            self.p = None

    def _read(self, n):
        out = b""
        while len(out) < n:
            x = self.p.stdout.read(n - len(out))
            if not x:
                raise EOFError
            out += x
        return out

    def run(self, text, timeout=20000):
        for attempt in (0, 1, 2):
            try:
                if not self.p:
                    self.start()
                b = text.encode()
                self.p.stdin.write(b"%d %d\n" % (len(b), timeout) + b)
                hdr = b""
                while not hdr.endswith(b"\n"):
                    hdr += self._read(1)
                st, n = hdr.split()
                return Result(st.decode(), self._read(int(n)).decode(errors="replace"))
            except (EOFError, BrokenPipeError, OSError):
                self.p = None
        raise RuntimeError("engine does not run")


# ------------------------------------------------------------------ checks
class Check:
    """One property. Subclasses define generate(src, tier) -> case (JSON-able
    dict) and evaluate(case, eng) which raises Fail, or returns
    dict(nontrivial=bool, classes=[..])."""
    id = "C00"
    rule = ""
    quick = 200
    thorough = 4000
    assumptions = []
    workers = 8
    nso = 8
    needs_engine = True
    technique = "property-based testing: generated cases on simulated MPI with seeded schedules, against a reference model; shrinking"
    level_note = ("Generated-input search against an explicit reference model; shows no violation among the generated cases, not absence. "
                  "Trusts the simulated MPI (engine/sim.c) and the model (pv/).")

    def generate(self, src, tier):
        raise NotImplementedError

    def evaluate(self, case, eng):
        raise NotImplementedError

    def fixed_cases(self, tier):
        """cases always run (enumerated corners); list of case dicts"""
        return []

    def summary(self, case):
        t = case.get("text") or case
        return t if isinstance(t, str) else json.dumps(t)


def load(pid):
    return importlib.import_module("pv.checks." + pid.lower()).CHECK


def case_seed(base, pid, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (base, pid, i)).encode()).digest()[:8], "big")


_w = {}


def _winit(pid, bdir, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    c = load(pid)
    _w.update(check=c, eng=Engine(bdir, c.nso) if c.needs_engine else bdir, tier=tier, seed=seed)


def _one(check, eng, case):
    """-> (kind, info) kind: ok fail discard"""
    try:
        return "ok", check.evaluate(case, eng) or {}
    except Fail as e:
        return "fail", str(e)
    except Discard as e:
        return "discard", str(e)
    except (ValueError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ZeroDivisionError, StopIteration) as e:
        # what was printed cannot be interpreted: values missing or out of any range
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return "fail", UNINT + " %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)


UNINT = "observations make no sense:"


def _wrun(i):
    c = _w["check"]
    try:
        if isinstance(i, int):
            src = Src(seed=case_seed(_w["seed"], c.id, i))
            try:
                case = c.generate(src, _w["tier"])
            except Discard as e:
                return i, "discard", str(e), None, None
            rec = src.rec
        else:
            i, case = i
            rec = None
        kind, info = _one(c, _w["eng"], case)
        js = json.dumps(case, sort_keys=True)
        h = hashlib.sha1(js.encode()).hexdigest()[:16]
        sample = None
        if kind == "fail" or (isinstance(i, int) and i < 40):
            sample = (case, rec)
        return i, kind, info, h, sample
    except Exception:
        return i, "error", traceback.format_exc(), None, None


def shrink(check, eng, rec, tier, odd=False, budget=45.0):
    """shrink list of choices while the case still fails"""
    t0 = time.time()
    best = list(rec)
    src = Src(choices=best)
    bestcase = check.generate(src, tier)
    bestmsg = None
    tries = 0

    def attempt(ch):
        nonlocal best, bestcase, bestmsg, tries
        if time.time() - t0 > budget:
            return False
        tries += 1
        s = Src(choices=ch)
        try:
            case = check.generate(s, tier)
            kind, info = _one(check, eng, case)
        except Exception:
            return False
        if kind == "fail" and info.startswith(UNINT) and not odd:
            return False
        if kind == "fail":
            new = list(s.rec)
            while new and new[-1] == 0:
                new.pop()
            if (len(new), new) < (len(best), best):
                best, bestcase, bestmsg = new, case, info
                return True
        return False

    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for k in (64, 32, 16, 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() - t0 < budget:
                if attempt(best[:i] + best[i + k:]):
                    progress = True
                else:
                    i += k
        for k in (8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() - t0 < budget:
                if any(best[i:i + k]) and attempt(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]):
                    progress = True
                i += k
        i = 0
        while i < len(best) and time.time() - t0 < budget:
            lo, hi = 0, best[i]
            while lo < hi and time.time() - t0 < budget:
                mid = (lo + hi) // 2
                if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                    progress = True
                    hi = mid if i < len(best) else lo
                else:
                    lo = mid + 1
            i += 1
    return bestcase, bestmsg, len(best), tries


def known_findings():
    """list of dicts: {"property", "id", "what", "case"} (findings) from known_findings.jsonl"""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def main(argv):
    pid = argv[0]
    check = load(pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cases_n = None
    replay = None
    shrink_on = True
    a = argv[1:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--cases":
            cases_n = int(a.pop(0))
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--no-shrink":
            shrink_on = False
        elif x == "--case":       # single generated case, verbose
            i = int(a.pop(0))
            bdir = B.build()
            src = Src(seed=case_seed(seed, pid, i))
            case = check.generate(src, tier)
            print(check.summary(case))
            print(_one(check, Engine(bdir, check.nso) if check.needs_engine else bdir, case))
            return 0
    t0 = time.time()
    try:
        bdir = B.build()
    except B.BuildError as e:
        print("build of the tree under test failed:\n" + str(e))
        return 2
    if replay:
        eng = Engine(bdir, check.nso) if check.needs_engine else bdir
        case = json.load(open(replay))["case"]
        kind, info = _one(check, eng, case)
        print(check.summary(case))
        print(kind, info)
        return 1 if kind == "fail" else 0

    n = cases_n if cases_n is not None else (check.quick if tier == "quick" else check.thorough)
    findings = [f for f in known_findings() if f["property"] == pid]
    fixed = [("fixed%d" % k, c) for k, c in enumerate(check.fixed_cases(tier))]
    rdir = os.path.join(VERIF, "regress", pid)
    if os.path.isdir(rdir):
        for f in sorted(os.listdir(rdir)):
            fixed.append(("regress/" + f, json.load(open(os.path.join(rdir, f)))["case"]))
    jobs = fixed + list(range(n))
    evals = 0
    nontriv = set()
    discards = {}
    classes = {}
    samples = []
    failures = []
    errors = []
    hist = {}
    ctx = mp.get_context("fork")
    deadline = t0 + (1e9 if cases_n else (420 if tier == "quick" else 780))
    with ctx.Pool(check.workers, _winit, (pid, bdir, tier, seed)) as pool:
        for i, kind, info, h, sample in pool.imap_unordered(_wrun, jobs, chunksize=1):
            if kind == "error":
                errors.append(info)
                if len(errors) > 3:
                    pool.terminate()
                    break
                continue
            if kind == "discard":
                discards[info] = discards.get(info, 0) + 1
                continue
            evals += 1
            if kind == "fail":
                failures.append((i, info, sample))
                if len(failures) >= 6:
                    pool.terminate()
                    break
                continue
            for c in info.get("classes", []):
                classes[c] = classes.get(c, 0) + 1
            for k, v in info.get("counts", {}).items():
                hist[k] = hist.get(k, 0) + v
            if info.get("nontrivial"):
                nontriv.add(h)
                if sample and len(samples) < 3:
                    samples.append(check.summary(sample[0])[:3000])
            if time.time() > deadline:
                pool.terminate()
                break
    if errors:
        print("harness errors:\n" + "\n".join(errors[:2]))

    eng = Engine(bdir, check.nso) if check.needs_engine else bdir
    rc = 0
    # listed findings: still there?
    for f in findings:
        kind, info = _one(check, eng, f["case"])
        if kind == "fail":
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, f["id"], f["what"]))
    # report failures (confirmed by replay)
    violations = 0
    failures.sort(key=lambda x: str(x[0]) if not isinstance(x[0], int) else "%09d" % x[0])
    flaky = []
    for i, info, (case, rec) in failures[:6]:
        again = []
        for _ in range(3):
            k2, i2 = _one(check, eng, case)
            again.append(k2)
        if again.count("fail") < 3:
            flaky.append((i, info, again))
            continue
        msg = info
        if rec is not None and shrink_on:
            c2, m2, ln, tries = shrink(check, eng, rec, tier, msg.startswith(UNINT))
            if m2:
                case, msg = c2, m2
        od = os.path.join(VERIF, "out")
        os.makedirs(od, exist_ok=True)
        path = os.path.join(od, "%s-%s-seed%d.json" % (pid, str(i).replace("/", "_"), seed))
        with open(path, "w") as fh:
            json.dump({"property": pid, "message": msg, "case": case, "choices": rec, "case_no": str(i), "seed": seed, "tier": tier}, fh, indent=1)
        print("case %s: %s" % (i, msg))
        print(check.summary(case)[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        violations += 1
        rc = 1
        break
    for f in flaky:
        print("not reproduced (ignored): case %s: %s %s" % f)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": check.rule,
                       "samples": samples or ["(none)"], "classes": dict(sorted(classes.items())),
                       "counts": hist, "discarded": discards, "fixed_cases": len(fixed),
                       "planned": len(jobs), "not_reproduced": len(flaky)},
          "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s seed %d: %d cases, %d non-trivial, %d discarded, %d failing, %.1fs %s" %
          (pid, tier, seed, evals, len(nontriv), sum(discards.values()), len(failures), wall, json.dumps(classes, sort_keys=True)))
    if rc == 0 and errors:
        return 2
    return rc
