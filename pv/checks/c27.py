"""C27: logging and profiling do not change behaviour, and log messages appear as they were given."""
import importlib, os, re
from ..core import Check, Discard, Fail
from ..model import *
from .. import proc

BASES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
         "C21", "C22", "C23", "C24", "C25", "C26"]
_mods = {}


def base(pid):
    if pid not in _mods:
        _mods[pid] = importlib.import_module("pv.checks." + pid.lower()).CHECK
    return _mods[pid]


ADDR = ("ADDRS ", "A ", "MAPS ", "M ", "ALLOC ", "PROV ", "PROVIDED ", "SIM zz")
PRE = re.compile(r"^(@\S+ )?")


def amend(text, log, first=None):
    """script with log commands"""
    out = [l for l in text.split("\n")]
    if log.get("levels") or log.get("objs") or log.get("prof") or log.get("names"):
        res = []
        init = False
        stored = None
        n = 0
        own = dict((tuple(x[:1]), x[1:]) for x in log.get("levels", []))
        for l in out:
            # profiling and logging stop with finalize
            b = l.split(" ", 1)[1] if l.startswith("@") and " " in l else l
            res.append(l)
            if b.startswith("init ") and not init:
                init = True
                if log.get("prof"):
                    res += ["profon", "profuser 1"]
                continue
            if not init or b.startswith("finalize"):
                init = init and not b.startswith("finalize")
                continue
            n += 1
            pre = l[:len(l) - len(b)]
            w = b.split()
            if w and len(w) > 1 and log.get("names") and w[0] in ("data", "part") and w[1].isdigit():
                res.append("%s%s %s %s" % (pre, "dname" if w[0] == "data" else "pname", w[1], "N" * log["names"]))
            if w and len(w) > 1 and log.get("objs") and w[0] in ("part", "pstore", "pmigrate", "trans", "actions", "data", "space", "switch") and w[1].isdigit():
                res.append("%slogobj %s %s 3" % (pre, {"part": "p", "pstore": "p", "pmigrate": "p", "trans": "t", "actions": "a", "data": "d", "space": "s", "switch": "d"}[w[0]], w[1]))
            if len(w) > 1 and w[0] == "pstore":
                stored = (w[1], pre)
            if len(w) > 1 and w[0] == "pfree" and log.get("objs") and stored:
                if stored[0] == w[1]:
                    stored = None
                else:
                    res.append("%slogobj p %s 3" % (stored[1], stored[0]))
            for pos, lv, ranks in log.get("levels", []):
                if pos == n:
                    res.append(("@%s " % ",".join(map(str, ranks)) if ranks else "") + "loglevel %d" % lv)
            if log.get("prof") and n % 7 == 3:
                res.append(["profuser 0", "profuser 1", "profreset"][n % 3])
        out = res
    return "\n".join(out)


class LogEngine:
    """runs a script without and with logging, and compares"""

    def __init__(self, eng, log):
        self.eng, self.log = eng, log
        self.bdir = eng.bdir
        self.logged = False

    def run(self, text, timeout=20000):
        sim = "\ninit mpi" in "\n" + text
        if sim:
            text = re.sub(r"(?m)^(@\S+ )?finalize$", lambda m: (m.group(1) or "") + "simstat zz\n" + m.group(0), text)
        b = self.eng.run(text, timeout)
        if not b.ok():
            raise Discard("not with logging")
        t = amend(text, self.log)
        if self.log["env"]:
            t = "!env LAIK_LOG %s\n" % self.log["env"] + t
        r = self.eng.run(t, timeout * 3)
        r.require_ok("run with %s" % self.log)
        if sorted(b.ranks) != sorted(r.ranks):
            raise Fail("run with %s: processes %s, without %s" % (self.log, sorted(r.ranks), sorted(b.ranks)))
        for k in sorted(b.ranks):
            x, y = ([re.sub(r"(simnode\d+:)\d+", r"\1", l) for l in z.ranks[k] if not l.startswith(ADDR)] for z in (b, r))
            if x != y:
                d = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                raise Fail("run with %s: process %d differs: %s, without %s" % (self.log, k, y[d:d + 1], x[d:d + 1]))
            if sim:
                x, y = ([l for l in z.ranks[k] if l.startswith("SIM zz")] for z in (b, r))
                if x != y:
                    raise Fail("run with %s: communication of process %d differs: %s, without %s" % (self.log, k, y, x))
                r.ranks[k] = [l for l in r.ranks[k] if not l.startswith("SIM zz")]
        self.logged = self.logged or "== " in r.stderr
        return r


LEVELS = ["1", "2", "1", "n1", "s1", "3", "s2", "n4"]


def gen_word(src):
    n = src.weighted((12, 1), (6, 2), (2, 3), (1, 4))
    l = src.draw(1, {1: 9, 2: 40, 3: 130, 4: 1200}[n])
    c = src.pick("abcxyz%0._-/[;'")
    return (src.pick(["%s", "%n", "", "", "", "x"]) + c * l)[:max(l, 2)]


def gen_text(src):
    out = []
    for _ in range(src.weighted((6, 1), (3, 2), (2, 4))):
        k = src.weighted((8, 0), (3, 1), (2, 2), (1, 3))
        out.append(" " * {0: 0, 1: 3, 2: src.draw(0, 30), 3: src.draw(0, 300)}[k] + " ".join(gen_word(src) for _ in range(src.draw(0 if src.chance(20) else 1, src.pick([4, 10, 40])))))
    return "\n".join(out)


class C27(Check):
    id = "C27"
    rule = "log output was written (or profiling active) while the base program moved data or did what its own non-triviality rule demands; for message cases: a message was shown"
    quick, thorough = 2500, 40000
    nso = 14
    technique = ("property-based testing, metamorphic: programs generated by the other checks run without and with generated log settings (levels, process filters, changes at run time, "
                 "debug output of objects, profiling, log files), requiring identical observations and MPI traffic plus the oracle of the base check; generated log messages "
                 "compared with the output after removing the prefix; sanitizers; shrinking")
    assumptions = ["memory addresses may differ", "levels up to Error (Panic terminates by design)"]

    def generate(self, src, tier):
        if src.chance(25):
            return self.gen_msgs(src)
        pid = src.pick(BASES)
        b = base(pid)
        log = {"env": src.pick(LEVELS) if src.chance(75) else ""}
        if log["env"] and src.chance(25):
            f = src.draw(0, 4)
            log["env"] += ":%d" % f + ("-%d" % src.draw(f, 6) if src.chance(60) else "")
        if not log["env"] or src.chance(25):
            log["levels"] = [[src.draw(1, 40), src.pick([1, 1, 2, 3, 4]), []] for _ in range(src.draw(1, 3))]
        if src.chance(40):
            log["objs"] = 1
        if src.chance(25):
            log["prof"] = 1
        if src.chance(15):
            log["names"] = src.pick([1, 80, 150, 300, 2000])
        log["file"] = src.weighted((6, ""), (2, "log"), (1, "nodir/log"))
        log["procs"] = src.pick([7, 1, 2, 5, 255])
        c = b.generate(src, "quick")
        # C26 reads the log itself
        c.pop("report", None)
        return {"kind": "prog", "base": pid, "case": c, "log": log}

    def gen_msgs(self, src):
        ops = []
        for _ in range(src.draw(1, 8)):
            k = src.weighted((5, "msg"), (4, "steps"), (1, "inc"), (1, "level"), (1, "shown"))
            if k == "msg":
                ops.append(["msg", src.draw(1, 4), gen_text(src)])
            elif k == "steps":
                ops.append(["steps", src.draw(1, 4), [gen_text(src) for _ in range(src.draw(0, 4))], gen_text(src) if src.chance(50) else None])
            elif k in ("level", "shown"):
                ops.append([k, src.draw(1, 4)])
            else:
                ops.append([k])
        e = ""
        if src.chance(80):
            e = src.pick(["", "", "n", "s"]) + str(src.draw(1, 4))
            if src.chance(20):
                e += src.pick([":0", ":1", ":0-3", ":1-2"])
        return {"kind": "msgs", "ops": ops, "env": e, "file": src.weighted((6, ""), (3, "log"), (1, "nodir/log"))}

    def msgtext(self, case):
        L = ["init single"]
        hx = lambda s: s.encode().hex() or "-"
        for i, o in enumerate(case["ops"]):
            if o[0] == "msg":
                L.append("logmsg %d %s" % (o[1], hx("M%dM %s" % (i, o[2]))))
            elif o[0] == "steps":
                L.append("logbegin %d" % o[1])
                L.append("logappend %s" % hx("M%dM " % i))
                L += ["logappend %s" % hx(x) for x in o[2]]
                L.append("logflush" + (" " + hx(o[3]) if o[3] is not None else ""))
            elif o[0] == "level":
                L.append("loglevel %d" % o[1])
            elif o[0] == "shown":
                L.append("logshown %d" % o[1])
            else:
                L.append("loginc")
        L += ["logout first", "finalize", "logout last"]
        return "\n".join(L) + "\n"

    def summary(self, case):
        if case["kind"] == "script":
            return case["text"]
        if case["kind"] == "msgs":
            return "LAIK_LOG=%s LAIK_LOG_FILE=%s\n%s" % (case["env"], case["file"], case["ops"])
        return "%s with %s\n%s" % (case["base"], case["log"], base(case["base"]).summary(case["case"]))

    def eval_msgs(self, case, eng):
        run = proc.Run(eng.bdir, "single", 1, {})
        env = {}
        if case["env"]:
            env["LAIK_LOG"] = case["env"]
        if case["file"]:
            env["LAIK_LOG_FILE"] = case["file"]
        try:
            run.start(self.msgtext(case), env)
            res = run.wait(20)
            with open(run.dir + "/e0", errors="replace") as f:
                err = f.read()
            if case["file"] == "log":
                res.require_ok()
                with open(run.dir + "/log") as f:
                    err = f.read()
        finally:
            run.close()
        res.require_ok()
        for w in ("OUTLINE", "ERRLINE"):
            for x in ("first", "last"):
                if "%s %s" % (w, x) not in err.split("\n"):
                    raise Fail("output '%s %s' of the program is missing" % (w, x))
        # model
        opt = case["env"][:1] if case["env"][:1] in ("n", "s") else ""
        e = case["env"].lstrip("ns")
        lev = int(e.split(":")[0]) if e else 4
        filt = True
        if ":" in e:
            f = e.split(":")[1].split("-")
            filt = int(f[0]) <= 0 <= int(f[-1])
        want = {}
        outs = []
        ctr = 0
        for i, o in enumerate(case["ops"]):
            if o[0] == "level":
                lev = o[1]
            elif o[0] == "shown":
                outs.append("LOGSHOWN %d" % (o[1] >= lev))
            elif o[0] == "inc":
                ctr += 1
            else:
                t = o[2] if o[0] == "msg" else "".join(o[2]) + (o[3] or "")
                show = o[1] >= lev and filt
                if o[0] == "steps":
                    outs.append("LOGBEGIN %d" % show)
                if show:
                    want[i] = (o[1], ctr, "M%dM %s" % (i, t))
        if res.ranks[0] != outs:
            raise Fail("shown: %s, expected %s" % (res.ranks[0], outs))
        # messages in output
        got = {}
        cur = None
        order = []
        for l in err.split("\n"):
            if l.startswith("== "):
                cur = None
                m = re.search(r"\bM(\d+)M\b", l)
                if m:
                    cur = int(m.group(1))
                    if cur in got:
                        raise Fail("message %d shown twice" % cur)
                    got[cur] = []
                    order.append(cur)
            elif not l.startswith(".. "):
                cur = None
            if cur is not None:
                got[cur].append(l)
        if order != sorted(want):
            raise Fail("messages shown: %s, expected %s" % (order, sorted(want)))
        for i, L in got.items():
            lv, c, text = want[i]
            body = []
            for k, l in enumerate(L):
                l = l[3:]
                if opt == "s":
                    m = re.match(r"L(\d\d) \| ", l)
                    ok = m and m.group(1) == "00"
                elif opt == "n":
                    m = re.match("", l)
                    ok = True
                else:
                    m = re.match(r"LAIK-(\d{4})-L(\d\d) (\d{4})\.(\d\d+) +\d+:\d\d\.\d{3} \| ", l)
                    ok = m and (m.group(1), m.group(2), m.group(4)) == ("%04d" % c, "00", "%02d" % (k + 1))
                if not ok:
                    raise Fail("message %d: prefix of line %r" % (i, L[k]))
                l = l[m.end():]
                if lv >= 3:
                    p = "%-7s: " % (({3: "Warning", 4: "ERROR"}[lv]) if k == 0 else "")
                    if not l.startswith(p):
                        raise Fail("message %d: no level in line %r" % (i, L[k]))
                    l = l[len(p):]
                body.append(l)
            # words are complete and in order, lines start on a new line with same indentation
            lines = [x for x in text.split("\n") if x.strip()]
            body = [x for x in body if x.strip()]           # spaces only: where a line is broken may be anywhere
            pos = 0
            for t in lines:
                ind = len(t) - len(t.lstrip(" "))
                words = t.split()
                first = True
                while words or first:
                    if pos >= len(body):
                        raise Fail("message %d: line %r not complete in %s" % (i, t, L))
                    b = body[pos]
                    pos += 1
                    g = b.split()
                    if g != words[:len(g)] or (words and not g and first):
                        raise Fail("message %d: output %r for %r" % (i, b, t))
                    del words[:len(g)]
                    bi = len(b) - len(b.lstrip(" "))
                    if g and (bi != ind if first else bi < ind + 4):       # text may have several spaces at the break
                        raise Fail("message %d: output %r indented by %d instead of %d" % (i, b, bi, ind if first else ind + 4))
                    first = False
            if pos != len(body):
                raise Fail("message %d: additional output %s" % (i, body[pos:]))
        cl = {"msgs", "opt-" + (opt or "long")}
        if case["file"]:
            cl.add("file" if case["file"] == "log" else "bad-file")
        if want and any(len(l) > 110 for L in got.values() for l in L):
            cl.add("long-lines")
        return {"nontrivial": bool(want), "classes": sorted(cl), "counts": {"messages": len(want)}}

    def fixed_cases(self, tier):
        # debug output of a partitioning whose ranges were filtered by another one which is freed meanwhile
        return [{"kind": "script", "text": "\n".join(
            ["init fake 3", "loglevel %d" % l, "space 0 1 0 %d" % n, "pr 0 block 0 1 0 none none", "pr 1 All", "part 0 0 0 0 -1 3", "part 1 0 0 1 -1 3",
             "pstore 0 inter 1", "logobj p 0 3", "pfree 1", "logobj p 0 3", "finalize"]) + "\n"} for l in (1, 3) for n in (7, 12)]

    def evaluate(self, case, eng):
        if case["kind"] == "msgs":
            return self.eval_msgs(case, eng)
        if case["kind"] == "script":
            r = eng.run(case["text"])
            r.require_ok()
            return {"nontrivial": "object " in r.stderr, "classes": ["script"], "counts": {}}
        log = case["log"]
        b = base(case["base"])
        e = LogEngine(eng, log)

        def hook(run, i, text, env):
            if not (log["procs"] >> i) & 1:
                return text, env
            env = dict(env)
            if log["env"]:
                env["LAIK_LOG"] = log["env"]
            if log["file"]:
                env["LAIK_LOG_FILE"] = log["file"]
            e.logged = e.logged or bool(log["env"] or log.get("levels") or log.get("objs"))
            return amend(text, log), env
        proc.hook = hook
        try:
            d = b.evaluate(case["case"], e)
        finally:
            proc.hook = None
        cl = [case["base"], "logged" if e.logged else "silent"] + [k for k in ("levels", "objs", "prof", "names") if log.get(k)]
        if log["env"]:
            cl.append("level-" + log["env"].split(":")[0])
            if ":" in log["env"]:
                cl.append("filter")
        return {"nontrivial": bool(d["nontrivial"]) and (e.logged or bool(log.get("prof"))), "classes": cl, "counts": {"base": 1}}


CHECK = C27()
