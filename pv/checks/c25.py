"""C25: anything sent to the listening ports of TCP2 processes is tolerated, and does not influence the computation."""
import os, re, socket, struct, threading, time
from ..core import Check, Discard, Fail
from ..model import *
from .. import hist, proc

HELP0, HELP1 = "# Interactive usage", "#  b                            : process accepts binary data format"
FIRST = "# first register, see 'help'"
LINES = ["help", "h", "status", "s", "stat", "helpme please", "# comment", "#", "", " ", "register", "register loc", "register loc -", "register loc localhost",
         "register loc localhost 1 b", "register a b c d", "register loc localhost 99999999999999999999 bin", "cutoff", "cutoff L1", "cutoff .*", "cutoff [", "cutoff (((", "cutoff nowhere",
         "cutoff ^L0:", "cutoff " + "a" * 60, "myid", "myid x", "myid -1", "myid 9", "myid 255", "myid 256", "myid 1000000", "myid 99999999999999999999", "my",
         "id 1 a b 2 -", "newid 3 a b 4 b", "enterresize 1 1", "enterresize", "backedout 1", "phase 1 1", "phase", "allowsend 100 8", "allowsend -1 0", "data 8 0102030405060708",
         "data 8 (3) 01", "data", "kvs allow x", "kvs changes 3", "kvs data a b", "kvs remove a", "kvs", "k", "getready", "ok", "B", "Bx", "BBB", "B\x01\x00x", "GET / HTTP/1.1", "Host: x",
         "%s%n%d%s", "\xff\xfe", "\x00", "a\x00b", "\x7f"]


def gen_line(src):
    w = src.weighted((10, "known"), (3, "word"), (3, "rnd"), (2, "longarg"), (1, "long"), (1, "max"))
    if w == "known":
        return src.pick(LINES).encode("latin1")
    if w == "word":
        return (src.pick(["register", "cutoff", "myid", "help", "status", "id", "data", "kvs data", "B", "#", "x", "allowsend"]) + " " +
                " ".join(str(src.pick([-1, 0, 1, 7, 2 ** 31, 10 ** 12, "a", "%n", "(1)", "L1:"])) for _ in range(src.draw(0, 5)))).encode()
    if w == "rnd":
        return bytes(src.draw(0, 255) for _ in range(src.draw(1, 40)))
    c = bytes([src.pick(b"a #h0B%\\.(*")])
    if w == "longarg":
        return src.pick([b"register ", b"cutoff ", b"myid ", b"help ", b"# ", b"x", b"data "]) + c * src.draw(20, 700)
    if w == "long":
        return src.pick([b"register ", b"cutoff ", b"zz "]) + c * src.draw(700, 7000)
    return b"x" + c * src.pick([8188, 8189, 8190, 8191, 8192, 9000, 20000])


def fix(data, n, resize, early):
    """replaces what is not allowed to third parties (terminate; ids of existing processes; requests if there are resize points)"""
    out = []
    for l in data.split(b"\n"):
        parts = l.split(b"\x04")[:1]      # the rest after ctrl-D is not received any more
        p = parts[0]
        tail = l[len(p):]
        if p[:1] == b"t":
            p = b"u" + p[1:]
        if p[:1] == b"m":
            z = p.split(b"\0")[0].replace(b"\r", b" ")
            m = re.match(rb"\s*\S{1,20}\s*([-+]?\d+)", z)
            if m:
                v = int(m.group(1)[:30])
                if 0 <= (v if abs(v) < 2 ** 31 else v & 0xffffffff) < n or abs(v) >= 2 ** 31:
                    p = b"w" + p[1:]
        if early and p[:1] == b"r":
            p = b"v" + p[1:]
        if resize and p[:1] in (b"r", b"c") and not any(p.startswith(x) for x in (b"cutoff [", b"cutoff (((", b"cutoff nowhere", b"cutoff ^L0:")):
            p = b"v" + p[1:]
        out.append(p + tail)
    return b"\n".join(out)


def expected(data, half):
    """kinds of answers for data received on a connection, and whether/why it gets closed: (list of "help"/"status"/"first", None|"cut"|"eof")"""
    out = []
    rest = data
    while True:
        i = rest.find(b"\n")
        j = rest.find(b"\x04")
        if j >= 0 and (i < 0 or j < i) and j < 8192:
            return out, "cut"
        if i < 0:
            if len(rest) >= 8192:
                return out, "cut"
            if not half:
                return out, None
            i = len(rest)
            if not i:
                return out, "eof"
        if i >= 8192:
            return out, "cut"
        l, rest = rest[:i], rest[i + 1:]
        if l:
            k = l[:1]
            if k == b"q":
                return out, "cut"
            if k == b"h":
                out.append("help")
            elif k == b"s":
                out.append("status")
            elif k not in (b"r", b"m", b"c", b"#"):
                out.append("first")
        if half and not rest:
            return out, "eof"


def parse_answers(lines):
    """answers on a connection: list of (kind, lines)"""
    out = []
    for l in lines:
        if l == FIRST:
            out.append(("first", [l]))
        elif l.startswith(HELP0):
            out.append(("help", [l]))
        elif l == "# Known peers:":
            out.append(("status", [l]))
        elif out and out[-1][0] != "first":
            out[-1][1].append(l)
        else:
            raise Fail("unexpected answer %r" % l)
    return out


class Attack:
    """third party with some connections"""

    def __init__(self, case, run):
        self.case, self.run = case, run
        self.c = {}
        self.sent, self.got, self.target, self.state = {}, {}, {}, {}
        self.ports = {0: run.port}
        self.error = None
        self.stop = False
        self.answers = 0

    def wait(self, f):
        end = time.time() + 25
        while not os.path.exists(self.run.dir + "/" + f):
            if self.stop or time.time() > end:
                raise EOFError
            time.sleep(0.001)

    def connect(self, port):
        end = time.time() + 10
        while True:
            s = socket.socket()
            s.settimeout(10)
            try:
                s.connect(("localhost", port))
                return s
            except OSError:
                s.close()
                if self.stop or time.time() > end:
                    raise EOFError
                time.sleep(0.002)

    def port(self, t):
        """port of process with given id, as told by the master"""
        if t not in self.ports:
            s = self.connect(self.run.port)
            s.sendall(b"status\nhelp\n")
            b = b""
            while HELP1.encode() not in b:
                x = s.recv(65536)
                if not x:
                    break
                b += x
            s.close()
            for m in re.finditer(rb"#  LID ?(\d+) loc '[^']*' at host '[^']*' port (\d+)", b):
                self.ports.setdefault(int(m.group(1)), int(m.group(2)))
        if t not in self.ports:
            raise Fail("status of master does not list process %d: %r" % (t, b))
        return self.ports[t]

    def drain(self, c, end):
        """receive what is there; until function says enough"""
        s = self.c[c]
        limit = time.time() + 8
        while True:
            if end(self.got[c]):
                return True
            s.settimeout(0.2)
            try:
                x = s.recv(65536)
            except (socket.timeout, TimeoutError):
                if self.stop:
                    raise EOFError
                if time.time() > limit:
                    return False
                continue
            except OSError:
                x = b""
            if not x:
                self.state[c] = "closed"
                return True
            self.got[c] += x

    def do(self, st):
        k, c = st[0], st[1]
        if k == "wait":
            self.wait("t%d" % c)
        elif k == "mark":
            open(self.run.dir + "/a%d" % c, "w").close()
        elif k == "open":
            self.c[c] = self.connect(self.port(st[2]))
            self.sent[c], self.got[c], self.target[c], self.state[c] = b"", b"", st[2], "open"
        elif k == "flood":
            l = []
            end = time.time() + 6
            for _ in range(st[2]):
                if time.time() > end:
                    break
                s = socket.socket()
                s.settimeout(3)
                try:
                    s.connect(("localhost", self.run.port))
                    l.append(s)
                    s.recv(100)         # greeting, or closed
                except OSError:
                    s.close()
                    break
            for s in l:
                s.close()
        elif c not in self.c or self.state[c] != "open" and k != "close":
            pass
        elif k == "send":
            data = bytes.fromhex(st[2])
            self.sent[c] += data
            try:
                self.c[c].settimeout(10)
                self.c[c].sendall(data)
            except OSError:
                pass                        # closed by the process
        elif k == "spam":
            # many requests, answers not read
            self.state[c] = "spam"
            try:
                self.c[c].settimeout(0.3)
                for _ in range(st[2]):
                    self.c[c].sendall(b"help\n" * 100)
            except OSError:
                pass
        elif k == "shut":
            self.state[c] = "half"
            try:
                self.c[c].shutdown(socket.SHUT_WR)
            except OSError:
                pass
        elif k in ("close", "rst"):
            if k == "rst":
                self.c[c].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.c[c].close()
            self.state[c] = "gone"
        elif k == "pause":
            time.sleep(st[2] / 1000)

    def finish(self):
        """all connections which are still open have got all answers"""
        n = self.case["comp"]["n"]
        for c in sorted(self.c):
            if self.state[c] not in ("open", "half"):
                continue
            half = self.state[c] == "half"
            want, closed = expected(self.sent[c], half)
            what = "connection %d to process %d, %r sent" % (c, self.target[c], self.sent[c][:300])
            if not closed:
                # finish a partial line, and mark the end
                extra = (b"\n" if self.sent[c] and not self.sent[c].endswith(b"\n") else b"") + b"help\n"
                want, closed = expected(self.sent[c] + extra, False)
                self.c[c].settimeout(5)
                try:
                    self.c[c].sendall(extra)
                except OSError:
                    if not closed:
                        raise Fail("%s: connection is closed" % what)
            if not closed:
                nh = want.count("help")
                ok = self.drain(c, lambda b: b.count(HELP1.encode() + b"\n") >= nh)
                if not ok or self.state[c] == "closed":
                    raise Fail("%s: %s, got %r, expected answers %s" % (what, "closed" if ok else "not answered", self.got[c][-300:], want))
            else:
                try:
                    # a full buffer is noticed when there is more
                    if not half:
                        self.c[c].sendall(b"\n")
                except OSError:
                    pass
                ok = self.drain(c, lambda b: False)
                if not ok:
                    raise Fail("%s: connection not closed" % what)
            lines = self.got[c].decode("latin1").split("\n")
            if closed == "cut":
                # closed with data not received: answers may be lost
                continue
            if lines[-1] != "" and not closed:
                raise Fail("%s: incomplete answer %r" % (what, lines[-1]))
            if not lines[0].startswith("# Here is LAIK TCP2 LID "):
                if closed:
                    continue
                raise Fail("%s: no greeting but %r" % (what, lines[0]))
            a = parse_answers(lines[1:-1])
            if [k for k, _ in a] != want:
                raise Fail("%s: answers %s, expected %s" % (what, [k for k, _ in a], want))
            for k, L in a:
                self.answers += 1
                if k == "help" and L[-1] != HELP1:
                    raise Fail("%s: incomplete help %s" % (what, L))
                if k == "status":
                    ids = [int(m.group(1)) for m in (re.match(r"#  LID ?(\d+) loc 'L\1:", l) for l in L) if m]
                    if ids != sorted(ids) or not set(ids) <= set(range(n)) or (c >= 100 and len(ids) != n):
                        raise Fail("%s: status shows processes %s of %d" % (what, ids, n))
                    if sum("(this connection)" in l for l in L) != 1:
                        raise Fail("%s: own connection not in status %s" % (what, L))

    def main(self):
        try:
            for st in self.case["attack"]:
                if self.stop:
                    return
                self.do(st)
            self.wait("tend")
            self.finish()
        except EOFError:
            pass
        except Fail as e:
            self.error = str(e)
        finally:
            for s in self.c.values():
                s.close()
            open(self.run.dir + "/aend", "w").close()


class C25(Check):
    id = "C25"
    rule = "at least one request was answered (or an attacker's connection closed) while a computation with moved data was running"
    quick, thorough = 2500, 60000
    technique = ("fuzzing: structured byte streams (protocol lines with wrong arguments, random bytes, overlong lines, binary headers), fragmentation, connects, half-closes, resets and "
                 "floods by third parties on the control ports at generated points of a generated computation; answers compared with a protocol model and results with the "
                 "reference model; sanitizers; shrinking")
    assumptions = ["third parties do not use terminate, or identify themselves as one of the processes (myid with a valid id)",
                   "no requests to join or remove processes where the program allows resizing (see C24)", "loopback network"]

    def generate(self, src, tier):
        comp = hist.gen_hist(src, "quick", nmax=3, maxsteps=4) if src.chance(70) else hist.gen_rhist(src, "quick", nmax=3, dims=1)
        n = comp["n"]
        resize = src.chance(25) and not comp["rm"]
        segs = src.draw(1, 3)
        # points in the program: master waits there (or not) for the third party
        points = sorted([[src.draw(0, 100), src.draw(0, n - 1), src.chance(60)] for _ in range(segs)])
        at = []
        nc = 0
        live = []
        for k in range(segs + 1):
            if k:
                at.append(["wait", k - 1])
            for _ in range(src.draw(0, 3) + src.draw(0, 3)):
                w = src.weighted((4, "open"), (8, "send"), (2, "frag"), (2, "close"), (1, "shut"), (1, "rst"), (1, "pause"), (1, "spam" if k else "send"))
                if w == "open" or not live:
                    c = nc + (100 if k == segs else 0)
                    nc += 1
                    at.append(["open", c, src.draw(0, n - 1) if k else 0])
                    live.append(c)
                    if w == "open" and src.chance(20):
                        continue
                    w = "send"
                c = src.pick(live)
                if w in ("send", "frag"):
                    d = b"\n".join(gen_line(src) for _ in range(src.draw(1, 4)))
                    if src.chance(80):
                        d += src.pick([b"\n", b"\r\n"])
                    if src.chance(4):
                        d = src.pick([b"\n", b""]) + b"\x04"
                    if src.chance(5):
                        d += src.pick([b"quit\n", b"q", b"quit", b"q\nhelp\n"])
                    at.append(["send", c, d.hex()])
                    if w == "frag" and len(d) > 1:
                        at.pop()
                        cut = sorted({src.draw(1, len(d) - 1) for _ in range(src.draw(1, 3))})
                        for a, b in zip([0] + cut, cut + [len(d)]):
                            at.append(["send", c, d[a:b].hex()])
                            if src.chance(30):
                                at.append(["pause", 0, 1])
                elif w == "pause":
                    at.append(["pause", 0, src.draw(1, 3)])
                elif w == "spam":
                    if src.chance(20):
                        at.append(["spam", c, src.pick([1, 10, 500])])
                else:
                    at.append([w, c])
                if w in ("close", "rst", "shut", "spam"):
                    live.remove(c)
            if k:
                at.append(["mark", k - 1])
        if src.chance(2):
            at.append(["flood", 0, src.pick([50, 260, 300])])
        return {"comp": comp, "points": points, "attack": self.sanitize(at, n, resize), "bin": src.draw(0, 1), "resize": resize}

    def sanitize(self, at, n, resize):
        """what is received on each connection contains only allowed commands"""
        cat = {}
        for st in at:
            if st[0] == "send":
                cat[st[1]] = cat.get(st[1], b"") + bytes.fromhex(st[2])
        # while processes start, a register command is the real thing
        i = next((k for k, st in enumerate(at) if st[0] == "wait"), len(at))
        early = {st[1] for st in at[:i] if st[0] == "open"}
        new = {c: fix(d, n, resize, c in early) for c, d in cat.items()}
        pos = {}
        out = []
        for st in at:
            if st[0] == "send":
                p = pos.get(st[1], 0)
                l = len(st[2]) // 2
                pos[st[1]] = p + l
                st = ["send", st[1], new[st[1]][p:p + l].hex()]
            out.append(st)
        return out

    def text(self, case):
        c = case["comp"]
        L = hist.render(c, "tcp2").rstrip("\n").split("\n")
        body = [i for i, l in enumerate(L) if not l.startswith("!")]
        first = next(i for i in body if "init" in L[i]) + 1
        last = max(i for i in body if "finalize" in L[i]) if any("finalize" in l for l in L) else len(L)
        ins = []
        for k, (pc, r, w) in enumerate(case["points"]):
            i = first + (last - first) * pc // 100
            x = ["@%d touch t%d" % (r, k)]
            if w:
                x.append("@%d waitfile a%d" % (r, k))
            if case["resize"]:
                x.append("resize 200 %d" % k)
            ins.append((i, x))
        end = ["@0 touch tend", "waitfile aend"]
        if case["resize"]:
            end.append("resize 200 77")
        ins.append((last, end))
        for i, x in reversed(ins):
            L[i:i] = x
        return "\n".join(L) + "\n"

    def summary(self, case):
        def show(b):
            return re.sub(rb"((.)\2{30})\2*", lambda m: m.group(2) * 3 + b"{%d times}" % len(m.group(0)), b, flags=re.S)
        return "attack %s\nprogram\n%s" % ([(a[0], a[1], show(bytes.fromhex(a[2]))) if a[0] == "send" else a for a in case["attack"]], self.text(case))

    def evaluate(self, case, eng):
        c = case["comp"]
        n = c["n"]
        if self.sanitize(case["attack"], n, case["resize"]) != case["attack"]:
            raise Discard("commands not allowed")
        run = proc.Run(eng.bdir, "tcp2", n, {"bin": case["bin"]})
        a = Attack(case, run)
        t = threading.Thread(target=a.main)
        try:
            text = self.text(case)
            for _ in range(n):
                run.start(text)
            t.start()
            res = run.wait(30)
        finally:
            a.stop = True
            t.join()
            run.close()
        res.require_ok()
        if a.error:
            raise Fail(a.error)
        if sorted(res.ranks) != list(range(n)):
            raise Fail("locations of processes are %s" % sorted(res.ranks))
        mem = [r for r in range(n) if r not in c["rm"]]
        own = hist.check_parts(c, res, mem)
        m = hist.run_model(c, res, mem, own)
        cl = {"n%d" % n, "resize" if case["resize"] else "no-resize"}
        for st in case["attack"]:
            cl.add(st[0])
            if st[0] == "send":
                cl.update("cmd-" + chr(l[0]) for l in bytes.fromhex(st[2]).split(b"\n") if l and chr(l[0]) in "rmchsqB#idk")
                if len(st[2]) > 16000:
                    cl.add("long")
            if st[0] == "open" and st[2]:
                cl.add("non-master")
        cl -= {"wait", "mark", "send"}
        return {"nontrivial": a.answers > 0 and m.moved + m.reduced > 0, "classes": sorted(cl), "counts": {"answers": a.answers, "connections": len(a.c)}}


CHECK = C25()
