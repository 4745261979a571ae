"""Runs a driver script in real processes (backends TCP, TCP2, single), one process per rank.

Everything (script, outputs, socket names) is kept in a scratch directory which is removed afterwards."""
import os, random, shutil, signal, socket, subprocess, tempfile, time
from .core import ASAN, Result

_n = 0
_held = {}


def free_port():
    """a port below the ephemeral range not in use; reserved among all checks by an abstract socket name"""
    global _n
    r = random.Random(os.getpid() * 7919 + _n + int(time.time() * 1000))
    while True:
        _n += 1
        p = r.randrange(10000, 32000)
        lock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s = socket.socket()
        try:
            lock.bind("\0laikpv.port.%d" % p)
            s.bind(("", p))
            _held[p] = lock
            return p
        except OSError:
            lock.close()
        finally:
            s.close()


def release(p):
    if p in _held:
        _held.pop(p).close()


# changes script and environment of a process to start: (run, number, text, env) -> (text, env)
hook = None


class Run:
    """processes of one run; usable step by step (elastic tests) or with wait()"""

    def __init__(self, bdir, backend, size, opts=None, env=None):
        self.bdir, self.backend, self.size = bdir, backend, size
        self.dir = tempfile.mkdtemp(prefix="laikpv.")
        self.procs = []
        self.env = {k: v for k, v in os.environ.items() if not k.startswith(("LAIK_", "OMPI_", "PMI_"))}
        self.env["ASAN_OPTIONS"] = ASAN
        self.env.update(env or {})
        opts = opts or {}
        self.port = self.bin = None
        self.ports = []
        if backend == "tcp2":
            self.port = free_port()
            self.ports.append(self.port)
            self.env.update(LAIK_SIZE=str(size), LAIK_TCP2_PORT=str(self.port), LAIK_TCP2_HOST="localhost")
            # transport accepted, per process if a list
            self.bin = opts.get("bin")
            if self.bin is not None and not isinstance(self.bin, list):
                self.env["LAIK_TCP2_BIN"] = str(self.bin)
        elif backend == "tcp":
            with open(self.dir + "/conf", "w") as f:
                if opts.get("general"):
                    f.write("[general]\n" + "".join("%s = %s\n" % kv for kv in opts["general"]))
                f.write("[addresses]\n")
                for i in range(size):
                    if opts.get("unix", 1):
                        f.write("rank%d = %s.%d\n" % (i, os.path.basename(self.dir), i))
                    else:
                        self.ports.append(free_port())
                        f.write("rank%d = localhost %d\n" % (i, self.ports[-1]))
            self.env["LAIK_TCP_CONFIG"] = self.dir + "/conf"

    def start(self, text, env=None):
        i = len(self.procs)
        head = [l for l in text.split("\n") if l.startswith("!env ")]
        e = dict(self.env)
        if isinstance(self.bin, list):
            e["LAIK_TCP2_BIN"] = str(self.bin[i % len(self.bin)])
        for l in head:
            _, k, v = l.split(" ", 2)
            e[k] = v
        e.update(env or {})
        if hook:
            text, e = hook(self, i, text, e)
        body = "\n".join(l for l in text.split("\n") if not l.startswith("!"))
        with open("%s/s%d" % (self.dir, i), "w") as f:
            f.write(body)
        with open("%s/e%d" % (self.dir, i), "w") as err:
            p = subprocess.Popen([self.bdir + "/drvproc", "%s/s%d" % (self.dir, i), "%s/o%d" % (self.dir, i), str(i), str(self.size)],
                                 stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=e, cwd=self.dir, start_new_session=True)
        self.procs.append(p)
        return i

    def wait(self, timeout):
        """waits for all processes; returns Result"""
        end = time.time() + timeout
        status = "OK"
        bad = None
        while True:
            rcs = [p.poll() for p in self.procs]
            for i, rc in enumerate(rcs):
                if rc not in (None, 0) and bad is None:
                    bad = i
                    status = "SIGNAL%d" % -rc if rc < 0 else "EXIT%d" % rc
                    end = min(end, time.time() + 0.5)      # others may hang now
            if None not in rcs:
                break
            if time.time() > end:
                if bad is None:
                    status = "TIMEOUT"
                break
            time.sleep(0.002)
        return self.result(status, bad)

    def wait_master(self, timeout):
        """waits until the process with location ID 0 and all others which took part ended; processes
        which never got a location (elastic start) are ended"""
        end = time.time() + timeout
        while True:
            part = []
            for i in range(len(self.procs)):
                try:
                    with open("%s/o%d" % (self.dir, i), errors="replace") as f:
                        r = next((int(l.split()[1]) for l in f if l.startswith("#rank ")), None)
                except OSError:
                    r = None
                if r is not None:
                    part.append((r, i))
            bad = [i for _, i in part if self.procs[i].poll() not in (None, 0)]
            if bad:
                time.sleep(.3)
                rc = self.procs[bad[0]].poll()
                return self.result("SIGNAL%d" % -rc if rc < 0 else "EXIT%d" % rc, bad[0])
            alive = [i for _, i in part if self.procs[i].poll() is None]
            if not alive and any(r == 0 for r, _ in part):
                # others may just have got their location
                if getattr(self, "_again", None) == len(part):
                    break
                self._again = len(part)
                time.sleep(.1)
            if time.time() > end:
                return self.result("TIMEOUT", None)
            time.sleep(.01)
        self.kill()
        return self.result("OK", None, {i for _, i in part})

    def result(self, status, bad, only=None):
        alive = [i for i, p in enumerate(self.procs) if p.poll() is None]
        self.kill()
        res = Result(status, "")
        res.sim = status
        res.simlines = ["processes %s did not end" % alive] if alive else []
        err = []
        for i in range(len(self.procs)):
            if only is not None and i not in only:
                continue
            try:
                with open("%s/e%d" % (self.dir, i), errors="replace") as f:
                    self.logged = getattr(self, "logged", False) or os.fstat(f.fileno()).st_size > 0
                    err.append((i != bad, "".join("[%d] %s" % (i, l) for l in f.read(20000).splitlines(True))))
            except OSError:
                pass
            try:
                with open("%s/o%d" % (self.dir, i), errors="replace") as f:
                    L = f.read().split("\n")
            except OSError:
                continue
            r = next((int(l.split()[1]) for l in L if l.startswith("#rank ")), None)
            if r is None:
                if status == "OK":
                    res.status = "NORANK"
                continue
            if r in res.ranks:
                res.status = res.sim = "DUPRANK%d" % r
            res.ranks[r] = [l for l in L if l and not l.startswith("#")]
            res.done[r] = "#end" in L
        res.stderr = "".join(t for _, t in sorted(err))
        return res

    def kill(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        for p in self.procs:
            p.wait()

    def close(self):
        self.kill()
        for p in self.ports:
            release(p)
        shutil.rmtree(self.dir, ignore_errors=True)


def run(bdir, text, n, backend, opts=None, env=None, timeout=20):
    r = Run(bdir, backend, n, opts, env)
    try:
        for _ in range(n):
            r.start(text)
        return r.wait(timeout)
    finally:
        r.close()
