"""Builds LAIK from /repo's current working tree into the harness binaries.

Everything goes to /verif/build/<key> where <key> hashes the sources used, so a
changed tree is always rebuilt and an unchanged one is not."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LAIK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine")
GLIB = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
GLIBL = ["-lgio-2.0", "-lgobject-2.0", "-lglib-2.0"]


class BuildError(Exception):
    pass


def _files(*dirs):
    out = []
    for d in dirs:
        for root, dn, fn in os.walk(d):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".c", ".h")):
                    out.append(os.path.join(root, f))
    return out


def key():
    h = hashlib.sha256()
    for f in _files(os.path.join(REPO, "src"), os.path.join(REPO, "include"),
                    os.path.join(REPO, "examples"), ENGINE) + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:])


def compile_set(d, name, flags, srcs):
    os.makedirs(os.path.join(d, name), exist_ok=True)
    jobs = []
    objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, name, "%d_%s.o" % (i, os.path.basename(s)[:-2]))
        objs.append(o)
        # the driver wraps laik_log_init to allow several instances in one process
        ren = ["-Dlaik_log_init=laik_log_init_real"] if s.endswith("/src/logging.c") else []
        jobs.append(["gcc", "-std=gnu99", "-g", "-fPIC", "-w"] + flags + ren + ["-c", s, "-o", o])
    return jobs, objs


def examples(d, flags):
    """objects of the example applications, each with one global function ex_main_<name>, and a table of them.
    Examples which do not compile this way are left out (not in the table)"""
    x = os.path.join(d, "ex")
    os.makedirs(x)

    def one(f):
        n = os.path.basename(f)[:-2]
        sym = "ex_main_" + n.replace("-", "_")
        o = os.path.join(x, n + ".o")
        try:
            run(["gcc", "-std=gnu99", "-g", "-fPIC", "-w", "-include", ENGINE + "/exmain.h"] + flags + ["-c", f, "-o", o])
            run(["objcopy", "--redefine-sym", "ex_main=" + sym, "--keep-global-symbol=" + sym, o])
        except BuildError:
            return None
        return n, sym, o
    fs = [f for f in sorted(glob.glob(REPO + "/examples/*.c")) if not f.endswith("-ser.c")]
    with ThreadPoolExecutor(8) as ex:
        l = [r for r in ex.map(one, fs) if r]
    c = os.path.join(x, "table.c")
    with open(c, "w") as f:
        for n, sym, _ in l:
            f.write("int %s(int, char**);\n" % sym)
        f.write("struct { const char* name; int (*fn)(int, char**); } ex_table[] = {\n")
        for n, sym, _ in l:
            f.write("  { \"%s\", %s },\n" % (n, sym))
        f.write("  { 0, 0 } };\n")
    run(["gcc", "-g", "-fPIC", "-c", c, "-o", os.path.join(x, "table.o")])
    return [o for _, _, o in l] + [os.path.join(x, "table.o")]


def build():
    """returns the build directory (with rank0.so.., engine, drvproc, ...)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, key())
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return d
        # drop old builds
        old = sorted((x for x in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(x)), key=os.path.getmtime)
        for x in old[:-3]:
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "git-version.h"), "w") as f:
            f.write('#define GIT_VERSION "verif"\n')
        src = sorted(glob.glob(REPO + "/src/*.c"))
        tcp = sorted(glob.glob(REPO + "/src/backends/tcp/*.c"))
        inc = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + d, "-I" + ENGINE]
        san = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
        # simulated ranks: MPI only, against the simulated mpi.h
        # (process IDs are part of messages: always same length)
        j1, o1 = compile_set(d, "sim", san + ["-DUSE_MPI", "-Dgetpid=drv_getpid", "-I" + ENGINE + "/shim"] + inc,
                             src + [ENGINE + "/driver.c", ENGINE + "/heap.c"])
        # real processes: TCP and TCP2 (and single)
        j2, o2 = compile_set(d, "proc", san + ["-DUSE_TCP", "-DUSE_TCP2", "-DDRV_STANDALONE"] + GLIB + inc,
                             src + tcp + [ENGINE + "/driver.c", ENGINE + "/heap.c"])
        j3 = [["gcc", "-std=gnu99", "-g", "-w"] + san + ["-I" + ENGINE, "-I" + ENGINE + "/shim", ENGINE + "/sim.c",
               "-o", d + "/engine", "-rdynamic", "-ldl", "-lpthread"],
              ["gcc", "-std=gnu99", "-g", "-w", "-fPIC", "-shared"] + inc + [ENGINE + "/agent.c", "-o", d + "/agent0.so"],
              ["gcc", "-std=gnu99", "-g", "-w", "-fPIC", "-shared"] + inc + [REPO + "/external/simple/simple-agent.c", "-o", d + "/simple0.so"]]
        with ThreadPoolExecutor(8) as ex:
            e = ex.submit(examples, d, san + inc)
            list(ex.map(run, j1 + j2 + j3))
            o3 = e.result()
            # memory allocated by LAIK is accounted (heap.c)
            list(ex.map(run, [["objcopy"] + ["--redefine-sym=%s=hp_%s" % (x, x) for x in ("malloc", "calloc", "realloc", "strdup", "free")] + [o]
                              for o in o1 + o2 if not o.endswith(("_driver.o", "_heap.o"))]))
        run(["gcc", "-shared", "-fsanitize=address", "-Wl,-Bsymbolic", "-o", d + "/rank0.so"] + o1 + o3 + ["-lm"])
        for i in range(1, 4):
            shutil.copy(d + "/agent0.so", d + "/agent%d.so" % i)
        shutil.copy(d + "/simple0.so", d + "/simple1.so")
        for i in range(1, 16):
            shutil.copy(d + "/rank0.so", d + "/rank%d.so" % i)
        run(["gcc", "-fsanitize=address", "-o", d + "/drvproc"] + o2 + o3 + GLIBL + ["-ldl", "-lm", "-lpthread"])
        for s in ("sim", "proc", "ex"):
            shutil.rmtree(os.path.join(d, s))
        open(os.path.join(d, "ok"), "w").close()
        return d


if __name__ == "__main__":
    t = time.time()
    try:
        print(build(), "%.1fs" % (time.time() - t))
    except BuildError as e:
        print(e)
        sys.exit(1)
