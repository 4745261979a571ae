#!/usr/bin/env python3
"""Author side tool for planted bugs (not used by any check).
  seed.py new ID PROPERTY  < spec     create /verif/seeded/ID from a spec (see below)
  seed.py test ID...  [--notests]     apply to /repo, build, tests, demo, check; undo
spec (python dict literal): {needs, what, edits: [(file, old, new)], demo_c, run (shell lines using $T/demo), lang?}"""
import ast, json, os, subprocess, sys
R, V = os.environ.get("SEED_REPO", "/repo"), "/verif"
B, TS = ("/opt/vp/build.sh", "/opt/vp/test.sh") if R == "/repo" else (R + "-build.sh", R + "-test.sh")
HEAD = '''#!/bin/bash
# cwd: the built repository. exit 0: behaviour as required
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none OMP_NUM_THREADS=2 LC_ALL=C TMPDIR=$T
MPI="timeout -k 2 60 mpiexec --oversubscribe --mca btl_base_warn_component_unused 0"
L=$R/_build; [ -f $L/liblaik.so ] || L=$R
'''
CC = '''gcc -std=gnu99 -g -I$R/include "$D/demo.c" -o $T/demo -L$L -llaik -lm -Wl,-rpath,$L || exit 2
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)


def new(i, prop):
    s = ast.literal_eval(sys.stdin.read())
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C %s status --porcelain" % R).stdout
    for f, a, b in s["edits"]:
        p = os.path.join(R, f)
        t = open(p).read()
        if t.count(a) != 1:
            sh("git -C %s checkout -- ." % R)
            sys.exit("%s: %d matches for %r" % (f, t.count(a), a))
        open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    sh("git -C %s checkout -- ." % R)
    if s.get("demo_c"):
        open(d + "/demo.c", "w").write(s["demo_c"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(HEAD + (CC if s.get("demo_c") else "") + s["run"].strip("\n") + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)


def test(ids, tests):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        m = json.load(open(d + "/meta.json"))
        out = [i, m["property"]]
        assert not sh("git -C %s status --porcelain" % R).stdout
        b = sh("bash " + B)
        r = sh("bash %s/demo.sh" % d, cwd=R)
        out.append("demo-clean=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:], r.stderr[-1500:])
        try:
            a = sh("git -C %s apply %s/patch.diff" % (R, d))
            assert a.returncode == 0, a.stderr
            b = sh("bash " + B)
            out.append("build=%d" % b.returncode)
            if b.returncode:
                print(b.stdout[-800:], b.stderr[-1500:])
            r = sh("bash %s/demo.sh" % d, cwd=R)
            out.append("demo-bug=%d" % r.returncode)
            if tests:
                sh("bash %s /tmp/seed-t.json" % TS)
                t = set(json.load(open("/tmp/seed-t.json"))["passed"])
                out.append("tests-lost=%s" % sorted(base - t))
            c = sh("LAIK_REPO=%s ./check.sh %s" % (R, m["property"]), cwd=V)
            v = [l for l in c.stdout.split("\n") if l.startswith(("case", "VIOLATION", "not repro"))]
            out.append("check=%d %s" % (c.returncode, " || ".join(v)[:300] or c.stdout[-300:]))
        finally:
            sh("git -C %s checkout -- ." % R)
        print(" ".join(map(str, out)), flush=True)
    sh("bash " + B)


if sys.argv[1] == "new":
    new(sys.argv[2], sys.argv[3])
else:
    a = sys.argv[2:]
    nt = "--notests" in a
    a = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    test(a, not nt)
