"""Writes a planted bug to seeded/<id> and confirms it in a scratch copy of /repo.

plant.py FILE.py [id ...]     FILE.py defines BUGS = {id: dict(property=, needs=, breaks=, edits=[(file, old, new)], demo=, flags=)}
plant.py --run id ...         runs the check of the property against the planted bug (in a scratch copy, VERIF_REPO)
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INCL = "algorithm cassert cmath functional iostream limits memory numeric optional sstream stdexcept string vector".split()
HEAD = "".join("#include <%s>\n" % i for i in INCL) + """#include <fstream>
#include <cstdio>
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)
static bool near(double a, double b, double e = 1e-5) { return std::fabs(a - b) <= e * (1 + std::fabs(b)); }
"""
DEMO = """#!/bin/bash
# exit 0: the property holds on this scenario
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/lc/smart_dnn"
for d in "$PWD"/smart_dnn/*/; do n=$(basename "$d"); ln -s "$d" "$t/lc/smart_dnn/$(echo "$n" | tr A-Z a-z)"; done
g++ -std=c++17 %s -I. -I"$t/lc" "$here/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo >"$t/out" 2>&1
rc=$?
tail -5 "$t/out"
exit $rc
"""


def sh(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
    return r.returncode, r.stdout


def copy():
    d = tempfile.mkdtemp(prefix="plant")
    sh("git -C /repo archive HEAD | tar x -C %s" % d, "/")
    return d


def tests(d):
    b = tempfile.mkdtemp(prefix="plantb")
    try:
        rc, out = sh("export CC=gcc CXX=g++; cmake -G Ninja -Wno-dev -S %s/tests -B %s -DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest && ninja -C %s RunTests && %s/RunTests" % (d, b, b, b), "/")
        return rc, [l for l in out.split("\n") if "error" in l or "FAILED" in l][:6]
    finally:
        shutil.rmtree(b)


def plant(i, bug):
    out = os.path.join(V, "seeded", i)
    a, d = copy(), copy()
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(d, "smart_dnn", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d occurrences of %r" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("diff -ruN -x .git --label x a b | cat" if 0 else "git diff --no-index --src-prefix=a/ --dst-prefix=b/ %s %s" % (a, d), "/")
        diff = diff.replace("a" + a + "/", "a/").replace("b" + d + "/", "b/").replace("a" + d + "/", "a/").replace("b" + a + "/", "b/")
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.cpp", "w").write(HEAD + bug["demo"])
        open(out + "/demo.sh", "w").write(DEMO % bug.get("flags", "-O0"))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(out + "/meta.json", "w"), indent=1)
        rc, o = sh("git -C /repo apply --check " + out + "/patch.diff", "/")
        if rc:
            return "does not apply: " + o
        rc, o = sh("bash %s/demo.sh" % out, a)
        if rc:
            return "demo fails on the unchanged tree: " + o
        rc, o = sh("bash %s/demo.sh" % out, d)
        if rc in (0, 2):
            return "demo does not fail (%d): %s" % (rc, o)
        rc, e = tests(d)
        if rc:
            return "existing tests: %s" % e
        return None
    finally:
        shutil.rmtree(a)
        shutil.rmtree(d)


def run(i, tier="quick"):
    out = os.path.join(V, "seeded", i)
    pid = json.load(open(out + "/meta.json"))["property"]
    d = copy()
    try:
        rc, o = sh("git apply --unsafe-paths --directory=%s %s/patch.diff" % (d, out), d)
        if rc:
            rc, o = sh("patch -p1 < %s/patch.diff" % out, d)
        assert rc == 0, o
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        rc, o = sh("python3 %s/check.py %s --tier %s" % (V, pid, tier), "/", env, 3000)
        return pid, rc, [l for l in o.strip().split("\n") if l.strip()]
    finally:
        shutil.rmtree(d)


if sys.argv[1] == "--run":
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        pid, rc, o = run(i)
        print(i, pid, "CAUGHT" if rc == 1 else "rc=%d" % rc, o[0][:260] if rc else "", flush=True)
else:
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    for i, bug in mod.BUGS.items():
        if sys.argv[2:] and i not in sys.argv[2:]:
            continue
        e = plant(i, bug)
        if e:
            shutil.rmtree(os.path.join(V, "seeded", i), ignore_errors=True)
        print(i, "kept" if not e else "NOT KEPT: " + e, flush=True)
