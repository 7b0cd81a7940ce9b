"""seeds.py: writes seeded/<id>/ from the table in seeds_data.py; 'seeds.py verify [ids]' confirms each in a scratch copy of /repo"""
import sys, os, json, subprocess, shutil, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools")
from seeds_data import SEEDS
R = "/repo"
SH = '''#!/bin/bash
# exit 0: the behaviour below holds; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -I "$PWD/src" -I /usr/include/eigen3 -I /opt/vp/units-shim "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 120 "$t/demo"
'''
PRE = '''#include <cstdio>
#include <cmath>
#include <vector>
#include <complex>
#include "MathUtils/MathUtils.h"
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)
static bool near(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
using namespace mathutils;
'''
def write(s):
    d = "%s/seeded/%s" % (H, s["id"]); os.makedirs(d, exist_ok=True)
    w = "/tmp/seedw"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["git", "-C", R, "worktree", "prune"]); subprocess.run("git -C %s archive HEAD src | tar x -C %s" % (R, w), shell=True, check=True)
    subprocess.run("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % w, shell=True, check=True)
    for f, a, b in s["edits"]:
        p = w + "/src/MathUtils/" + f; t = open(p).read()
        n = s.get("nth", {}).get(f, 0)
        assert a in t, (s["id"], f, a)
        if n == 0 and t.count(a) != 1: raise SystemExit("%s: %d occurrences of %r" % (s["id"], t.count(a), a))
        i = -1
        for _ in range(max(n, 1)): i = t.index(a, i + 1)
        open(p, "w").write(t[:i] + b + t[i + len(a):])
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff); shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(PRE.replace("MathUtils/MathUtils.h", s.get("inc", "MathUtils/MathUtils.h")) + s.get("top", "") + "int main() {\n" + s["demo"].strip("\n") + "\n  return 0;\n}\n")
    open(d + "/demo.sh", "w").write(SH % s.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
def sh(c, cwd): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def verify(s):
    """in /repo itself (build.sh builds /repo): apply, build, test, demo, undo"""
    d = "%s/seeded/%s" % (H, s["id"])
    r0 = sh("bash %s/demo.sh" % d, R).returncode
    if r0 != 0: return "demo fails on the clean tree (%d)" % r0
    if sh("git status --porcelain --untracked-files=no", R).stdout: return "repo dirty"
    r = sh("git apply %s/patch.diff" % d, R)
    if r.returncode: return "patch: " + r.stderr
    try:
        r1 = sh("bash %s/demo.sh" % d, R)
        if r1.returncode == 0: return "demo passes with the patch"
        if r1.returncode == 2: return "demo does not compile with the patch: " + r1.stderr[-300:]
        if "--fast" not in sys.argv:
            b = sh("bash /opt/vp/build.sh", R)
            if b.returncode: return "build fails"
            sh("bash /opt/vp/test.sh /tmp/seed_t.json", R)
            t = json.load(open("/tmp/seed_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            ok = set(t.get("passed", [])); miss = [x for x in base.get("passed", base.get("tests", base.get("stable", []))) if x not in ok]
            if miss: return "tests fail: %s" % miss[:3]
    finally: sh("git checkout -- .", R)
    return "ok (%s)" % r1.stdout.strip()[:70]
if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    ids = args[1:]
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        write(s)
        if args and args[0] == "verify": print(s["id"], verify(s), flush=True)
