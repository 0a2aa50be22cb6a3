#!/usr/bin/env python3
"""Dev tool (no check uses it): make / validate planted bugs from tools/seeds/<id>.py.
usage: seed.py make <id>...   -> writes seeded/<id>/, validates in a scratch copy (build, tests, demo)
       seed.py check <id>...  -> additionally runs the property's quick check on the scratch copy
A seed file defines PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ source; exit 0 = fine)."""
import sys, os, subprocess, json, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedrepo_%d" % os.getpid()
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
set -u
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -UNDEBUG -DPP_ENABLE_ASSERT -include cassert -include algorithm %s -I"$PWD/planner/src" "$d/demo.cpp" "$PWD/build/lib/libpathPlanning.a" -o "$t/demo" -lpthread -llz4 || exit 3
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    sh("rm -rf %s; cp -a /repo %s" % (SC, SC))
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", SC).replace("/opt/vp/build.sh", SC + "/vp_build.sh")
        open("%s/vp_%s" % (SC, f), "w").write(s)
    sh("rm -rf %s/_build %s/build" % (SC, SC))
    r = sh("bash %s/vp_build.sh" % SC)
    assert r.returncode == 0, r.stdout[-2000:]
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    b = base
    for k in ("stable", "passed", "tests"):
        if isinstance(b, dict) and k in b: return set(b[k])
    return set(b)
def one(sid, check):
    g = runpy.run_path("%s/tools/seeds/%s.py" % (V, sid))
    d = "%s/seeded/%s" % (V, sid)
    os.makedirs(d, exist_ok=True)
    sh("git -C %s checkout -q -- ." % SC)
    open(d + "/demo.cpp", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO % g.get("FLAGS", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    sh("bash %s/vp_build.sh" % SC)
    r0 = sh("bash %s/demo.sh" % d, cwd=SC)
    if r0.returncode: print(sid, "DEMO FAILS ON CLEAN TREE", r0.returncode, r0.stdout[-800:]); return
    for f, old, new in g["EDITS"]:
        p = SC + "/" + f; s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run("git -C %s diff" % SC, shell=True, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    r = sh("bash %s/vp_test.sh %s/out.json" % (SC, SC))
    try: ok = set(json.load(open(SC + "/out.json"))["passed"])
    except Exception: print(sid, "BUILD FAILS", r.stdout[-1500:]); return
    miss = stable() - ok
    if miss: print(sid, "TESTS FAIL", sorted(miss)[:5]); return
    r1 = sh("bash %s/demo.sh" % d, cwd=SC)
    print(sid, "demo ok, patched demo exit", r1.returncode, "" if r1.returncode not in (0, 3) else "*** NOT A BUG / NO COMPILE " + r1.stdout[-600:])
    if check:
        e = dict(os.environ, PP_REPO=SC)
        r2 = sh("python3-vt -m dv.run %s quick" % g["PROPERTY"], cwd=V, env=e)
        v = [l for l in r2.stdout.splitlines() if l.startswith(("VIOLATION", "obligation", "failing", "note"))]
        how = [n for n, k in (("proof", "obligation"), ("replay", "failing")) if any(l.startswith(k) for l in v)]
        try: c = json.load(open(V + "/tools/caught.json"))
        except Exception: c = {}
        c[sid] = " and ".join(how) if r2.returncode == 1 else "missed"
        json.dump(c, open(V + "/tools/caught.json", "w"), indent=1, sort_keys=True)
        print("   check exit", r2.returncode, "; ".join(x[:160] for x in v[:4]), v[-1][-60:] if v else r2.stdout[-300:])
try:
    prep()
    ids = sys.argv[2:] or sorted(f[:-3] for f in os.listdir(V + "/tools/seeds"))
    for s in ids: one(s, sys.argv[1] == "check")
finally:
    shutil.rmtree(SC, ignore_errors=True)
