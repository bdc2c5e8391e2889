#!/usr/bin/env python3
"""Confirm a planted bug and store it under /verif/seeded.
usage: seed.py SPEC.py [...]   SPEC defines id, property, edits=[(file, old, new)], needs, breaks, demo (C++ source)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3
trap 'rm -r "$t"' EXIT
g++ -w -I/repo -I/repo/_build -I/usr/include/suitesparse "$d/demo.cpp" /repo/_build/lib/libopmcore.a -lumfpack -lamd -llapack -lblas -lboost_date_time -lboost_filesystem -lboost_system -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build_test():
    out = "/tmp/seed_out.json"; sh("bash /opt/vp/test.sh " + out)
    got = set(json.load(open(out))["passed"]); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - got)
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g); d = "%s/seeded/%s" % (V, g["id"])
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo not clean")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.cpp", "w").write(g["demo"]); open(d + "/demo.sh", "w").write(g.get("demo_sh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    try:
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r0.returncode: print(g["id"], "DEMO FAILS ON CLEAN TREE", r0.returncode, (r0.stdout + r0.stderr)[-1500:]); ok = False
        for f, a, b in g["edits"]:
            p = "/repo/opm/core/" + f; s = open(p).read()
            if s.count(a) != 1: print(g["id"], "edit matches", s.count(a), "times:", f); ok = False; break
            open(p, "w").write(s.replace(a, b))
        if ok:
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            bad = build_test(); r1 = sh("bash %s/demo.sh" % d, cwd="/repo")
            if bad: print(g["id"], "TESTS FAIL:", bad[:5]); ok = False
            if not r1.returncode: print(g["id"], "DEMO PASSES WITH BUG"); ok = False
            c = sh("VERIF_SEED=1 python3 %s/engine/driver.py %s quick" % (V, g["property"]), cwd=V)
            print(g["id"], "demo exit", r1.returncode, "| check exit", c.returncode, [l[:160] for l in c.stdout.splitlines() if "violated" in l or "VIOLATION" in l or "problem" in l.lower()][:3])
    finally:
        sh("git -C /repo checkout -- ."); 
    if not ok: shutil.rmtree(d)
build_test()
