#!/usr/bin/env python3
"""mkseed.py defs.py [ids...]: defs.py defines SEEDS = {id: dict(prop, file, edits=[(old,new)..] or {file:[..]}, srcs, demo, needs, breaks)}"""
import sys, os, subprocess, shutil, json, tempfile
SEEDS = {}
exec(open(sys.argv[1]).read())
ids = sys.argv[2:] or list(SEEDS)
BASE = "2340ae7"
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
S=planner/src
g++ -std=c++17 -O1 -w -DPP_ENABLE_ASSERT -include cassert -include algorithm -I"$S" -I"$D" "$D/demo.cpp" %s -o "$T/demo" %s || exit 3
timeout 120 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for i in ids:
    s = SEEDS[i]
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp/w")
    sh("git -C /repo archive HEAD | tar x -C " + d)
    sh("git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", cwd=d)
    out = "/verif/seeded/" + i
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    libs = s.get("libs", "")
    open(out + "/demo.sh", "w").write(DEMO % (" ".join('"$S/%s"' % x for x in s.get("srcs", [])), libs))
    open(out + "/demo.cpp", "w").write(s["demo"].lstrip())
    r0 = sh("bash %s/demo.sh" % out, cwd=d)
    edits = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
    for f, es in edits.items():
        p = d + "/planner/src/" + f
        t = open(p).read()
        base = sh("git -C /repo show %s:planner/src/%s" % (BASE, f)).stdout
        for o, n in es:
            assert t.count(o) == 1, (i, f, o, t.count(o))
            t = t.replace(o, n)
        open(p, "w").write(t)
    diff = subprocess.run("git diff", shell=True, cwd=d, stdout=subprocess.PIPE, text=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    orig = True
    for f in edits:
        base = sh("git -C /repo show %s:planner/src/%s" % (BASE, f)).stdout
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base and len(edits) == 1: orig = False
    r1 = sh("bash %s/demo.sh" % out, cwd=d)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    # build and tests on a real copy
    b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh; sed -e 's#/repo#%s#g' -e 's#/opt/vp/build.sh#%s/b.sh#' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/o.json" % (d, d, d, d, d, d, d))
    try:
        t = json.load(open(d + "/o.json")); ts = "%d passed %d failed" % (len(t["passed"]), len(t["failed"]))
    except Exception as e: ts = "tests?" + b.stdout[-800:]
    c = sh("python3 /verif/check.py %s --tier quick" % s["prop"], env=dict(os.environ, VP_REPO=d))
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%s [%s]: demo clean %d patched %d | orig lines %s | %s | check rc=%d %s" % (i, s["prop"], r0.returncode, r1.returncode, orig, ts, c.returncode, ", ".join(os.path.basename(x.split("replay=")[1]) for x in v) or "MISSED"))
    if r0.returncode: print(r0.stdout[-1500:])
    if r1.returncode in (0, 3): print(r1.stdout[-1500:])
    sys.stdout.flush()
    shutil.rmtree(d)
