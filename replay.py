#!/usr/bin/env python3
"""Re-run a reported counterexample natively against /repo's current tree.
usage: replay.py PROPERTY evidence/replay/FILE"""
import re, shutil, sys, tempfile
import check

prop, path = sys.argv[1:3]
head, inputs = [], []
for l in open(path):
    l = l.rstrip("\n")
    if l.startswith("%"):
        head.append(l)
    elif l:
        inputs.append(l.rsplit(" ", 1))
m = re.search(r"harness (\S+) ", head[0])
tier = (re.search(r"tier (\w+)", head[0]) or [None, "quick"])[1]
h = [x for x in check.HARNESSES if x["prop"] == prop and x["name"] == m[1]][0]
work = tempfile.mkdtemp(prefix="vp_replay_")
bad = 0
try:
    b = check.Builder(work)
    for san in (False, True):
        exe, err = check.native(b, h, tier, work, san)
        if not exe:
            print(err)
            continue
        rc, out = check.run_native(exe, inputs, work)
        print("sanitized" if san else "plain", "exit", rc)
        print(out)
        bad |= rc not in (0, 77)
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(1 if bad else 0)
