#!/usr/bin/env python3
"""Regenerate DESIGN.md from tools/design.md plus the harness bounds in checks.py."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import HARNESSES, PROPERTIES, COMMON_ASSUMPTIONS
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
t = open(V + "/tools/design.md").read()
out = []
for pid in sorted(props):
    out.append("### %s: %s\n" % (pid, props[pid]["title"]))
    note = open(V + "/tools/design_props.md").read().split("\n## " + pid + "\n")
    if len(note) > 1:
        out.append(note[1].split("\n## ")[0].strip() + "\n")
    out.append("| harness | entry | bounds (quick) | thorough, where different |\n|---|---|---|---|")
    for h in HARNESSES:
        if h["prop"] != pid: continue
        q = h.get("bounds_quick", h.get("bounds", ""))
        th = h.get("bounds_thorough", "")
        if h.get("tiers") == ("thorough",): q, th = "(thorough only)", h.get("bounds", th)
        out.append("| %s | `%s` in %s | %s | %s |" % (h["name"], h.get("entry", "harness"), h["src"], q, th))
    notes = [a for a in PROPERTIES[pid]["assumptions"] if a not in COMMON_ASSUMPTIONS]
    if notes: out.append("\nOutside / assumed: " + "; ".join(notes) + ".")
    out.append("")
fixed = json.load(open(V + "/known_findings.json"))["fixed"]
t = t.replace("@PROPS@", "\n".join(out)).replace("@FIXED@", "\n".join("- " + f[len("fixed: "):] for f in fixed))
rows = ["| id | property | breaks | needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded"), key=lambda i: (json.load(open(V + "/seeded/" + i + "/meta.json"))["property"], i)):
    m = json.load(open(V + "/seeded/" + i + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"]))
t = t.replace("@SEEDED@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
