#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design.md.in and the planted bugs (table in section 7)."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/tools/design.md.in").read()
rows = []
caught = json.load(open(R + "/tools/caught.json"))
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, m['property'])} |")
mut = R + "/tools/mutants.md"
t = t.replace("@@MUT@@", open(mut).read() if os.path.exists(mut) else "In progress.")
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@COUNT@@", str(len(rows)))
open(R + "/DESIGN.md", "w").write(t)
