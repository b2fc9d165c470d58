#!/usr/bin/env python3
"""Writes DESIGN.md's table of planted bugs from seeded/*/meta.json and seeded-results.json
(the prose lives in design.md.in; this keeps the table in step)."""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
res = json.load(open(R + "/seeded-results.json"))
rows = []
for b in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{b}/meta.json"))
    r = res.get(b, {})
    rows.append(f"| {b} | {m['needs'].strip()} | {r.get('caught', 'not run')} |")
t = "| planted bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows)
s = open(R + "/design.md.in").read().replace("@@TABLE@@", t).replace("@@COUNT@@", str(len(rows)))
open(R + "/DESIGN.md", "w").write(s)
print(len(rows), "planted bugs;", sum(1 for b in res.values() if b["caught"].startswith("-")), "not caught")
