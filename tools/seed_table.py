#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.txt
(one line per bug: id, caught by, seen at first?)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = f"{V}/tools/seed_results.txt"
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            i, by, first = l.rstrip("\n").split("|")
            res[i] = (by, first)
rows = []
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    by, first = res.get(i, ("?", "?"))
    rows.append((m["property"], i, m["needs"].replace("|", "/"), by, first))
rows.sort()
t = "| property | bug | needs | caught by | at first |\n|----|----|----|----|----|\n" + "".join("| " + " | ".join(r) + " |\n" for r in rows)
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"(<!-- seeded table.*?-->\n).*?(<!-- end -->)", lambda m: m[1] + t + m[2], s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
