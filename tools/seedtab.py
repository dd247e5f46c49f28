#!/usr/bin/env python3
"""Renders the table of planted bugs in DESIGN.md (between the seed table markers) from seeded/*/meta.json
and from tools/caught.txt (lines "<id> <checks that reported it>", kept by hand from actual runs)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(f"{V}/tools/caught.txt"):
    if l.strip(): i, *c = l.split(); caught[i] = ", ".join(c)
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i.split('-')[0], 'nothing')} |")
p = f"{V}/DESIGN.md"; s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda g: g[1] + "\n".join(r.replace("\n", " ") for r in rows) + "\n" + g[2], s, flags=re.S)
open(p, "w").write(s)
