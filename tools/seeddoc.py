#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md from the planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = json.load(open(V + "/tools/first_missed.json"))
rows, n = [], 0
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    n += 1
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].strip().replace("|", "/"), first.get(i, "")))
text = f"""## 7. Planted bugs

{n} changes are kept in seeded/, each confirmed in a scratch clone (`tools/seed.sh <id>`): the demonstration
passes without and fails with it, the stable tests pass with it. Every one of them is now reported by the
quick check of its property (exit 1, VIOLATION line). The last column says what had to be added when the
check missed it at first; empty: caught at once.

| bug | check that catches it | what it breaks | missed at first; added |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
p = V + "/DESIGN.md"
s = open(p).read()
s = s.split("## 7. Planted bugs")[0].rstrip() + "\n\n" + text
open(p, "w").write(s)
