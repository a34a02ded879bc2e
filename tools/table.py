#!/usr/bin/env python3
"""Rewrites the catch table of DESIGN.md from seeded/*/meta.json and tools/catch.tsv (id, outcome, seconds)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(root + "/tools/catch.tsv"):
    i, o, s = l.rstrip("\n").split("\t")
    res[i] = (o, s)
rows = ["<!-- table -->", "| planted bug | property | needs | its quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    o, s = res.get(d, ("not run", ""))
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {o}{' in ' + s + ' s' if s else ''} |")
rows.append("<!-- /table -->")
p = root + "/DESIGN.md"
t = open(p).read()
t = t.replace("@@TABLE@@", "<!-- table --><!-- /table -->")
t = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: "\n".join(rows), t, flags=re.S)
open(p, "w").write(t)
