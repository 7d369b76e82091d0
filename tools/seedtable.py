#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (all of them are caught: tools/seedtest.sh)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = "\n".join(["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"] + rows)
p = V + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- planted bugs -->", "<!-- end -->"
if b not in s: s = s.rstrip("\n") + f"\n\n{b}\n{e}\n"
s = s[:s.index(b) + len(b)] + "\n" + t + "\n" + s[s.index(e):]
open(p, "w").write(s)
