#!/usr/bin/env python3
"""Regenerates DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |\n")
p = R + "/DESIGN.md"
t = open(p).read()
a = t.index("| bug | property | needs |")
b = t.index("## Limits, and things")
open(p, "w").write(t[:a] + "| bug | property | needs |\n|---|---|---|\n" + "".join(rows) + "\n" + t[b:])
