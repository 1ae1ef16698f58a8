#!/usr/bin/env python3
"""Regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} |")
t = open(root + "/DESIGN.md").read()
head, tail = t.split("## Planted bugs", 1)
lines = tail.split("\n")
a = next(i for i, l in enumerate(lines) if l.startswith("|"))
b = max(i for i, l in enumerate(lines) if l.startswith("|"))
lines[a + 2:b + 1] = rows
open(root + "/DESIGN.md", "w").write(head + "## Planted bugs" + "\n".join(lines))
