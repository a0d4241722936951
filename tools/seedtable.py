#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {' ' + m['note'] if m.get('note') else ''} |")
table = "| change | caught by | needs | breaks | first missed, and what was strengthened |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
p = f"{V}/DESIGN.md"
s = open(p).read()
head = s.split("## Planted bugs")[0].replace("@SEEDS@\n", "")
open(p, "w").write(head + "## Planted bugs\n\nEach is a change that compiles, passes the existing tests and has a demonstration (`tools/seed.py` confirmed\nall of that in a scratch copy). All of them are caught by the quick check of their property.\n\n" + table)
