#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (a development tool; no check uses it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if os.path.exists(f"{V}/out/plant.json"):
    res = json.load(open(f"{V}/out/plant.json"))
rows = ["| planted bug | what it needs | reported by |", "|---|---|---|"]
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    caught = m.get("caught", res.get(i, {}).get("caught"))
    rows.append(f"| `{i}` | {m['needs']} | {m['property'] if caught is not False else '—'} |")
p = f"{V}/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@TABLE@", t) if "@TABLE@" in s else re.sub(r"\| planted bug \|.*?(?=\n\n)", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
