#!/usr/bin/env python3
"""Fills the property and planted-bug sections of DESIGN.md from docs/*.md, tools/props.py and docs/catches.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/tools")
import props
t = open(here + "/docs/DESIGN.in.md").read()
out = []
for p in props.PROPS:
    f = f"{here}/docs/{p['id']}.md"
    out.append(open(f).read().strip() if os.path.exists(f) else f"### {p['id']} {p['title']}\nNot claimed: {p.get('na')}")
c = json.load(open(here + "/docs/catches.json")) if os.path.exists(here + "/docs/catches.json") else {}
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(here + "/seeded")) if os.path.isdir(here + "/seeded") else []:
    m = json.load(open(f"{here}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {c.get(s, 'not run')} |")
open(here + "/DESIGN.md", "w").write(t.replace("@@PROPS@@", "\n\n".join(out)).replace("@@SEEDS@@", "\n".join(rows)))
