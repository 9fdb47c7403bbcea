#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, plan_src.py and seeded/*/meta.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan_src
t = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
rows = []
for p in props:
    x = plan_src.PLAN[p["id"]]
    rows.append(f"**{p['id']} — {p['title']}.** Units: {', '.join(x['units']) or 'none'}{'; Kani: ' + ', '.join(x['kani']) if x['kani'] else ''}. {x['note']}\n")
t = t.replace("@PROPS@", "\n".join(rows))
how = {}
f = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(f):
    how = json.load(open(f))
s = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    s.append(f"| {d} | {m['property']} | {m['needs']} | {how.get(d, '?')} |")
t = t.replace("@SEEDS@", "\n".join(s))
t = t.replace("@UNITS@\n", "")
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
