#!/usr/bin/env python3
"""Writes contracts/baseline.json: the shape (parameter names, loops, calls) of every function under contract,
as it was when its annotations were written. usage: baseline.py INDEXER [REPO]"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract

src = extract.Source(sys.argv[2] if len(sys.argv) > 2 else "/repo", sys.argv[1])
ids = set()
for f in sorted(os.listdir(extract.CONTRACTS)):
    if f.endswith(".unit"):
        u = extract.Unit(f[:-5])
        ids |= set(u.verified) | set(u.assumed)
out = {i: extract.shape(src.get(i), src.text[src.get(i)["file"]]) for i in sorted(ids)}
out["*calls"] = sorted({n for o in out.values() for n in o["calls"]})
with open(os.path.join(extract.CONTRACTS, "baseline.json"), "w") as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write("\n")
