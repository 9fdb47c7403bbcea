"""Writes plan.json and MANIFEST.json from tools/plan_src.py (run after changing it)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import plan_src as P
V = os.path.dirname(H)
RULE = ("cases are generated from (property, seed, case number): random files, write histories, faults, values or byte mutations as the "
        "property needs, each compared with an independent model; a case is non-trivial when it has something to compare and distinct by its full text")
plan, checks = {}, []
for pid, p in P.PLAN.items():
    plan[pid] = {"level": p["level"], "units": p["units"], "kani": p["kani"], "secs": {"quick": 25, "thorough": 300}, "rule": RULE, "assumptions": p.get("assumptions", [])}
    tech = []
    if p["units"]:
        tech.append("contract-based deductive verification (Verus) of the extracted functions")
    if p["kani"]:
        tech.append("full-domain function contracts (Kani) on the crate")
    if p["units"] or p["kani"]:
        tech.append("bounded exploration of what the contracts do not express" if p["level"] != "proof" else "bounded exploration of the public API besides")
    else:
        tech.append("bounded exploration, standing in for contracts out of reach")
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "technique": "; ".join(tech), "level": p["level"], "level_note": p["note"], **({"theorems": p["theorems"]} if p["theorems"] else {})})
json.dump(plan, open(V + "/plan.json", "w"), indent=1)
man = {"version": 1, "setup_cmd": "true", "hooks": P.HOOKS, "checks": checks, "not_applicable": P.NOT_APPLICABLE}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
