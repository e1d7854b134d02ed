#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl, the registered contracts and tools/notes.json."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "pyvc")]
import registry, assumptions
units = registry.all_units()
base = json.load(open(os.path.join(H, "baseline.json")))["proved"]
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {"C13": "the functions behind it build polars data frames (joins, struct columns, expressions): no contract for polars within the verifier's reach can express or decide what the frame holds"}
checks, na = [], []
for p in props:
    mine = [u for u in units if p in u.props and u.id in base]
    if p in NA or not mine:
        na.append({"property": p, "reason": NA.get(p, "no contract for it has been built yet")})
        continue
    nob = sum(base[u.id] for u in mine)
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt check.py {p} --tier quick",
        "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
        "technique": "contracts on the real functions, obligations generated from /repo's source on every run and discharged by z3 (pyvc); bounded stand-in for the rest",
        "level": "proof",
        "level_note": f"Proved for all inputs: {len(mine)} contracts ({', '.join(u.id for u in mine[:12])}{', ...' if len(mine) > 12 else ''}) and the contracts they use. "
                      f"Bounded stand-in, not proved: {assumptions.BOUND.get(p, 'histories of operations on the real code')}. "
                      "Times are reals, termination is not proved, built-ins and numpy have assumed contracts."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. known-findings.txt lists repaired defects; seeded/ holds planted bugs."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
