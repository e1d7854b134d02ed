#!/usr/bin/env python3-vt
"""Records which contracts are proved on the unchanged tree (baseline.json)."""
import sys, os, json, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "pyvc")]
import check
if __name__ == "__main__":
    import registry
    us = [u.id for u in registry.all_units()]
    with mp.get_context("spawn").Pool(8, maxtasksperchild=1) as p:
        rs = p.map(check.work, us, chunksize=1)
    ok = {r["unit"]: len(r["obls"]) for r in rs if r["status"] == "proved"}
    json.dump({"proved": ok}, open(os.path.join(H, "baseline.json"), "w"), indent=1, sort_keys=True)
    for r in rs:
        print(r["status"], r["unit"], len(r["obls"]), round(r["secs"], 1), r["reason"][:150])
