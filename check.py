#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on the current working tree of /repo:
 1. parse /repo/src, generate the proof obligations of every function under contract that the
    property rests on (and of every contract those proofs use), discharge them with z3;
 2. run the bounded stand-in on the real code, for the functions outside the verifier's reach;
 3. when an obligation fails, look for a concrete failing input on the real code.
Exit 0: held.  Exit 1: VIOLATION line.
"""
import sys, os, json, time, subprocess, argparse, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "pyvc"))
REPO = os.environ.get("PYVC_REPO", "/repo")
VENV = "/opt/venv/bin/python"
EVID = os.path.join(HERE, "evidence")


def work(uid):
    import src, spec, registry, npx
    units = {u.id: u for u in registry.all_units()}
    u = units[uid]
    try:
        prog = src.Program()
    except SyntaxError as x:
        return {"unit": uid, "status": "unsupported", "reason": f"source does not parse: {x}", "obls": [], "used": [], "inlined": [], "secs": 0, "solver": 0, "func": uid, "where": "", "np": []}
    try:
        r = spec.verify(prog, registry.call_table(units.values()), u)
    except Exception as x:              # a crash of the engine decides nothing
        return {"unit": uid, "status": "unsupported", "reason": f"engine: {type(x).__name__}: {x}", "obls": [], "used": [], "inlined": [], "secs": 0, "solver": 0, "func": uid, "where": "", "np": []}
    return {"unit": uid, "status": r.status, "reason": r.reason, "func": getattr(r, "func", uid), "where": getattr(r, "where", ""),
            "obls": [{"name": o.name, "status": o.status, "detail": o.detail, "secs": round(o.secs, 3), "vc": o.sexpr} for o in r.obls],
            "used": sorted(f"{a}|{b}" for a, b in r.used), "inlined": sorted(r.inlined), "secs": r.secs, "solver": r.solver, "np": sorted(npx.USED)}


def prove(prop, pool, tier="thorough", limit=640):
    """Proves the property's units and, transitively, every contract a proof has used.

    Units marked deep are proved in the thorough tier only; what is not done in time is reported as not proved."""
    import registry
    units = [u for u in registry.all_units() if tier == "thorough" or not u.deep]
    end = time.time() + limit
    table = {}
    for u in units:
        if u.assume_at_calls: table.setdefault(f"{u.recv}|{u.name}", []).append(u.id)
    direct = [u.id for u in units if prop in u.props]
    cost = {u.id: u.budget for u in units}
    done, todo = {}, list(direct)
    pend = {}
    seen = set()
    for u in sorted(todo, key=lambda x: -cost[x]):
        seen.add(u); pend[u] = pool.apply_async(work, (u,))
    while pend:
        for uid in list(pend):
            if pend[uid].ready():
                r = pend.pop(uid).get()
                done[uid] = r
                for c in r["used"]:
                    for d in table.get(c, ()):
                        if d not in seen:
                            seen.add(d); pend[d] = pool.apply_async(work, (d,))
        if time.time() > end:
            for uid in pend:
                done[uid] = {"unit": uid, "status": "limit", "reason": f"not finished {limit} s after the check began", "obls": [], "used": [], "inlined": [], "secs": 0, "solver": 0, "func": uid, "where": "", "np": []}
            break
        time.sleep(0.02)
    return direct, done


def start_bounded(prop, seed, n, secs, tag):
    out = os.path.join(EVID, f".b-{prop}-{tag}.json")
    if os.path.exists(out): os.remove(out)
    p = subprocess.Popen([VENV, os.path.join(HERE, "bounded", "run.py"), prop, "--seed", str(seed), "--n", str(n), "--secs", str(secs), "--out", out],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYVC_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"))
    return p, out


def finish(jobs, prop):
    rs = []
    for p, out in jobs:
        _, err = p.communicate()
        if os.path.exists(out):
            rs.append(json.load(open(out))); os.remove(out)
        else:
            rs.append({"evaluations": 0, "distinct": 0, "kinds": {}, "samples": [], "wall_s": 0, "failure":
                       {"case": None, "messages": ["the library cannot be imported or run: " + (err or "")[-600:]], "original": None}})
    return rs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    plan = {"quick": (4, 1500, 45), "thorough": (8, 40000, 480)}[tier]
    jobs = [start_bounded(prop, seed * 100 + i, plan[1], plan[2], i) for i in range(plan[0])]
    pool = mp.get_context("spawn").Pool(8, maxtasksperchild=1)
    direct, done = prove(prop, pool, tier, 640 if tier == "quick" else 2400)
    pool.terminate()
    bres = finish(jobs, prop)
    fail = next((b["failure"] for b in bres if b["failure"]), None)
    base = json.load(open(os.path.join(HERE, "baseline.json")))["proved"] if os.path.exists(os.path.join(HERE, "baseline.json")) else {}
    failed = []
    for uid, r in sorted(done.items()):
        if r["status"] in ("failed", "vacuous") and uid in base:
            failed.append(r)
    if failed and fail is None:
        # obligations failed: look harder for a concrete input
        jobs = [start_bounded(prop, seed * 100 + 50 + i, 20000, 90, i) for i in range(8)]
        more = finish(jobs, prop)
        bres += more
        fail = next((b["failure"] for b in more if b["failure"]), None)
    proved = [r for r in done.values() if r["status"] == "proved"]
    other = [r for r in done.values() if r["status"] != "proved"]
    nobl = sum(len(r["obls"]) for r in done.values())
    ndis = sum(1 for r in done.values() for o in r["obls"] if o["status"] == "proved")
    known = [k for k in known_findings(prop)]
    viol = None
    replay = os.path.join(EVID, f"replay-{prop}.json")
    if fail is not None and not any(k in " ".join(fail["messages"]) for k in known):
        rep = {"property": prop, "kind": "failing input on the real code", "case": fail["case"], "messages": fail["messages"], "original": fail["original"],
               "obligations": [{"unit": r["unit"], "function": r["func"], "where": r["where"], "failed": [o for o in r["obls"] if o["status"] != "proved"][:5]} for r in failed],
               "how": f"{VENV} {HERE}/bounded/run.py --replay {replay}"}
        json.dump(rep, open(replay, "w"), indent=1)
        viol = f"VIOLATION property={prop} replay={replay}"
    elif failed:
        rep = {"property": prop, "kind": "failed obligations, no failing input found", "case": None,
               "obligations": [{"unit": r["unit"], "function": r["func"], "where": r["where"], "status": r["status"], "reason": r["reason"],
                                "failed": [o for o in r["obls"] if o["status"] != "proved"][:8]} for r in failed]}
        json.dump(rep, open(replay, "w"), indent=1)
        viol = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    import assumptions
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - t0, 2),
          "assumptions": assumptions.for_units(done, prop),
          "violations": 1 if viol else 0,
          "coverage": {
              "obligations": nobl, "discharged": ndis,
              "checker_cmd": f"cd /verif && python3-vt check.py {prop} --tier {tier}",
              "trusted_base": assumptions.TRUSTED,
              "back_end": "z3 (python API of python3-vt), E-matching, MBQI off, deterministic resource limits",
              "solver_s": round(sum(r["solver"] for r in done.values()), 2),
              "functions_under_contract": [{"contract": r["unit"], "function": r["func"], "where": r["where"], "obligations": len(r["obls"]),
                                            "direct": r["unit"] in direct, "inlined": r["inlined"]} for r in sorted(proved, key=lambda r: r["unit"])],
              "not_proved_now": [{"contract": r["unit"], "status": r["status"], "reason": r["reason"],
                                  "decided_by": "bounded stand-in" if r["status"] not in ("failed", "vacuous") else "failed obligation"} for r in other],
              "bounded_stand_in": {"label": "bounded, not counted as proved", "bound": assumptions.BOUND.get(prop, ""),
                                   "cases": sum(b["evaluations"] for b in bres), "distinct": sum(b["distinct"] for b in bres),
                                   "kinds": merge([b["kinds"] for b in bres]),
                                   "rule": "a case counts once per distinct generated input",
                                   "samples": [json.dumps(s)[:300] for b in bres[:1] for s in b["samples"]]},
              "samples": [o["name"] for r in done.values() for o in r["obls"] if o["detail"] != "trivial"][:8],
          }}
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    print(f"{prop} [{tier}] contracts {len(proved)}/{len(done)} proved, obligations {ndis}/{nobl}, bounded cases {ev['coverage']['bounded_stand_in']['cases']}, {ev['wall_s']} s")
    for r in other: print(f"  not proved: {r['unit']}: {r['status']} {r['reason'][:200]}")
    if viol:
        for m in (fail or {}).get("messages", [])[:4]: print("  ", m)
        for r in failed[:4]:
            for o in [o for o in r["obls"] if o["status"] != "proved"][:3]: print("   failed obligation:", o["name"])
        print(viol)
        return 1
    return 0


def merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items(): out[k] = out.get(k, 0) + v
    return out


def known_findings(prop):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"known: property={prop} "): out.append(l.strip().split(" ", 2)[2])
    return out


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
