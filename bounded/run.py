"""Concrete search on the real code, used (a) to look for a failing input when an obligation
fails and (b) as the labelled bounded stand-in for functions outside the verifier's reach.

run.py PROPERTY --seed N --n CASES --out FILE      search
run.py --replay FILE                                re-run a replay file (exit 1 if it fails)
"""
import sys, os, json, time, argparse, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ.get("PYVC_REPO", "/repo"), "src"))
import random
from hist import *
import direct as D
import hist as H

RUN = {"group": H.run_group_hist, "loose": H.run_loose, "list": H.run_list, "points": H.run_points,
       "misaligned": D.run_misaligned, "cleanup": D.run_cleanup, "shift": D.run_shift, "fuse": D.run_fuse, "lookup": D.run_lookup,
       "export": D.run_export, "classes": D.run_classes, "paths": D.run_paths, "interleave": D.run_interleave, "refuse": D.run_refuse,
       "validate": D.run_validate, "extent": D.run_extent, "custom": D.run_custom, "polar": D.run_polar}

G = lambda p: (lambda rng: H.gen_group_hist(rng, p))
# property -> weighted generators
GEN = {
    "C01": [(4, G("C01")), (4, H.gen_loose), (2, H.gen_points_hist)],
    "C02": [(3, G("C02")), (2, H.gen_loose), (3, H.gen_list), (2, H.gen_points_hist)],
    "C03": [(5, G("C03")), (5, H.gen_loose)],
    "C04": [(5, G("C04")), (4, D.gen_misaligned)],
    "C05": [(3, G("C05")), (5, D.gen_cleanup)],
    "C06": [(3, G("C06")), (5, D.gen_shift), (2, H.gen_list), (2, H.gen_points_hist)],
    "C07": [(4, G("C07")), (6, D.gen_fuse)],
    "C08": [(1, D.gen_lookup)],
    "C09": [(1, D.gen_export)],
    "C10": [(1, D.gen_classes)],
    "C11": [(5, D.gen_paths), (3, G("C11")), (2, H.gen_loose), (1, H.gen_points_hist)],
    "C12": [(1, D.gen_interleave)],
    "C14": [(6, D.gen_refuse), (1, D.gen_fuse), (1, D.gen_classes)],
    "C15": [(1, D.gen_validate)],
    "C16": [(1, D.gen_extent)],
    "C17": [(1, D.gen_custom)],
    "C18": [(1, D.gen_polar)],
}


def run_case(case, prop):
    try:
        with contextlib.redirect_stdout(io.StringIO()):   # praatio prints notices
            fs = RUN[case["kind"]](case)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        fs = [(prop, f"the library raised {type(ex).__name__}: {ex} in {tb[-1].name}")]
    return [m for p, m in fs if p == prop]


def shrink(case, prop, budget=8.0):
    """Greedy: drop operations and entries while the case still fails."""
    t0 = time.time()
    best = json.loads(json.dumps(case))
    import re
    sig = lambda ms: {re.sub(r"[^A-Za-z ]+", "", m)[:22] for m in ms}
    want = sig(run_case(case, prop))
    def empty_level(x):
        if isinstance(x, dict):
            return any((k in ("levels", "tiers") and any(len(l) == 0 for l in v)) or (k in ("groups", "phones", "pool", "words", "up", "lo", "tp", "lv") and len(v) == 0)
                       or (isinstance(v, (dict, list)) and empty_level(v)) for k, v in x.items())
        return isinstance(x, list) and any(empty_level(y) for y in x)
    def lists(x, path=()):
        if isinstance(x, dict):
            for k, v in x.items(): yield from lists(v, path + (k,))
        elif isinstance(x, list):
            if x and isinstance(x[0], list): yield path
            for i, v in enumerate(x):
                if isinstance(v, (dict, list)): yield from lists(v, path + (i,))
    def get(x, path):
        for k in path: x = x[k]
        return x
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for path in list(lists(best)):
            try:
                l = get(best, path)
            except (IndexError, KeyError, TypeError):
                continue
            i = 0
            while i < len(l) and time.time() - t0 < budget:
                if path and path[-1] == "levels": break
                cand = json.loads(json.dumps(best))
                del get(cand, path)[i]
                f = [] if empty_level(cand) else run_case(cand, prop)
                if sig(f) & want:
                    best, changed = cand, True
                    l = get(best, path)
                else:
                    i += 1
    return best


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=400)
    ap.add_argument("--secs", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        if r.get("case") is None:
            print("no concrete case in this replay file (see its obligations)")
            return 0
        fs = run_case(r["case"], r["property"])
        for m in fs: print(m)
        return 1 if fs else 0
    gens = GEN[a.prop]
    bag = [g for w, g in gens for _ in range(w)]
    t0 = time.time()
    res = {"property": a.prop, "evaluations": 0, "kinds": {}, "failure": None, "samples": []}
    seen = set()
    for i in range(a.n):
        if time.time() - t0 > a.secs: break
        rng = random.Random(a.seed * 1000003 + i)
        case = bag[i % len(bag)](rng)
        s = json.dumps(case, sort_keys=True)
        res["evaluations"] += 1
        res["kinds"][case["kind"]] = res["kinds"].get(case["kind"], 0) + 1
        seen.add(s)
        if len(res["samples"]) < 2: res["samples"].append(case)
        fs = run_case(case, a.prop)
        if fs:
            small = shrink(case, a.prop)
            f2 = run_case(small, a.prop)
            if not f2: small, f2 = case, fs
            res["failure"] = {"case": small, "messages": f2[:6], "original": case}
            break
    res["distinct"] = len(seen)
    res["wall_s"] = time.time() - t0
    if a.out: json.dump(res, open(a.out, "w"))
    else: print(json.dumps(res["failure"] or {k: res[k] for k in ("evaluations", "distinct", "wall_s", "kinds")}, indent=1)[:3000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
