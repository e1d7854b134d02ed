#!/usr/bin/env python3
"""seed.py DEFS.py [--check] [ids]: make /verif/seeded/<id>/ from edit definitions, confirming each in a scratch copy.

DEFS.py defines SEEDS: list of dict(id, property, edits=[(file, old, new)], demo=<python text>, needs, what_it_breaks).
A change is kept only if it passes the repository's stable tests and its demo fails with it and passes without.
--check also runs the property's check on the scratch copy."""
import sys, os, json, shutil, subprocess, runpy, stat
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
base = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    b = base
    for k in ("stable", "passed", "tests", "pass"):
        if isinstance(b, dict) and k in b: return b[k]
    return b


def run_tests(src):
    env = dict(os.environ, PYTHONPATH=src + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-x", "--timeout=300"], cwd=src, env=env, capture_output=True, text=True)
    return p.returncode == 0, p.stdout[-600:]


def main():
    defs = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in defs:
        if ids and s["id"] not in ids: continue
        d = f"/tmp/seedrepo{os.getpid()}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        for f, old, new in s["edits"]:
            p = f"{d}/src/aligned_textgrid/{f}"
            t = open(p).read()
            if t.count(old) != 1: print(s["id"], "EDIT NOT UNIQUE/FOUND", t.count(old), repr(old[:60])); break
            open(p, "w").write(t.replace(old, new))
        else:
            diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
            ok, out = run_tests(d)
            dd = f"/tmp/seeddemo{os.getpid()}"; shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
            open(dd + "/demo.py", "w").write(s["demo"])
            open(dd + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            r0 = subprocess.run(["bash", dd + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
            r1 = subprocess.run(["bash", dd + "/demo.sh"], cwd=d, env=dict(os.environ, PYTHONPATH=d + "/src"), capture_output=True, text=True)
            orig = 0
            for f, old, new in s["edits"]:
                o = subprocess.run(["git", "-C", "/repo", "show", f"3f5623a:src/aligned_textgrid/{f}"], capture_output=True, text=True).stdout.split("\n")
                orig += sum(1 for l in old.split("\n") if l.strip() and l not in new.split("\n") and l in o)
            if not orig: print(s["id"], "CHANGES NO ORIGINAL LINE")
            good = orig and ok and r0.returncode == 0 and r1.returncode != 0
            print(s["id"], "OK" if good else "REJECTED", f"tests={ok} demo clean={r0.returncode} patched={r1.returncode}", "" if ok else out[-300:], r0.stderr[-300:] if r0.returncode else "")
            if r1.returncode: print("     ", r1.stderr.strip().split("\n")[-1][:200])
            if good:
                o = f"{H}/seeded/{s['id']}"; os.makedirs(o, exist_ok=True)
                open(o + "/patch.diff", "w").write(diff)
                for f in ("demo.py", "demo.sh"): shutil.copy(f"{dd}/{f}", o)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(o + "/meta.json", "w"), indent=1)
                if "--check" in sys.argv:
                    c = subprocess.run(["python3-vt", f"{H}/check.py", s["property"]], env=dict(os.environ, PYVC_REPO=d, VERIF_SEED="1"), capture_output=True, text=True)
                    print("      check exit", c.returncode, [l for l in c.stdout.split("\n") if "VIOLATION" in l or "failed obl" in l or "not proved" in l][:4])
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/seeddemo{os.getpid()}", ignore_errors=True)
main()
