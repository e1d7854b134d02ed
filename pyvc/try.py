import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import src, spec, registry
def main():
    us = registry.all_units()
    prog = src.Program()
    con = registry.call_table(us)
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    for u in us:
        if args and not any(a in u.id for a in args): continue
        r = spec.verify(prog, con, u, debug="-v" in sys.argv)
        print(f"{r.status:12} {u.id:45} obls {sum(o.status=='proved' for o in r.obls)}/{len(r.obls)} paths {r.paths} {r.secs:.1f}s q{getattr(r,'nq',0)} {r.reason}", flush=True)
        for o in r.obls:
            if o.status != "proved": print("      ", o.status, o.name, o.detail, (o.sexpr or {}).get("path"))
        if "-i" in sys.argv: print("   inlined", sorted(r.inlined), "used", sorted(r.used, key=str))
main()
