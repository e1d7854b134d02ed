"""Operation histories: worlds, operations with their per-operation oracles, invariants after each step.

A failure is (property, message).  Operations outside the stated domains are skipped.
"""
from world import *
from inv import *


class World:
    pass


def state(ts):
    """Structural snapshot of tiers (and everything reachable through relations)."""
    out = []
    for t in ts:
        for e in t:
            row = [id(e), key(e), id(e.fol) if e.fol is not None and e.fol.label != "#" else "#",
                   id(e.prev) if e.prev is not None and e.prev.label != "#" else "#", id(e.intier)]
            if isinstance(e, SequenceInterval):
                row += [id(e.super_instance), [id(c) for c in e.subset_list], id(e.within)]
            out.append(tuple(map(str, row)))
        out.append(("tier", t.name, len(t)))
    return out


def orphan_edge(e, who):
    out = []
    if e.fol is None or e.fol.label != "#":
        out.append(("C01", f"{who}: removed entry still has following neighbour {e.fol!r}"))
    if e.prev is None or e.prev.label != "#":
        out.append(("C01", f"{who}: removed entry still has previous neighbour {e.prev!r}"))
    return out


def detached(e, old, who):
    out = []
    if getattr(e, "super_instance", None) is not None:
        out.append(("C03", f"{who}: removed interval still names a parent"))
    if old is not None and is_in(e, old.subset_list):
        out.append(("C03", f"{who}: removed interval is still in its old parent's list"))
    if isinstance(e.within, SequenceInterval):
        out.append(("C03", f"{who}: removed interval is still within {e.within!r}"))
    return out


# ---------------------------------------------------------------- invariants
def group_inv(g):
    out = []
    for nm, f in (("C01", C01), ("C02", C02), ("C03", C03)):
        out += [(nm, m) for m in f(g)]
    out += [("C11", m) for m in within_ok(g)]
    return out


def within_ok(g):
    out = []
    for i, t in enumerate(g):
        if t.within is not g:
            out.append(f"tier {t.name} is not within its group")
        elif t.within_index != i:
            out.append(f"tier {t.name}: within_index {t.within_index}, position {i}")
        for j, e in enumerate(t):
            w = e.within
            if w is None:
                continue
            if not is_in(e, w.contains):
                out.append(f"{key(e)} is within {w!r} which does not contain it")
            elif w.contains[e.within_index] is not e:
                out.append(f"{key(e)}: within_index {e.within_index} points elsewhere")
    return out


# ---------------------------------------------------------------- group operations
def pick(g, a, b, depth=None):
    t = g[a % len(g)] if depth is None else g[depth]
    if len(t) == 0:
        return t, None
    return t, t[b % len(t)]


def others_same(before, tier, gone, prop, who):
    """tier now is `before` (list of objects) without `gone`, in order."""
    exp = [x for x in before if not is_in(x, gone)]
    if not same_objs(exp, tier):
        return [(prop, f"{who}: tier holds {keys(tier)}, expected {keys(exp)}")]
    return []


def pop_deep(g, t, e, out):
    i = list(g).index(t)
    if i + 1 < len(g):
        for c in list(e.subset_list):
            pop_deep(g, g[i + 1], c, out)
    before, par = list(t), e.super_instance
    pk = [c for c in par.subset_list] if par is not None else None
    t.pop(e)
    out += others_same(before, t, [e], "C02", "tier.pop")
    out += orphan_edge(e, "tier.pop") + detached(e, par, "tier.pop")
    if par is not None and not same_objs([c for c in pk if c is not e], par.subset_list):
        out.append(("C02", "tier.pop: parent's list is not the old one without the entry"))


LABFUN = {0: None, 1: lambda x, y: x + "|" + y, 2: lambda x, y: y + x, 3: lambda x, y: x}


def fuse_checked(e, right, lf):
    """Fuse and compare with the specification (C07)."""
    out = []
    n = e.fol if right else e.prev
    if n.label == "#":
        st = (key(e), id(e.fol), id(e.prev), [id(c) for c in e.subset_list])
        try:
            (e.fuse_rightwards if right else e.fuse_leftwards)()
            out.append(("C07", "fusing at an edge was not refused"))
            out.append(("C14", "fusing at an edge was not refused"))
        except Exception:
            pass
        if st != (key(e), id(e.fol), id(e.prev), [id(c) for c in e.subset_list]):
            out.append(("C07", "refused fusion changed something"))
            out.append(("C14", "refused fusion changed something"))
        return out
    nn = n.fol if right else n.prev
    other = e.prev if right else e.fol
    lo, hi = (e, n) if right else (n, e)
    exp_key = (float(lo.start), float(hi.end))
    f = LABFUN[lf] or (lambda x, y: " ".join([x, y]))
    exp_lab = f(lo.label, hi.label)
    kids = list(lo.subset_list) + list(hi.subset_list)
    dup = len({key(c) for c in kids}) != len(kids)
    kk = keys(kids)
    par, tier = e.super_instance, e.intier
    tb = list(tier) if tier is not None else None
    pb = list(par.subset_list) if par is not None else None
    args = {} if LABFUN[lf] is None else {"label_fun": LABFUN[lf]}
    (e.fuse_rightwards if right else e.fuse_leftwards)(**args)
    if not (close(e.start, exp_key[0]) and close(e.end, exp_key[1])):
        out.append(("C07", f"fused interval spans {e.start}-{e.end}, expected {exp_key}"))
    if e.label != exp_lab:
        out.append(("C07", f"fused label {e.label!r}, expected {exp_lab!r}"))
    if not dup and (len(e.subset_list) != len(kids) or not all(is_in(c, e.subset_list) for c in kids)):
        out.append(("C07", f"fused interval has children {keys(e.subset_list)}, expected {kk}"))
    if keys(sorted(kids, key=lambda c: key(c))) != sorted(kk):
        out.append(("C07", "fusion changed a child's times or label"))
    if tier is not None:
        if not same_objs([x for x in tb if x is not n], tier):
            out.append(("C07", "tier after fusion is not the old tier without the neighbour"))
    if par is not None:
        if not same_objs([x for x in pb if x is not n], par.subset_list):
            out.append(("C07", "parent's children after fusion are not the old ones without the neighbour"))
    x = e.fol if right else e.prev
    if nn.label == "#":
        if x.label != "#":
            out.append(("C07", "fused interval should be at an edge"))
    elif x is not nn:
        out.append(("C07", "the next interval over is not the new neighbour"))
    elif (nn.prev if right else nn.fol) is not e:
        out.append(("C07", "the new neighbour does not link back"))
    y = e.prev if right else e.fol
    if not (y is other or (y.label == "#" and other.label == "#")):
        out.append(("C07", "the neighbour on the other side changed"))
    if n.super_instance is not None and n.super_instance is par:
        out.append(("C07", "the absorbed interval still has the parent"))
    return out


def do_group_op(w, op):
    """Apply one operation; returns failures."""
    g, out = w.g, []
    name, a, b, c = op
    t, e = pick(g, a, b)
    i = list(g).index(t)
    if e is None:
        return out
    before = {id(x): [y for y in x] for x in g}
    if name == "popleaf":
        t = g[len(g) - 1]
        if len(t) < 2:
            return out
        pop_deep(g, t, t[b % len(t)], out)
    elif name == "popdeep":
        if len(t) < 2:
            return out
        pop_deep(g, t, e, out)
    elif name in ("fuser", "fusel"):
        out += fuse_checked(e, name == "fuser", c % 4)
    elif name in ("setsub", "subset="):
        if len(e) < 1:
            return out
        rr = random.Random(c)
        kids = list(e.subset_list)
        keep = kids[:] if c % 2 else rr.sample(kids, rr.randint(0, len(kids)))
        rr.shuffle(keep)
        arg = keep if c % 3 else SequenceList(*keep)
        if name == "setsub":
            e.set_subset_list(arg)
        else:
            e.subset_list = arg
        exp = [k for k in kids if is_in(k, keep)]
        if not same_objs(sorted(exp, key=lambda k: k.start), e.subset_list):
            out.append(("C02", f"{name}: children are {keys(e.subset_list)}, expected {keys(exp)}"))
        for k in kids:
            if not is_in(k, keep):
                out += detached(k, e, name) + orphan_edge(k, name)
        out += [("C01", m) for m in links_list(list(e.subset_list), name)] + [("C03", m) for m in C03(g)]
        for k in kids:
            if not is_in(k, keep):
                pop_deep(g, g[i + 1], k, out)
    elif name == "move":
        if i == 0 or len(g[i - 1]) < 2 or e.super_instance is None:
            return out
        u, old = g[i - 1][c % len(g[i - 1])], e.super_instance
        if u is old:
            return out
        for new in (u, old):
            prv = e.super_instance
            if c % 2:
                e.set_super_instance(new)
            else:
                new.append_subset_list(e)
            if e.super_instance is not new or not is_in(e, new.subset_list) or is_in(e, prv.subset_list):
                out.append(("C03", "moving an interval to another parent left it in the wrong lists"))
            out += [("C03", m) for m in C03(g)]
            for q in (new, prv):
                out += [("C01", m) for m in links_list(list(q.subset_list), "move")]
    elif name == "detach":
        if e.super_instance is None:
            return out
        par = e.super_instance
        kids = list(par.subset_list)
        [lambda: e.remove_superset(), lambda: par.remove_from_subset_list(e), lambda: par.pop(e)][c % 3]()
        if not same_objs([k for k in kids if k is not e], par.subset_list):
            out.append(("C02", "detaching removed more (or less) than the one interval"))
        out += detached(e, par, "detach") + orphan_edge(e, "detach")
        out += [("C01", m) for m in links_list(list(par.subset_list), "detach")] + [("C03", m) for m in C03(g)]
        [lambda: e.set_super_instance(par), lambda: par.append_subset_list(e), lambda: par.append(e)][c // 3 % 3]()
        if not same_objs(kids, par.subset_list):
            out.append(("C02", "re-attached interval is not back in its place"))
    elif name == "shift":
        inc = [1, -2, .5, 100, -0.125][c % 5]
        snapk = {id(x): key(x) for q in g for x in q}
        rel = [r[2:] for r in state(g)]
        kind = (c // 5) % 2
        if kind == 0 or True:
            g.shift(inc)
        for q in g:
            for x in q:
                k0, k1 = snapk.get(id(x)), key(x)
                if k0 is None or not kclose((k0[0] + inc, k0[1] + inc, k0[2]), k1):
                    out.append(("C06", f"shift by {inc}: {k0} became {k1}"))
        if [r[2:] for r in state(g)] != rel:
            out.append(("C06", "shift changed order or relations"))
    elif name == "rerelate":
        g.re_relate()
        out += relate_check(g, before, "re_relate")
    elif name == "cleanup":
        ks = {id(x): key(x) for q in g for x in q}
        g.cleanup()
        out += cleanup_check(g, before, ks)
        b2 = [[id(x) for x in q] for q in g]
        k2 = [keys(q) for q in g]
        g.cleanup()
        if [keys(q) for q in g] != k2 or [[id(x) for x in q] for q in g] != b2:
            out.append(("C05", "a second cleanup changed something"))
    elif name == "tappend":
        x = float(g.xmax) + (c % 3)
        new = g[0].entry_class((x, x + 3, "new"))
        cur = new
        if c % 2:
            for d in range(1, len(g)):
                k = g[d].entry_class((x, x + 3, "k"))
                cur.append(k)
                cur = k
        g[0].append(new)
        if sum(x is new for x in g[0]) != 1:
            out.append(("C02", "tier.append: the new interval is not there exactly once"))
        out += kept(before, g, "C02", "tier.append")
    elif name == "ichild":
        if i + 1 >= len(g):
            return out
        if len(e) == 0:
            k = g[i + 1].entry_class((e.start, e.end, "nk"))
        elif e.first.start > e.start and not close(e.first.start, e.start):
            k = g[i + 1].entry_class((e.start, e.first.start, "nk"))
        elif e.last.end < e.end and not close(e.last.end, e.end):
            k = g[i + 1].entry_class((e.last.end, e.end, "nk"))
        else:
            # make room first: take a child out
            k0 = e.subset_list[c % len(e)]
            pop_deep(g, g[i + 1], k0, out)
            if out: return out
            k = g[i + 1].entry_class((k0.start, k0.end, "nk"))
            before = {id(x): [y for y in x] for x in g}
        e.append(k)
        if sum(x is k for x in e.subset_list) != 1 or sum(x is k for x in g[i + 1]) != 1:
            out.append(("C02", "interval.append: the new interval is not there exactly once"))
        out += kept(before, g, "C02", "interval.append")
    elif name == "concat":
        spec = gen_group_spec(random.Random(c), depth=len(g), maxn=2)
        g2 = build_group(spec, cls=[q.entry_class for q in g])
        old = {id(x): (x, key(x)) for q in g for x in q}
        new = [[(x, key(x)) for x in q] for q in g2]
        xm = float(g.xmax)
        g.concat(g2)
        for x, k in old.values():
            if not kclose(key(x), k):
                out.append(("C06", f"concat changed the left entry {k} to {key(x)}"))
        out += kept(before, g, "C02", "concat")
        for q, lst in zip(g, new):
            for x, k in lst:
                if not kclose(key(x), (k[0] + xm, k[1] + xm, k[2])):
                    out.append(("C06", f"concat: right entry {k} became {key(x)}, left part ended at {xm}"))
                if sum(x is y for y in q) != 1:
                    out.append(("C02", "concat: a right entry is not in the tier exactly once"))
                    out.append(("C06", "concat: a right entry is not in the tier exactly once"))
    elif name == "add":
        spec = gen_group_spec(random.Random(c), depth=len(g), maxn=2)
        g2 = build_group(spec, cls=[q.entry_class for q in g])
        g2.shift(float(g.xmax) - float(g2.xmin) + (c % 2))
        exp = [list(p) + list(q) for p, q in zip(g, g2)]
        ek = {id(x): key(x) for l in exp for x in l}
        g = w.g = g + g2
        for q, l in zip(g, exp):
            if not all(sum(x is y for y in q) == 1 for x in l):
                out.append(("C02", "group +: an entry is lost or doubled"))
            if any(not kclose(key(x), ek[id(x)]) for x in l):
                out.append(("C06", "group + changed an entry"))
    elif name == "seqperm":
        ents = list(t)
        random.Random(c).shuffle(ents)
        t.sequence_list = ents if c % 2 else SequenceList(*ents)
        out += others_same(before[id(t)], t, [], "C02", "sequence_list=")
    return out


def kept(before, g, prop, who):
    out = []
    for q in g:
        for x in before.get(id(q), []):
            if sum(x is y for y in q) != 1:
                out.append((prop, f"{who}: entry {key(x)} is lost or doubled in {q.name}"))
    return out


def relate_check(g, before, who):
    out = kept(before, g, "C04", who)
    out += [("C04", m) for m in children_in_tier(g)]
    ts = list(g)
    for up, lo in zip(ts, ts[1:]):
        for e in lo:
            p = e.super_instance
            if p is None:
                out.append(("C04", f"{who}: {key(e)} has no parent"))
            elif not (p.start <= e.start + 1e-9 and e.end <= p.end + 1e-9):
                out.append(("C04", f"{who}: {key(e)} is under {key(p)}"))
            if not is_in(e, before.get(id(lo), [])) and e.label != "":
                out.append(("C04", f"{who}: added interval {key(e)} has a label"))
    return out


def cleanup_check(g, before, ks):
    out = kept(before, g, "C05", "cleanup")
    for q in g:
        for x in q:
            if is_in(x, before[id(q)]):
                if not kclose(key(x), ks[id(x)]):
                    out.append(("C05", f"cleanup changed {ks[id(x)]} to {key(x)}"))
            elif x.label != "":
                out.append(("C05", f"cleanup added a labelled interval {key(x)}"))
        if not tight(q):
            out.append(("C05", f"cleanup left a gap in {q.name}: {keys(q)}"))
    out += [("C05", m) for m in children_in_tier(g)]
    return out


GROUP_OPS = ["popleaf", "popdeep", "fuser", "fusel", "setsub", "subset=", "move", "detach", "shift", "rerelate",
             "cleanup", "tappend", "ichild", "concat", "add", "seqperm"]
OP_PROP = {"popleaf": "C01 C02 C03", "popdeep": "C01 C02 C03", "fuser": "C07", "fusel": "C07", "setsub": "C01 C02 C03",
           "subset=": "C01 C02 C03", "move": "C01 C02 C03", "detach": "C01 C02 C03", "shift": "C06", "rerelate": "C04",
           "cleanup": "C05", "tappend": "C01 C02 C03", "ichild": "C01 C02 C03", "concat": "C02 C06", "add": "C02", "seqperm": "C02",
           "build": "C01 C02 C03 C04"}
PROP_OPS = {"C07": ["fuser", "fusel", "fuser", "fusel", "fuser", "fusel", "detach", "setsub", "shift"],
            "C06": ["shift", "concat", "shift", "concat", "fuser", "cleanup", "add"],
            "C05": ["cleanup", "cleanup", "cleanup", "popdeep", "popleaf", "tappend", "fuser"],
            "C04": ["rerelate", "rerelate", "popdeep", "popleaf", "tappend", "fuser", "move"],
            }


def exc_fail(name, ex, extra=""):
    import traceback
    tb = traceback.extract_tb(ex.__traceback__)
    where = [f for f in tb if "aligned_textgrid" in f.filename and "/bounded/" not in f.filename]
    loc = f"{where[-1].name}" if where else tb[-1].name
    return [(p, f"{name} raised {type(ex).__name__}: {ex} (in {loc}){extra}") for p in OP_PROP.get(name, "C01 C02 C03").split()]


def gen_group_hist(rng, prop, nops=4):
    ops = PROP_OPS.get(prop, GROUP_OPS)
    return {"kind": "group", "spec": gen_group_spec(rng),
            "ops": [[rng.choice(ops), rng.randrange(60), rng.randrange(60), rng.randrange(60)] for _ in range(rng.randint(1, nops))]}


def run_group_hist(case):
    w = World()
    try:
        ts = build_tiers(case["spec"])
        before = {id(t): list(t) for t in ts}
        ks = {id(x): key(x) for t in ts for x in t}
        w.g = TierGroup(ts)
        out = relate_check(w.g, before, "building the group")
        for t in w.g:
            for x in before[id(t)]:
                if not kclose(key(x), ks[id(x)]):
                    out.append(("C04", f"building the group changed {ks[id(x)]} to {key(x)}"))
    except Exception as ex:
        return exc_fail("build", ex)
    out += group_inv(w.g)
    for j, op in enumerate(case["ops"]):
        if out:
            return out
        try:
            out += do_group_op(w, op)
            out += group_inv(w.g)
        except Exception as ex:
            return exc_fail(op[0], ex)
    return out


# ---------------------------------------------------------------- loose intervals
def gen_loose(rng, nops=6):
    spans, seen = [], set()
    n = rng.randint(1, 6)
    while len(spans) < n:
        a = rng.randint(0, 9)
        s = (a, a + rng.randint(1, 4), rng.choice(LABELS))
        if s not in seen:
            seen.add(s)
            spans.append(list(s))
    return {"kind": "loose", "phones": spans, "nw": rng.randint(1, 3), "unit": rng.choice(UNITS),
            "ops": [[rng.choice(["set", "set", "assign", "app", "super", "rm", "rmsup", "pop", "iapp", "steal"]), rng.randrange(60), rng.randrange(1, 5000)]
                    for _ in range(rng.randint(1, nops))]}


def loose_inv(ws, ps):
    out = []
    for w in ws:
        l = list(w.subset_list)
        ks = [key(x)[0] for x in l]
        if any(a > b for a, b in zip(ks, ks[1:])):
            out.append(("C02", f"children out of order: {ks}"))
        if len({id(x) for x in l}) != len(l):
            out.append(("C02", "a child twice in one list"))
        out += [("C01", m) for m in links_list(l, "children")]
        for c in l:
            if c.super_instance is not w:
                out.append(("C03", f"child {key(c)} names another parent ({c.super_instance!r})"))
            if c.within is not w:
                out.append(("C03", f"child {key(c)} is not within its parent"))
                out.append(("C11", f"child {key(c)} is not within its parent"))
            elif w.contains[c.within_index] is not c:
                out.append(("C11", "within_index of a child points elsewhere"))
    for p in ps:
        own = [w for w in ws if is_in(p, w.subset_list)]
        if len(own) > 1:
            out.append(("C03", f"{key(p)} is in two lists of children"))
        if p.super_instance is not None and not is_in(p, p.super_instance.subset_list):
            out.append(("C03", f"{key(p)} names a parent that does not have it"))
        if p.super_instance is None and isinstance(p.within, SequenceInterval):
            out.append(("C03", f"{key(p)} is within an interval without being its child"))
        if p.super_instance is None and not own:
            out += orphan_edge(p, "orphan")
    return out


def run_loose(case):
    u = case["unit"]
    ps = [Phone((t_(a, u), t_(b, u), l)) for a, b, l in case["phones"]]
    ws = [Word((0, t_(20, u), f"w{i}")) for i in range(case["nw"])]
    out = []
    for name, a, c in case["ops"]:
        w, p = ws[a % len(ws)], ps[c % len(ps)]
        rr = random.Random(c)
        subset = rr.sample(ps, rr.randint(0, len(ps)))
        kb = {id(x): key(x) for x in ps + ws}
        old = list(w.subset_list)
        try:
            if name == "set":
                w.set_subset_list(subset); exp = subset
            elif name == "assign":
                w.subset_list = subset; exp = subset
            elif name == "steal":
                v = ws[(a + 1) % len(ws)]
                if v is w: continue
                exp = list(v.subset_list)
                w.set_subset_list(v.subset_list)
            elif name == "app":
                w.append_subset_list(p); exp = old if is_in(p, old) else old + [p]
            elif name == "super":
                if p.super_instance is w: continue
                p.set_super_instance(w); exp = old + [p]
            elif name == "rm":
                w.remove_from_subset_list(p); exp = [x for x in old if x is not p]
            elif name == "rmsup":
                exp = [x for x in old if x is not p]
                p.remove_superset()
            elif name == "pop":
                w.pop(p); exp = [x for x in old if x is not p]
            elif name == "iapp":
                w.append(p); exp = old if is_in(p, old) else old + [p]
        except Exception as ex:
            return [(q, f"{name} raised {type(ex).__name__}: {ex}") for q in ("C01", "C02", "C03")]
        if sorted(map(id, exp)) != sorted(map(id, w.subset_list)):
            out.append(("C02", f"{name}: children are {keys(w.subset_list)}, expected (any order) {keys(exp)}"))
            out.append(("C03", f"{name}: children are {keys(w.subset_list)}, expected (any order) {keys(exp)}"))
        if {id(x): key(x) for x in ps + ws} != kb:
            out.append(("C03", f"{name} changed times or labels"))
        out += loose_inv(ws, ps)
        if out:
            return out
    return out


# ---------------------------------------------------------------- plain lists against a model
def gen_list(rng, nops=6):
    pt = rng.random() < .4
    n = rng.randint(1, 8)
    pool, seen = [], set()
    while len(pool) < n:
        a = rng.randint(0, 8)
        s = (a, rng.choice(LABELS)) if pt else (a, a + rng.randint(1, 3), rng.choice(LABELS))
        if s not in seen:
            seen.add(s); pool.append(list(s))
    return {"kind": "list", "points": pt, "pool": pool, "unit": rng.choice(UNITS),
            "ops": [[rng.choice(["init", "app", "app", "app", "rm", "pop", "add", "in", "appshift", "concat"]), rng.randrange(1, 5000)] for _ in range(rng.randint(1, nops))]}


def run_list(case):
    u, pt = case["unit"], case["points"]
    C = custom_classes(["PT"], points=[0])[0] if pt else Word
    mk = lambda s: C(tuple([t_(x, u) for x in s[:-1]] + [s[-1]]))
    pool = [mk(s) for s in case["pool"]]
    L, model, out = SequenceList(), [], []
    tim = lambda x: float(x.time if pt else x.start)
    endt = lambda x: float(x.time if pt else x.end)
    for name, c in case["ops"]:
        rr = random.Random(c)
        x = pool[c % len(pool)]
        sub = rr.sample(pool, rr.randint(0, len(pool)))
        try:
            if name == "init":
                L = SequenceList(*sub); model = list(sub)
            elif name == "app":
                L.append(x)
                if not any(key(x) == key(y) for y in model): model.append(x)
            elif name == "appshift":
                y = mk(case["pool"][c % len(pool)])
                if any(key(y) == key(z) for z in model): continue
                last = endt(list(L)[-1]) if model else 0.0
                k0 = key(y)
                L.append(y, shift=True)
                exp = tuple(v + last for v in k0[:-1]) + (k0[-1],)
                if not kclose(key(y), exp): out.append(("C06", f"append(shift=True) made {key(y)}, expected {exp}"))
                model.append(y)
            elif name == "rm":
                if not is_in(x, model): continue
                L.remove(x); model = [y for y in model if y is not x]
            elif name == "pop":
                L.pop(x); model = [y for y in model if key(y) != key(x)]
            elif name == "in":
                if (x in L) != any(key(x) == key(y) for y in model): out.append(("C02", f"`in` is wrong for {key(x)}"))
            elif name == "add":
                new = [y for y in sub if not any(key(y) == key(z) for z in model)]
                L2 = L + sub
                if not same_objs(sorted(map(id, model)), sorted(map(id, L))) and sorted(map(id, model)) != sorted(map(id, L)):
                    out.append(("C02", "+ changed its left operand"))
                L, model = L2, model + new
            elif name == "concat":
                right = [mk(s) for s in rr.sample(case["pool"], rr.randint(1, len(case["pool"])))]
                end = max([endt(y) for y in model], default=0.0)
                k0 = [key(y) for y in right]
                km = {id(y): key(y) for y in model}
                exp = [tuple(v + end for v in k[:-1]) + (k[-1],) for k in k0]
                if any(e in km.values() for e in exp): continue
                L.concat(right)
                if any(not kclose(key(y), e) for y, e in zip(right, exp)): out.append(("C06", f"concat made {keys(right)}, expected {exp}"))
                if any(key(y) != km[id(y)] for y in model): out.append(("C06", "concat changed the left part"))
                model = model + right
        except Exception as ex:
            p = "C06" if name in ("appshift", "concat") else "C02"
            return [(q, f"{name} raised {type(ex).__name__}: {ex}") for q in {p, "C02"}]
        if sorted(map(id, model)) != sorted(map(id, L)):
            out.append(("C02", f"after {name} the list holds {keys(L)}, expected (any order) {keys(model)}"))
        ts = [tim(y) for y in L]
        if any(p > q for p, q in zip(ts, ts[1:])): out.append(("C02", f"after {name} not in time order: {ts}"))
        if type(L._values) is not list: out.append(("C02", "storage is no longer a list"))
        if len(L) != len(list(L)): out.append(("C02", "length differs from iteration"))
        if len(L) and ([float(v) for v in L.starts] != ts or [float(v) for v in L.ends] != [endt(y) for y in L] or list(L.labels) != [y.label for y in L]):
            out.append(("C02", "starts/ends/labels do not match the entries"))
        if out: return out
    return out


# ---------------------------------------------------------------- point tiers
def gen_points_hist(rng, nops=5):
    return {"kind": "points", "spec": gen_points_spec(rng, nt=1),
            "ops": [[rng.choice(["app", "app", "shift", "perm", "drop", "concat", "add", "times"]), rng.randrange(60), rng.randrange(5000)] for _ in range(rng.randint(1, nops))]}


def points_inv(t, model):
    out = []
    if sorted(map(id, t)) != sorted(map(id, model)):
        out.append(("C02", f"point tier holds {keys(t)}, expected {keys(model)}"))
    ts = [float(p.time) for p in t]
    if any(a > b for a, b in zip(ts, ts[1:])): out.append(("C02", f"points out of order {ts}"))
    out += [("C01", m) for m in links_list(list(t), "points")]
    for i, p in enumerate(t):
        if p.intier is not t: out.append(("C01", f"point {key(p)} does not name its tier"))
        elif p.tier_index != i: out.append(("C01", "tier_index is not the position"))
        if p.within is not t or t.contains[p.within_index] is not p: out.append(("C11", f"containment of point {key(p)}"))
    return out


def run_points(case):
    C = point_classes(1)[0]
    u = case["spec"]["unit"]
    pts = [C((t_(a, u), l)) for a, l in case["spec"]["tiers"][0]]
    try:
        t = SequencePointTier(pts, entry_class=C)
    except Exception as ex:
        return [(q, f"building a point tier raised {ex!r}") for q in ("C01", "C02")]
    model = list(pts)
    out = points_inv(t, model)
    for name, a, c in case["ops"]:
        if out: return out
        k0 = {id(p): key(p) for p in model}
        props = ("C01", "C02")
        try:
            if name == "app":
                new = C((t_(a, u), "n"))
                if any(key(new) == key(p) for p in model): continue
                t.append(new); model.append(new)
            elif name == "shift":
                props = ("C06",)
                inc = [1, -2, .5, 30][c % 4]
                t._shift(inc)
                for p in model:
                    if not kclose(key(p), (k0[id(p)][0] + inc, k0[id(p)][1])): out.append(("C06", f"shift by {inc}: {k0[id(p)]} became {key(p)}"))
            elif name == "perm":
                l = list(t); random.Random(c).shuffle(l); t.sequence_list = l
            elif name == "drop":
                if len(model) < 2: continue
                l = list(t); p = l.pop(c % len(l)); t.sequence_list = l; model = [x for x in model if x is not p]
            elif name == "times":
                ts = [float(p.time) * 2 + 1 for p in t]
                t.times = ts
                if [float(p.time) for p in t] != ts: out.append(("C06", "times setter"))
            elif name in ("concat", "add"):
                props = ("C02", "C06")
                ps = [C((t_(x, u), l)) for x, l in gen_points_spec(random.Random(c), nt=1)["tiers"][0]]
                if name == "add":
                    ps = [C((float(p.time) + float(t.xmax) + 1, p.label)) for p in ps]
                t2 = SequencePointTier(ps, entry_class=C)
                k2 = {id(p): key(p) for p in ps}
                xm = float(t.xmax) if name == "concat" else 0.0
                if name == "concat" and any(kclose((k[0] + xm, k[1]), key(p)) for k in k2.values() for p in model): continue
                if name == "concat": t.concat(t2)
                else: t = t + t2
                for p in ps:
                    if not kclose(key(p), (k2[id(p)][0] + xm, k2[id(p)][1])): out.append(("C06", f"{name}: right point {k2[id(p)]} became {key(p)}"))
                for p in model:
                    if key(p) != k0[id(p)]: out.append(("C06", f"{name} changed a left point"))
                model = model + ps
        except Exception as ex:
            return [(q, f"{name} raised {type(ex).__name__}: {ex}") for q in props]
        out += points_inv(t, model)
    return out
