"""Cases checked by one call (or a short script) against a plain-Python oracle."""
import os, tempfile
from world import *
from inv import *
from hist import fuse_checked, within_ok, state, relate_check, group_inv


def F(p, m):
    return [(p, m)]


# ---------------------------------------------------------------- C04: misaligned tiers
def gen_misaligned(rng):
    n, m = rng.randint(1, 4), rng.randint(1, 6)
    up = gen_span(rng, 0, 40, n, 0)
    lo = gen_span(rng, 0, 40, m, rng.choice([0, .4]))
    return {"kind": "misaligned", "unit": rng.choice(UNITS), "up": [[a, b, rng.choice(LABELS)] for a, b in up],
            "lo": [[a, b, rng.choice(LABELS)] for a, b in lo]}


def run_misaligned(case):
    u = case["unit"]
    ov = lambda x, y: min(x[1], y[1]) - max(x[0], y[0])
    exp = []
    for l in case["lo"]:
        o = [ov(l, w) for w in case["up"]]
        if sorted(o)[-1] <= 0 or (len(o) > 1 and sorted(o)[-1] == sorted(o)[-2]):
            return []               # no unique best parent: outside the domain
        exp.append(o.index(max(o)))
    ws = [Word((t_(a, u), t_(b, u), l)) for a, b, l in case["up"]]
    ps = [Phone((t_(a, u), t_(b, u), l)) for a, b, l in case["lo"]]
    try:
        g = TierGroup([SequenceTier(ps), SequenceTier(ws)] if case.get("rev") else [SequenceTier(ws), SequenceTier(ps)])
    except Exception as ex:
        return F("C04", f"relating tiers raised {type(ex).__name__}: {ex}")
    out = []
    for p, i in zip(ps, exp):
        if p.super_instance is not ws[i]:
            out += F("C04", f"{key(p)} should be under upper interval {i}, is under {p.super_instance!r}")
        if not is_in(p, g[1]):
            out += F("C04", f"{key(p)} is lost")
    out += [("C04", m) for m in children_in_tier(g)]
    if not all(is_in(w, g[0]) for w in ws) or len(g[0]) != len(ws):
        out += F("C04", "upper tier changed")
    return out


# ---------------------------------------------------------------- C05
def gen_cleanup(rng):
    k = rng.choice(["interval", "tier", "atg", "atg"])
    c = {"kind": "cleanup", "what": k}
    if k == "interval":
        c["spec"] = gen_group_spec(rng, depth=rng.choice([2, 3]), gap_p=.6, maxn=1)
        c["bare"] = rng.random() < .25
    elif k == "tier":
        c["spec"] = gen_group_spec(rng, depth=1, gap_p=.6, maxn=6)
    else:
        c["spec"] = gen_atg_spec(rng, points=rng.random() < .3)
    return c


def run_cleanup(case):
    try:
        return run_cleanup_(case)
    except Exception as ex:
        import traceback
        return F("C05", f"cleanup of {case['what']} raised {type(ex).__name__}: {ex}")


def run_cleanup_(case):
    out, what, spec = [], case["what"], case["spec"]
    if what == "interval":
        cls = classes(len(spec["levels"]))
        u = spec["unit"]
        a, b, l = spec["levels"][0][0]
        w = cls[0]((t_(a, u), t_(b, u), l))
        if case.get("bare"):
            w.cleanup()
            lev, c = [w], 0
            while c + 1 < len(cls):           # each level down to the lowest one is covered
                nxt = []
                for p in lev:
                    ch = list(p.subset_list)
                    if ch and (not tight(ch) or not close(ch[0].start, p.start) or not close(ch[-1].end, p.end) or any(x.label for x in ch)):
                        out += F("C05", f"cleanup of an interval without children gave {keys(ch)} in {key(p)}")
                    nxt += ch
                lev, c = nxt, c + 1
            if key(w) != (float(t_(a, u)), float(t_(b, u)), l): out += F("C05", "interval.cleanup changed the interval")
            st = keys(w.subset_list)
            w.cleanup()
            if st != keys(w.subset_list): out += F("C05", "second interval.cleanup changed something")
            return out
        kids = [cls[1]((t_(x, u), t_(y, u), z)) for x, y, z in spec["levels"][1] if a <= x and y <= b]
        w.set_subset_list(kids)
        ks = {id(k): key(k) for k in kids}
        kw = key(w)
        w.cleanup()
        ch = list(w.subset_list)
        if key(w) != kw or any(key(k) != ks[id(k)] for k in kids): out += F("C05", "interval.cleanup changed an interval")
        if not all(is_in(k, ch) for k in kids): out += F("C05", "interval.cleanup lost a child")
        if any(c.label != "" for c in ch if not is_in(c, kids)): out += F("C05", "interval.cleanup added a labelled child")
        if not ch or not tight(ch) or not close(ch[0].start, w.start) or not close(ch[-1].end, w.end):
            out += F("C05", f"children {keys(ch)} do not tile {kw}")
        out += [("C05", m) for m in links_list(ch, "children after cleanup")]
        if any(c.super_instance is not w for c in ch): out += F("C05", "child without parent after cleanup")
        w.cleanup()
        if not same_objs(ch, w.subset_list): out += F("C05", "second interval.cleanup changed something")
        if len(spec["levels"]) > 2:
            pass
        return out
    if what == "tier":
        t = build_tiers(spec)[0]
        old, ks = list(t), keys(t)
        t.cleanup()
        if keys(old) != ks or not all(is_in(x, t) for x in old): out += F("C05", "tier.cleanup changed or lost an interval")
        if any(x.label != "" for x in t if not is_in(x, old)): out += F("C05", "tier.cleanup added a labelled interval")
        if not tight(t): out += F("C05", f"tier.cleanup left gaps {keys(t)}")
        if not close(t.xmin, ks[0][0]) or not close(t.xmax, max(k[1] for k in ks)): out += F("C05", "tier.cleanup changed the extent")
        out += [("C05", m) for m in links_list(list(t), "tier after cleanup")]
        now = list(t)
        t.cleanup()
        if not same_objs(now, t): out += F("C05", "second tier.cleanup changed something")
        return out
    a = build_atg(spec)
    old = {id(x): (x, key(x), t) for g in a for t in g for x in t}
    npts = [len(t) for g in a if isinstance(g, PointsGroup) for t in g]
    lo = min(float(g.xmin) for g in a if isinstance(g, TierGroup))
    hi = max(float(g.xmax) for g in a if isinstance(g, TierGroup))
    a.cleanup()
    for x, k, t in old.values():
        if not kclose(key(x), k): out += F("C05", f"textgrid cleanup changed {k} to {key(x)}")
        if not is_in(x, t): out += F("C05", f"textgrid cleanup lost {k}")
    for g in a:
        if isinstance(g, PointsGroup):
            continue
        out += [("C05", m) for m in children_in_tier(g)]
        for t in g:
            if not tight(t): out += F("C05", f"textgrid cleanup left a gap in {t.name}: {keys(t)}")
            if not close(t.xmin, lo) or not close(t.xmax, hi): out += F("C05", f"after cleanup tier spans {t.xmin}-{t.xmax}, textgrid {lo}-{hi}")
            for x in t:
                if id(x) not in old and x.label != "": out += F("C05", f"cleanup added {key(x)}")
        for t in list(g)[:-1]:
            for e in t:
                if len(e) < 1 or not close(e.first.start, e.start) or not close(e.last.end, e.end): out += F("C05", f"children do not cover {key(e)}")
        out += [("C05", m) for p, m in group_inv(g)]
    if npts != [len(t) for g in a if isinstance(g, PointsGroup) for t in g]: out += F("C05", "cleanup changed a point tier")
    now = [[keys(t) for t in g] for g in a]
    a.cleanup()
    if now != [[keys(t) for t in g] for g in a]: out += F("C05", "second textgrid cleanup changed something")
    return out


# ---------------------------------------------------------------- C06
def gen_shift(rng):
    k = rng.choice(["tree", "atg", "tier", "point", "pgroup", "tconcat", "pgconcat"])
    return {"kind": "shift", "what": k, "spec": gen_group_spec(rng, depth=rng.choice([1, 2, 3])), "spec2": gen_group_spec(rng, depth=1),
            "pspec": gen_points_spec(rng, nt=2), "pspec2": gen_points_spec(rng, nt=2), "atg": gen_atg_spec(rng) if k == "atg" else None,
            "inc": rng.choice([0, 1, -1, .5, -.25, 100])}


def tree(e):
    return [e] + [x for c in e.subset_list for x in tree(c)]


def run_shift(case):
    try:
        return run_shift_(case)
    except Exception as ex:
        return F("C06", f"shift/concat of {case['what']} raised {type(ex).__name__}: {ex}")


def run_shift_(case):
    what, inc, out = case["what"], case["inc"], []
    ent, others, rel = [], [], None
    if what == "tree":
        g = build_group(case["spec"])
        e = g[0][0]
        ent = tree(e)
        others = [x for t in g for x in t if not is_in(x, ent)]
        do = lambda: e._shift(inc)
        st = lambda: [r[2:] for r in state(g)]
    elif what == "tier":
        t = build_tiers(case["spec"])[0]
        ent = list(t)
        do = lambda: t._shift(inc)
        st = lambda: [r[2:] for r in state([t])]
    elif what == "point":
        t = build_point_tiers(case["pspec"])[0]
        ent, others = [t[0]], list(t)[1:]
        do = lambda: t[0]._shift(inc)
        st = lambda: [r[2:] for r in state([t])]
    elif what == "pgroup":
        g = build_points(case["pspec"])
        ent = [x for t in g for x in t]
        do = lambda: g.shift(inc)
        st = lambda: [r[2:] for r in state(g)]
    elif what == "atg":
        a = build_atg(case["atg"])
        ent = [x for g in a for t in g for x in t]
        do = lambda: a.shift(inc)
        st = lambda: [r[2:] for g in a for r in state(g)]
    elif what in ("tconcat", "pgconcat"):
        if what == "tconcat":
            a = build_tiers({**case["spec"], "levels": case["spec"]["levels"][:1]}, classes(1))[0]
            b = build_tiers(case["spec2"], [a.entry_class])[0]
            lhs, rhs = list(a), list(b)
        else:
            cl = point_classes(2)
            a, b = build_points(case["pspec"], cl), build_points(case["pspec2"], cl)
            lhs, rhs = [x for t in a for x in t], [x for t in b for x in t]
        xm = float(a.xmax)
        kl, kr = keys(lhs), keys(rhs)
        sh = lambda k: tuple(v + xm for v in k[:-1]) + (k[-1],)
        if any(kclose(sh(k), q) for k in kr for q in kl): return []
        a.concat(b)
        now = list(a) if what == "tconcat" else [x for t in a for x in t]
        if keys(lhs) != kl: out += F("C06", "concat changed the left part")
        if not all(kclose(key(x), sh(k)) for x, k in zip(rhs, kr)): out += F("C06", f"concat: right part {kr} became {keys(rhs)} (left ends at {xm})")
        if sorted(map(id, now)) != sorted(map(id, lhs + rhs)): out += F("C06", "concat lost or doubled an entry")
        return out
    k0, ko, r0 = keys(ent), keys(others), st()
    do()
    for x, k in zip(ent, k0):
        if not kclose(key(x), tuple(v + inc for v in k[:-1]) + (k[-1],)): out += F("C06", f"{what} shifted by {inc}: {k} became {key(x)}")
    if keys(others) != ko: out += F("C06", "shift moved something else")
    if st() != r0: out += F("C06", "shift changed order or relations")
    return out


# ---------------------------------------------------------------- C07 without tiers
def gen_fuse(rng):
    n = rng.randint(1, 5)
    words = gen_span(rng, 0, 30, n, rng.choice([0, .4]))
    return {"kind": "fuse", "unit": rng.choice(UNITS), "words": [[a, b, rng.choice(LABELS)] for a, b in words],
            "kids": [[[x, y, rng.choice(LABELS)] for x, y in gen_span(rng, a, b, rng.randint(1, 3), rng.choice([0, .4]))] if rng.random() < .7 else [] for a, b in words],
            "parent": rng.random() < .6, "tier": rng.random() < .5, "ops": [[rng.randrange(60), rng.random() < .5, rng.randrange(4)] for _ in range(rng.randint(1, 3))]}


def run_fuse(case):
    U, W, P = custom_classes(["U", "W", "P"])
    u = case["unit"]
    ws = []
    for (a, b, l), kk in zip(case["words"], case["kids"]):
        w = W((t_(a, u), t_(b, u), l))
        w.set_subset_list([P((t_(x, u), t_(y, u), z)) for x, y, z in kk])
        ws.append(w)
    out = []
    t = SequenceTier(ws, entry_class=W) if case["tier"] else None
    if case["parent"]:
        top = U((ws[0].start, ws[-1].end, "utt"))
        top.set_subset_list(ws)
    elif not case["tier"]:
        for a, b in zip(ws, ws[1:]): a.set_fol(b)
    live = list(ws)
    for i, right, lf in case["ops"]:
        e = live[i % len(live)]
        n = e.fol if right else e.prev
        edge = n.label == "#"
        rest = [x for x in live if x is not e and x is not n]
        k0 = [(key(x), keys(x.subset_list)) for x in rest]
        try:
            out += [x for x in fuse_checked(e, right, lf) if x[0] == "C07"]
        except Exception as ex:
            return F("C07", f"fusion raised {type(ex).__name__}: {ex}")
        if k0 != [(key(x), keys(x.subset_list)) for x in rest]: out += F("C07", "fusion changed another interval")
        if not edge: live = [x for x in live if x is not n]
        out += [("C07", m) for m in links_list(live, "after fusion")]
        for w in live:
            if any(c.super_instance is not w for c in w.subset_list): out += F("C07", "a child does not name the fused interval as parent")
            ks = [float(c.start) for c in w.subset_list]
            if ks != sorted(ks): out += F("C07", "children of the fused interval are out of order")
            out += [("C07", m) for m in links_list(list(w.subset_list), "children after fusion")]
        if out: return out
    return out


# ---------------------------------------------------------------- C08
def gen_lookup(rng):
    c = {"kind": "lookup", "spec": gen_atg_spec(rng, points=True), "qs": [rng.randint(-4, 60) / 2 for _ in range(6)], "pick": rng.randrange(50)}
    if rng.random() < .4:
        base = rng.choice([0, 1, 17.3, 3600.0])
        pts = [base + rng.randint(0, 6) * .5 for _ in range(rng.randint(1, 4))]
        pts += [x + rng.choice([1e-9, 1e-7, 1e-4, -1e-8]) for x in rng.sample(pts, rng.randint(0, len(pts)))]
        cuts = sorted(set(base + rng.randint(0, 12) * .25 + rng.choice([0, 0, 1e-9, 1e-6]) for _ in range(rng.randint(2, 7))))
        ivs = [[x, y] for x, y in zip(cuts, cuts[1:]) if rng.random() < .8]
        c["loose"] = {"pts": pts, "perm": rng.randrange(1000) if rng.random() < .5 else 0, "ivs": ivs, "qs": [base + rng.uniform(-1, 5) for _ in range(3)] + [base + rng.randint(0, 12) * .25 for _ in range(3)]}
    return c


def loose_lookup(c):
    """tiers on their own: points and boundaries that are very near each other, times set out of order"""
    import random as _r
    out = []
    perm = lambda l: _r.Random(c["perm"]).sample(l, len(l)) if c["perm"] else l
    t = SequencePointTier([SequencePoint((x, f"p{i}")) for i, x in enumerate(c["pts"])])
    t.times = np.array(perm([p.time for p in t]))
    for q in c["qs"] + c["pts"] + [(x + y) / 2 + d for x, y in zip(c["pts"], c["pts"][1:]) for d in (0, 1e-8)]:
        r = t.get_nearest_point_index(q)
        d = [abs(p.time - q) for p in t]
        if not 0 <= r < len(t) or d[r] > min(d): out += F("C08", f"nearest point to {q} in {[p.time for p in t]}: {r}")
        elif t.get_nearest_point(q) is not t[int(r)]: out += F("C08", "get_nearest_point differs from its index")
    ps = list(t)
    for x in ps:
        for y in ps:
            if float(x.distance_from(y)) != float(x.time) - float(y.time): out += F("C08", f"distance from {y.time} to {x.time} is {x.distance_from(y)}")
    for i, p in enumerate(ps):
        for got, o in ((p.fol_distance, ps[i + 1] if i + 1 < len(ps) else None), (p.prev_distance, ps[i - 1] if i else None)):
            if (got is None) != (o is None) or (o is not None and float(got) != float(o.time) - float(p.time)): out += F("C08", f"neighbour distance {got} of {p.time}")
    if c["ivs"]:
        v = SequenceTier([SequenceInterval((x, y, "i")) for x, y in c["ivs"]])
        ns = perm(c["ivs"])
        v.starts = np.array([x for x, _ in ns]); v.ends = np.array([y for _, y in ns])
        for q in c["qs"] + [z for x in c["ivs"] for z in (x[0], x[1], x[0] - 5e-10, x[1] - 5e-10)]:
            hit = [i for i, (x, y) in enumerate(ns) if x <= q < y]
            r = v.get_interval_at_time(q)
            if len(hit) <= 1 and r != (hit[0] if hit else None): out += F("C08", f"get_interval_at_time({q}) = {r!r}, expected {hit} in {ns}")
        for p in ps:
            hit = [i for i, (x, y) in enumerate(ns) if x <= p.time < y]
            if p.get_interval_index_at_time(v) != (hit[0] if hit else None): out += F("C08", f"get_interval_index_at_time for {p.time} in {ns}")
            if p.get_interval_at_point(v) is not (v[hit[0]] if hit else None): out += F("C08", f"get_interval_at_point for {p.time} in {ns}")
            for w in v:
                df = p.distance_from(w)
                if len(df) != 2 or float(df[0]) != float(p.time) - float(w.start) or float(df[1]) != float(p.time) - float(w.end): out += F("C08", f"distance from an interval {df}")
    return out


def run_lookup(case):
    out = []
    try:
        if "loose" in case: out += loose_lookup(case["loose"])
        a = build_atg(case["spec"])
        qs = [q * case["spec"]["groups"][0]["unit"] for q in case["qs"]]
        for g in a:
            for t in g:
                for e in list(t)[:3]: qs += [float(key(e)[0]), float(key(e)[0]) - 1e-3]
                if isinstance(t, SequenceTier): qs += [float(e.end) for e in list(t)[:3]]
        qs += [0, -1.0, 1e6]
        for q in qs:
            exp = []
            for g in a:
                row = []
                for t in g:
                    if isinstance(t, SequenceTier):
                        hit = [i for i, e in enumerate(t) if e.start <= q and e.end > q]
                        r = t.get_interval_at_time(q)
                        if len(hit) <= 1:
                            if r != (hit[0] if hit else None) or (r is not None and type(r) is not int): out += F("C08", f"get_interval_at_time({q}) = {r!r}, expected {hit} in {keys(t)}")
                        row.append(r)
                    else:
                        r = t.get_nearest_point_index(q)
                        d = [abs(float(p.time) - q) for p in t]
                        if not (0 <= r < len(t)) or d[r] > min(d) + 1e-12: out += F("C08", f"nearest point to {q} in {keys(t)}: {r}")
                        if t.get_nearest_point(q) is not t[int(r)]: out += F("C08", "get_nearest_point differs from its index")
                        row.append(r)
                exp.append(row)
                if list(g.get_intervals_at_time(q)) != row: out += F("C08", "group lookup differs from its tiers")
            if [list(x) for x in a.get_intervals_at_time(q)] != exp: out += F("C08", "textgrid lookup differs from its groups")
        for g in a:
            if not isinstance(g, PointsGroup): continue
            for t in g:
                ps = list(t)
                for i, p in enumerate(ps):
                    fd, pd = p.fol_distance, p.prev_distance
                    ef = float(ps[i + 1].time) - float(p.time) if i + 1 < len(ps) else None
                    ep = float(ps[i - 1].time) - float(p.time) if i > 0 else None
                    if (fd is None) != (ef is None) or (fd is not None and not close(fd, ef)): out += F("C08", f"fol_distance {fd}, expected {ef}")
                    if (pd is None) != (ep is None) or (pd is not None and not close(pd, ep)): out += F("C08", f"prev_distance {pd}, expected {ep}")
                    o = ps[case["pick"] % len(ps)]
                    if not close(p.distance_from(o), float(p.time) - float(o.time)): out += F("C08", "distance_from a point")
                    w = a[0][0][case["pick"] % len(a[0][0])]
                    df = p.distance_from(w)
                    if not (close(df[0], p.time - w.start) and close(df[1], p.time - w.end)): out += F("C08", "distance_from an interval")
                    ix = p.get_interval_index_at_time(a[0][0])
                    if ix != a[0][0].get_interval_at_time(p.time): out += F("C08", "get_interval_index_at_time")
                    if ix is not None and p.get_interval_at_point(a[0][0]) is not a[0][0][ix]: out += F("C08", "get_interval_at_point")
    except Exception as ex:
        return F("C08", f"lookup raised {type(ex).__name__}: {ex}")
    return out


# ---------------------------------------------------------------- C09
def gen_export(rng):
    return {"kind": "export", "spec": gen_atg_spec(rng), "file": rng.random() < .1}


def run_export(case):
    out = []
    try:
        a = build_atg(case["spec"])
        nm = iter(case["spec"]["names"] * 3)
        for g in a:
            for t in g: t.name = next(nm)
        tiers = [t for g in a for t in g]
        for t in tiers:
            ex = keys(t)
            for given in (None, "zz"):
                r = t.return_tier(given) if given else t.return_tier()
                if r.name != (given or t.name): out += F("C09", f"exported tier is called {r.name!r}")
                got = [(float(e[0]), e[1]) if isinstance(t, SequencePointTier) else (float(e[0]), float(e[1]), e[2]) for e in r.entries]
                ex = [k[:-1] + (k[-1].strip(),) for k in ex]         # praatio strips labels
                if got != ex: out += F("C09", f"exported entries {got}, expected {ex}")
        tg = a.return_textgrid()
        names = list(tg.tierNames)
        if len(names) != len(tiers): return out + F("C09", f"{len(names)} tiers exported, expected {len(tiers)}")
        if len(set(names)) != len(names): out += F("C09", f"exported names are not unique: {names}")
        for i, (t, n) in enumerate(zip(tiers, names)):
            if t.name not in names[:i] and n != t.name: out += F("C09", f"tier {t.name} exported as {n} (before it: {names[:i]})")
            r = tg.getTier(n)
            got = [(float(e[0]), e[1]) if isinstance(t, SequencePointTier) else (float(e[0]), float(e[1]), e[2]) for e in r.entries]
            ex = [k[:-1] + (k[-1].strip(),) for k in keys(t)]
            if got != ex: out += F("C09", f"tier {n} exported as {got}, expected {ex}")
        if case["file"]:
            from praatio.textgrid import openTextgrid
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, "x.TextGrid")
                a.save_textgrid(f)
                back = openTextgrid(f, includeEmptyIntervals=True)
                if list(back.tierNames) != names: out += F("C09", "saved file has other tiers")
                for t, n in zip(tiers, names):
                    exp = [k[:-1] + (k[-1].strip(),) for k in keys(t) if k[-1].strip() != ""]
                    got = [tuple(map(float, e[:-1])) + (e[-1],) for e in back.getTier(n).entries if e[-1] != ""]
                    if len(exp) != len(got) or not all(kclose(x, y) for x, y in zip(got, exp)): out += F("C09", f"saved file: {got}, expected {exp}")
                f2 = os.path.join(d, "y.TextGrid")
                tiers[0].save_as_tg(f2)
                if not os.path.exists(f2): out += F("C09", "save_as_tg wrote nothing")
    except Exception as ex:
        return out + F("C09", f"export raised {type(ex).__name__}: {ex}")
    return out


# ---------------------------------------------------------------- C10
def gen_classes(rng):
    return {"kind": "classes", "dup": rng.random() < .4, "n": rng.randint(2, 4), "depth": rng.randint(1, 4), "up": [rng.randrange(4), rng.randrange(4)],
            "ops": [[rng.choice(["sup", "sub", "selfsup", "selfsub", "bad"]), rng.randrange(60), rng.randrange(60)] for _ in range(rng.randint(1, 5))]}


def run_classes(case):
    out = []
    try:
        cs = [custom_classes([f"K{i % 2 if case.get('dup') else i}"])[0] for i in range(case["n"])]
        for op, a, b in case["ops"]:
            c, d = cs[a % len(cs)], cs[b % len(cs)]
            before = {id(x): (x.superset_class, x.subset_class) for x in cs}
            g0 = (SequenceInterval.superset_class, SequenceInterval.subset_class, Word.subset_class, Phone.superset_class)
            if op in ("sup", "sub"):
                if c is d: continue
                (c.set_superset_class if op == "sup" else c.set_subset_class)(d)
                hi, lo = (d, c) if op == "sup" else (c, d)
                if lo.superset_class is not hi or hi.subset_class is not lo: out += F("C10", f"after {op} the two classes do not name each other")
                if before[id(hi)][0] is not hi.superset_class or before[id(lo)][1] is not lo.subset_class: out += F("C10", f"{op} changed the other link of a class")
                for x in cs:
                    if x is not hi and x is not lo and before[id(x)] != (x.superset_class, x.subset_class): out += F("C10", f"{op} changed a third class")
            else:
                try:
                    if op == "selfsup": c.set_superset_class(c)
                    elif op == "selfsub": c.set_subset_class(c)
                    elif a % 2: c.set_superset_class(SequencePoint)
                    else: c.set_subset_class(int)
                    out += F("C10", f"{op} was not refused") + F("C14", f"{op} was not refused")
                except Exception:
                    pass
                if {id(x): (x.superset_class, x.subset_class) for x in cs} != before: out += F("C10", f"refused {op} changed a class") + F("C14", f"refused {op} changed a class")
            if g0 != (SequenceInterval.superset_class, SequenceInterval.subset_class, Word.subset_class, Phone.superset_class): out += F("C10", "a library class changed")
            if out: return out
        h = custom_classes(["A", "B", "C", "D"][:case["depth"]])
        links = lambda l: [(x.superset_class, x.subset_class) for x in l]
        l0 = links(h)
        k = clone_class(h[0])
        ch = get_class_hierarchy(k, [])
        if [x.__name__ for x in ch] != [x.__name__ for x in h]: out += F("C10", f"clone has classes {ch}")
        if links(h) != l0: out += F("C10", "cloning changed the original classes")
        if any(x in h for x in ch): out += F("C10", "a cloned hierarchy contains an original class")
        if get_class_hierarchy(h[-1], []) != h: out += F("C10", f"get_class_hierarchy from below gives {get_class_hierarchy(h[-1], [])}")
        for x, y in zip(ch, ch[1:]):
            if x.subset_class is not y or y.superset_class is not x: out += F("C10", "cloned classes are not linked to each other")
        if not issubclass(ch[0].superset_class, Top) or not issubclass(ch[-1].subset_class, Bottom): out += F("C10", "clone has no top or bottom")
        if ch[0].superset_class is h[0].superset_class or ch[-1].subset_class is h[-1].subset_class: out += F("C10", "clone shares its top or bottom with the original")
        k2 = get_class_hierarchy(clone_class(k), [])
        if any(x in h or x in ch for x in k2) or [x.__name__ for x in k2] != [x.__name__ for x in ch]: out += F("C10", f"clone of a clone has classes {k2}")
        ch[0].set_superset_class(custom_classes(["Z"])[0])
        ch[-1].set_subset_class(custom_classes(["Y"])[0])
        if links(h) != l0: out += F("C10", "changing a clone changed the original")
        P = custom_classes(["Q"], points=[0])[0]
        Q = clone_class(P)
        if clone_class(Q) is Q or clone_class(Q).__name__ != "Q": out += F("C10", "clone of a cloned point class")
        if clone_class(P).__name__ != "Q" or not issubclass(clone_class(P), SequencePoint) or clone_class(P) is P: out += F("C10", "clone of a point class")
        if case["depth"] > 1:
            try:
                clone_class(h[1]); out += F("C10", "cloning from the middle was not refused")
            except Exception:
                pass
        # textgrids do not share classes
        spec = {"groups": [gen_group_spec(random.Random(case["up"][0]), depth=2)], "points": [], "names": []}
        a1, a2 = build_atg(spec), build_atg(spec)
        c1, c2 = [c for g in a1.entry_classes for c in g], [c for g in a2.entry_classes for c in g]
        if any(c in c2 for c in c1) or any(c in (Word, Phone) for c in c1): out += F("C10", "two textgrids share a class")
        before = (Word.subset_class, Phone.superset_class, c2[0].subset_class, c2[1].superset_class)
        a1.interleave_class("Mid", above=c1[1], timing_from="below")
        if before != (Word.subset_class, Phone.superset_class, c2[0].subset_class, c2[1].superset_class): out += F("C10", "interleaving in one textgrid changed another")
    except Exception as ex:
        return out + F("C10", f"class operation raised {type(ex).__name__}: {ex}")
    return out


# ---------------------------------------------------------------- C11
def gen_paths(rng):
    return {"kind": "paths", "spec": gen_atg_spec(rng, complete=True), "ops": [[rng.choice(["pop", "fuse", "append", "shift", "none", "gappend"]), rng.randrange(60), rng.randrange(60)] for _ in range(rng.randint(0, 3))],
            "extra": gen_group_spec(rng, depth=2, gap_p=0, miss_p=0)}


def run_paths(case):
    out = []
    try:
        a = build_atg(case["spec"])
        for op, i, j in case["ops"]:
            g = a[i % len(a)]
            t = g[len(g) - 1]
            e = t[j % len(t)]
            if op == "pop" and isinstance(t, SequenceTier) and e.super_instance is not None and len(e.super_instance) > 1: t.pop(e)
            elif op == "fuse" and isinstance(t, SequenceTier) and e.fol.label != "#": e.fuse_rightwards()
            elif op == "append" and isinstance(t, SequencePointTier): t.append(t.entry_class((1000.0 + j, "n")))
            elif op == "append" and isinstance(g, TierGroup): g[0].append(g[0].entry_class((float(g.xmax), float(g.xmax) + 2, "n")))
            elif op == "shift": a.shift(1)
            elif op == "gappend": a.append(build_group(case["extra"], classes(len(case["extra"]["levels"]))))
        ids = {}
        for gi, g in enumerate(a):
            objs = [(g, [gi])]
            for ti, t in enumerate(g):
                objs.append((t, [gi, ti]))
                for e in t:
                    objs.append((e, None))
            out += [("C11", m) for m in within_ok(g)]
            if g.within is not a: out += F("C11", "group is not within its textgrid")
            for o, exp in objs:
                p = o.within_path
                if exp is not None and p != exp: out += F("C11", f"path {p}, expected {exp}")
                cur = a
                for ix in p:
                    if not (0 <= ix < len(cur.contains)):
                        out += F("C11", f"path {p} leads nowhere"); break
                    cur = cur.contains[ix]
                else:
                    if cur is not o: out += F("C11", f"path {p} of {o!r} leads to {cur!r}")
                if o.id != "-".join(str(x) for x in p): out += F("C11", f"id {o.id} of path {p}")
                if o.id in ids and ids[o.id] is not o: out += F("C11", f"id {o.id} is shared")
                ids[o.id] = o
                if o.within is not None and o.within_index != [k for k, y in enumerate(o.within.contains) if y is o][0]: out += F("C11", "within_index is not the position")
    except Exception as ex:
        return out + F("C11", f"path/id raised {type(ex).__name__}: {ex}")
    return out


# ---------------------------------------------------------------- C12
def gen_interleave(rng):
    return {"kind": "interleave", "spec": gen_atg_spec(rng, complete=True, points=False, depth=rng.choice([1, 2, 2, 3])), "at": rng.randrange(4),
            "dir": rng.choice(["above", "below"]), "timing": rng.choice(["above", "below"]), "labels": rng.random() < .5, "byname": rng.random() < .5,
            "other": gen_group_spec(rng, depth=rng.choice([1, 2]), gap_p=0, miss_p=0, off=0) if rng.random() < .4 else None,
            "opts": gen_points_spec(rng) if rng.random() < .3 else None, "place": rng.randrange(4), "odd": rng.random() < .2}


def build_mixed(case):
    """the textgrid of the case, with a group of other classes and a group of points put among its groups"""
    if not case.get("other") and not case.get("opts"): return build_atg(case["spec"]), False
    cls = classes(len(case["spec"]["groups"][0]["levels"]))
    gs = [build_group(g, cls) for g in case["spec"]["groups"]]
    if case.get("other"):
        d = len(case["other"]["levels"])
        gs.insert(case["place"] % (len(gs) + 1), build_group(case["other"], custom_classes(["Turn", "Part"][:d]) if d > 1 else custom_classes(["Turn"])))
    if case.get("opts"): gs.insert(case["place"] // 2 % (len(gs) + 1), build_points(case["opts"]))
    return AlignedTextGrid(gs), True


def interleave_mixed(a, case):
    """groups with and without the named class: the first are changed as asked, the others not at all"""
    out = []
    lead = classes(len(case["spec"]["groups"][0]["levels"]))[0].__name__
    def has(g): return lead in [c.__name__ for c in g.entry_classes]
    ec = [g for g in a if has(g)][0].entry_classes
    n, at = len(ec), case["at"] % len(ec)
    pos = at if case["dir"] == "above" else at + 1
    src = pos if case["timing"] == "below" else pos - 1
    if not 0 <= src < n: return []
    cn = [c.__name__ for c in ec]
    def shot(g): return [(t.entry_class.__name__, keys(t), [id(x) for x in t]) for t in g]
    before, hasit, names = [shot(g) for g in a], [has(g) for g in a], [g.name for g in a]
    def same(what, exp):
        if len(a) != len(before): return F("C12", f"{what} changed the number of groups from {len(before)} to {len(a)}")
        for g, b, h, nm in zip(a, before, hasit, names):
            now = shot(g)
            if g.within is not a: out.extend(F("C12", f"after {what} a group is not within the textgrid"))
            if not h:
                if now != b: out.extend(F("C12", f"{what} changed a group without the class"))
            else:
                if g.name != nm: out.extend(F("C12", f"{what} changed a group's name"))
                if [x[0] for x in now] != exp: out.extend(F("C12", f"{what}: tiers {[x[0] for x in now]}, expected {exp}"))
                if [x for x in now if x[0] != "NEW"] != [x for x in b if x[0] in exp]: out.extend(F("C12", f"{what} changed another tier"))
        return out
    a.interleave_class("NEW", **{case["dir"]: ec[at].__name__}, timing_from=case["timing"], copy_labels=case["labels"])
    if same("interleaving", cn[:pos] + ["NEW"] + cn[pos:]): return out
    for g, b, h in zip(a, before, hasit):
        if h and keys(g[pos]) != [(x, y, l if case["labels"] else "") for x, y, l in b[src][1]]: out += F("C12", "the new tier differs from the one it copies")
    if case["odd"] and n > 1:                # take an original class instead of the new one
        vic = cn[at]
        a.pop_class(vic)
        same("popping a class", [c for c in cn[:pos] + ["NEW"] + cn[pos:] if c != vic])
        return out
    a.pop_class("NEW")
    same("popping the new class", cn)
    return out


def run_interleave(case):
    out = []
    try:
        a, extra = build_mixed(case)
        if extra: return interleave_mixed(a, case)
        ec = a[0].entry_classes
        n = len(ec)
        at = case["at"] % n
        # place of the new class: above ec[at] or below ec[at]; timing source has to exist
        pos = at if case["dir"] == "above" else at + 1
        src = pos if case["timing"] == "below" else pos - 1
        if not 0 <= src < n: return []
        before = [[(t.name, keys(t), [id(x) for x in t]) for t in g] for g in a]
        gnames = [g.name for g in a]
        cn = [c.__name__ for c in ec]
        target = ec[at].__name__ if case["byname"] else ec[at]
        a.interleave_class("NEW", **{case["dir"]: target}, timing_from=case["timing"], copy_labels=case["labels"])
        for g, b, gn in zip(a, before, gnames):
            names = [t.entry_class.__name__ for t in g]
            if names != cn[:pos] + ["NEW"] + cn[pos:]:
                return F("C12", f"classes after interleaving: {names}, expected NEW at {pos} of {cn}")
            for k, t in enumerate([t for t in g if t.entry_class.__name__ != "NEW"]):
                if keys(t) != b[k][1] or [id(x) for x in t] != b[k][2]: out += F("C12", f"interleaving changed tier {b[k][0]}: {b[k][1]} -> {keys(t)}")
            new = g[pos]
            exp = [(x, y, l if case["labels"] else "") for x, y, l in b[src][1]]
            if keys(new) != exp: out += F("C12", f"new tier is {keys(new)}, expected {exp}")
            cl = g.entry_classes
            for x, y in zip(cl, cl[1:]):
                if x.subset_class is not y or y.superset_class is not x: out += F("C12", "classes are not linked through the new one")
            for x, t in zip(cl, g):
                if t.superset_class is not x.superset_class or t.subset_class is not x.subset_class: out += F("C12", "a tier's superset/subset class is stale")
            out += [("C12", m) for m in children_in_tier(g)] + [("C12", m) for p, m in group_inv(g)]
            if g.within is not a or g.name != gn: out += F("C12", "group lost its name or textgrid")
        if out: return out
        a.pop_class("NEW")
        for g, b in zip(a, before):
            if [t.entry_class.__name__ for t in g] != cn: return F("C12", f"after popping: {[t.entry_class.__name__ for t in g]}")
            for t, (nm, ks, ids) in zip(g, b):
                if keys(t) != ks or [id(x) for x in t] != ids: out += F("C12", f"interleave+pop changed tier {nm}")
            cl = g.entry_classes
            for x, y in zip(cl, cl[1:]):
                if x.subset_class is not y or y.superset_class is not x: out += F("C12", "classes not relinked after popping")
            out += [("C12", m) for m in children_in_tier(g)] + [("C12", m) for p, m in group_inv(g)]
        if out or n < 2: return out
        # pop an original class
        vic = cn[case["at"] % n]
        rest = [[(keys(t), [id(x) for x in t]) for t in g if t.entry_class.__name__ != vic] for g in a]
        a.pop_class(vic)
        if len(a) != len(rest): return F("C12", "popping a class removed a group")
        for g, r in zip(a, rest):
            if [t.entry_class.__name__ for t in g] != [c for c in cn if c != vic]: return F("C12", "wrong tiers after popping")
            if [(keys(t), [id(x) for x in t]) for t in g] != r: out += F("C12", "popping a class changed another tier")
            cl = g.entry_classes
            for x, y in zip(cl, cl[1:]):
                if x.subset_class is not y or y.superset_class is not x: out += F("C12", "classes not relinked after popping")
            out += [("C12", m) for m in children_in_tier(g)] + [("C12", m) for p, m in group_inv(g)]
    except Exception as ex:
        return out + F("C12", f"interleave/pop raised {type(ex).__name__}: {ex}")
    return out


# ---------------------------------------------------------------- C14
def gen_refuse(rng):
    return {"kind": "refuse", "spec": gen_group_spec(rng, depth=rng.choice([2, 2, 3])), "pspec": gen_points_spec(rng, nt=1),
            "spec2": gen_group_spec(rng, depth=2), "op": rng.choice(REFUSE), "a": rng.randrange(60), "b": rng.randrange(60)}


REFUSE = ["setsuper", "setsub", "setsubmixed", "append_sub", "append", "setfol", "setprev", "selffol", "selfprev", "tappend", "tappend2", "tadd", "taddpt", "tconcat", "gadd", "gconcat",
          "gaddn", "listmixed", "listappend", "listadd", "starts", "ends", "times", "fuser", "fusel", "tpop", "gappend", "gappend2", "interleave", "badinterval", "badpoint", "subset=", "samesuper", "listconcat", "tappend3"]


def full(objs):
    """Every observable field of a set of objects, by identity."""
    out = []
    for o in objs:
        if isinstance(o, (SequenceInterval, SequencePoint)):
            row = [type(o), key(o), id(o.fol), id(o.prev), id(o.intier), id(o.within)]
            if isinstance(o, SequenceInterval): row += [id(o.super_instance), [id(c) for c in o.subset_list], [id(c) for c in o.contains]]
            out.append(row)
        elif isinstance(o, SequenceList):
            out.append([o.entry_class, [id(x) for x in o]])
        elif isinstance(o, type):
            out.append([o, o.superset_class, o.subset_class])
        else:
            out.append([type(o), id(o.within), [id(x) for x in o], [id(x) for x in o.contains], getattr(o, "name", None), getattr(o, "entry_class", None)])
    return out


def run_refuse(case):
    g = build_group(case["spec"])
    pt = build_point_tiers(case["pspec"])[0]
    g2 = build_group(case["spec2"], custom_classes(["Q1", "Q2"]))
    g1 = build_group({**case["spec"], "levels": case["spec"]["levels"][:1]}, custom_classes(["Q3"]))
    op, a, b = case["op"], case["a"], case["b"]
    top, low = g[0], g[1]
    w, p = top[a % len(top)], low[b % len(low)]
    other = g2[0][a % len(g2[0])]
    pnt = pt[b % len(pt)]
    L = SequenceList(*list(low))
    C, D = top.entry_class, low.entry_class
    newD = D((500.0, 501.0, "new"))
    edge_r = [x for t in g for x in t if x.fol.label == "#"]
    edge_l = [x for t in g for x in t if x.prev.label == "#"]
    er, el = edge_r[a % len(edge_r)], edge_l[b % len(edge_l)]
    loose = C((600.0, 601.0, "loose"))
    objs = [g, g2, g1, pt, L, loose, newD] + [t for q in (g, g2, g1) for t in q] + [x for q in (g, g2, g1) for t in q for x in t] + list(pt)
    objs += [C, D, other.entry_class]
    call = {
        "setsuper": lambda: p.set_super_instance(other), "samesuper": lambda: p.set_super_instance(p), "setsub": lambda: w.set_subset_list([other]),
        "setsubmixed": lambda: w.set_subset_list([newD, other]), "subset=": lambda: setattr(w, "subset_list", [other]),
        "append_sub": lambda: w.append_subset_list(other), "append": lambda: w.append(other), "setfol": lambda: p.set_fol(w), "setprev": lambda: w.set_prev(other),
        "selffol": lambda: p.set_fol(p), "selfprev": lambda: w.set_prev(w), "tappend": lambda: top.append(p if len(g) else other), "tappend2": lambda: low.append((1, 2, "x")), "tappend3": lambda: pt.append(w),
        "tadd": lambda: top + g2[0], "taddpt": lambda: pt + top, "tconcat": lambda: top.concat(low), "gadd": lambda: g + g2 if len(g) == 2 else g + g1,
        "gconcat": lambda: g.concat(g2 if len(g) == 2 else g1), "gaddn": lambda: g + g1, "listmixed": lambda: SequenceList(w, p), "listappend": lambda: L.append(w),
        "listadd": lambda: L + [w], "listconcat": lambda: L.concat([w, p]), "starts": lambda: setattr(low, "starts", [0.0] * (len(low) + 1)), "ends": lambda: setattr(top, "ends", [1.0] * (len(top) + 2)),
        "times": lambda: setattr(pt, "times", [1.0] * (len(pt) + 1)), "fuser": lambda: er.fuse_rightwards(), "fusel": lambda: el.fuse_leftwards(), "tpop": lambda: low.pop(newD),
        "gappend": lambda: g.append(SequenceTier([other.entry_class((0, 1, "z"))])), "gappend2": lambda: g.append(pt),
        "interleave": lambda: AlignedTextGrid([build_group(case["spec2"])]).interleave_class("N", above="Word", below="Word"),
        "badinterval": lambda: SequenceInterval((1, 2, 3, 4)), "badpoint": lambda: SequencePoint((1, 2, 3)),
    }[op]
    if op in ("listappend", "listadd", "tappend") and key(w) in keys(low) + keys(top): w = None
    if w is None: return []
    s0 = full(objs)
    try:
        call()
    except Exception:
        if full(objs) != s0:
            d = [(x, y) for x, y in zip(s0, full(objs)) if x != y][:2]
            return F("C14", f"refused {op} changed something: {d}")
        return []
    return F("C14", f"{op} was not refused")


# ---------------------------------------------------------------- C15
def gen_validate(rng):
    spec = gen_group_spec(rng, depth=2, gap_p=rng.choice([0, 0, .5]), maxn=1)
    kids = spec["levels"][1]
    if kids and rng.random() < .5:
        k = rng.choice(kids)
        k[rng.randrange(2)] += rng.choice([-1, 1])
        if k[1] <= k[0]: k[1] = k[0] + 1
    return {"kind": "validate", "unit": spec["unit"], "w": spec["levels"][0][0], "kids": kids if rng.random() < .9 else [], "eps": rng.choice([0, 0, 1e-10, 1e-3])}


def run_validate(case):
    u = case["unit"]
    a, b, l = case["w"]
    w = Word((t_(a, u), t_(b, u), l))
    ks = [Phone((t_(x, u) + (case["eps"] if i == 0 else 0), t_(y, u), z)) for i, (x, y, z) in enumerate(case["kids"])]
    try:
        w.set_subset_list(ks)
        l = list(w.subset_list)
        s0 = full([w] + l)
        r = w.validate()
    except Exception as ex:
        return F("C15", f"validate raised {type(ex).__name__}: {ex}")
    exp = not l or (close(w.start, l[0].start) and close(w.end, l[-1].end) and all(close(y.start, x.end) for x, y in zip(l, l[1:])))
    out = []
    if bool(r) != exp: out += F("C15", f"validate() = {r} for {key(w)} with children {keys(l)}, expected {exp}")
    if full([w] + l) != s0: out += F("C15", "validate changed something")
    return out


# ---------------------------------------------------------------- C16
def gen_extent(rng):
    c = {"kind": "extent", "spec": gen_atg_spec(rng), "over": []}
    if rng.random() < .5:
        c["over"] = [[a := rng.randint(0, 9), a + rng.randint(1, 20), rng.choice(LABELS)] for _ in range(rng.randint(1, 5))]
    c["empty"] = rng.random() < .2
    return c


def run_extent(case):
    out = []
    try:
        def chk(o, es, who):
            lo = min([key(e)[0] for e in es], default=None)
            hi = max([key(e)[-2] for e in es], default=None)
            if (o.xmin is None) != (lo is None) or (lo is not None and float(o.xmin) != lo): out.append(("C16", f"{who}.xmin {o.xmin}, expected {lo}"))
            if (o.xmax is None) != (hi is None) or (hi is not None and float(o.xmax) != hi): out.append(("C16", f"{who}.xmax {o.xmax}, expected {hi}"))
        a = build_atg(case["spec"])
        for g in a:
            for t in g: chk(t, list(t), "tier")
            chk(g, [e for t in g for e in t], "group")
        chk(a, [e for g in a for t in g for e in t], "textgrid")
        if case["over"]:
            t = SequenceTier([SequenceInterval(tuple(x)) for x in case["over"]])
            chk(t, list(t), "tier of overlapping intervals")
            k = len(case["over"]) // 2
            turn = lambda l: list(l[k:]) + list(l[:k])
            t.starts, t.ends = np.array(turn(t.starts)), np.array(turn(t.ends))
            chk(t, list(t), "tier with times set out of order")
            p = SequencePointTier([SequencePoint((x[0], "p")) for x in case["over"]])
            q = SequencePointTier([SequencePoint((x[1], "p")) for x in case["over"]])
            p.times, q.times = np.array(turn(p.times)), np.array(turn(q.times)[::-1])
            chk(p, list(p), "point tier with times set out of order"); chk(q, list(q), "point tier with times set out of order")
            chk(PointsGroup([p, q]), list(p) + list(q), "points group with times set out of order")
            chk(PointsGroup([q, p]), list(p) + list(q), "points group with times set out of order")
        if case["empty"]:
            g = TierGroup([SequenceTier([Word((1, 2, "a"))]), SequenceTier([], entry_class=Phone)])
            chk(g, [e for t in g for e in t], "group with empty tier")
            e = SequenceTier([], entry_class=Word)
            chk(e, [], "empty tier")
            chk(SequencePointTier([]), [], "empty point tier")
    except Exception as ex:
        return out + F("C16", f"extent raised {type(ex).__name__}: {ex}")
    return out


# ---------------------------------------------------------------- C17
def gen_custom(rng):
    n = rng.randint(1, 5)
    names = rng.sample(["A", "B", "C", "D", "E", "F"], n)
    pts = sorted(rng.sample(range(n), rng.randint(0, n)))
    how = rng.choice(["none", "names", "idx"])
    order = rng.sample(range(n), rng.randint(1, n))
    return {"kind": "custom", "names": names, "points": pts, "how": how, "order": order}


def run_custom(case):
    names, pts = case["names"], case["points"]
    out = []
    g0 = [(c.superset_class, c.subset_class) for c in (SequenceInterval, Word, Phone, Top, Bottom)]
    try:
        ro = None if case["how"] == "none" else [names[i] for i in case["order"]] if case["how"] == "names" else case["order"]
        r = custom_classes(list(names), return_order=ro, points=list(pts))
        order = list(range(len(names))) if ro is None else case["order"]
        if [c.__name__ for c in r] != [names[i] for i in order]: out += F("C17", f"returned {[c.__name__ for c in r]}, expected {[names[i] for i in order]}")
        for c, i in zip(r, order):
            if issubclass(c, SequencePoint) != (i in pts) or issubclass(c, SequenceInterval) == (i in pts): out += F("C17", f"kind of {c.__name__}")
        iv = [(i, c) for i, c in sorted(zip(order, r), key=lambda z: z[0]) if i not in pts]
        all_iv = [i for i in range(len(names)) if i not in pts]
        if iv:
            chain, c = [], iv[0][1]
            while not issubclass(c.superset_class, Top): c = c.superset_class
            top = c.superset_class
            while not issubclass(c, Bottom):
                chain.append(c)
                if not c.subset_class.superset_class is c: out += F("C17", "links are not mutual"); break
                c = c.subset_class
            if [x.__name__ for x in chain] != [names[i] for i in all_iv]: out += F("C17", f"hierarchy is {[x.__name__ for x in chain]}, expected {[names[i] for i in all_iv]}")
            if top is Top or c is Bottom: out += F("C17", "top or bottom is shared")
            for i, k in iv:
                if all_iv.index(i) < len(chain) and chain[all_iv.index(i)] is not k: out += F("C17", "returned class is not the one in the hierarchy")
        if g0 != [(c.superset_class, c.subset_class) for c in (SequenceInterval, Word, Phone, Top, Bottom)]: out += F("C17", "an existing class changed")
        r2 = custom_classes(list(names), return_order=ro, points=list(pts))
        if any(x is y for x in r for y in r2): out += F("C17", "a class was reused")
        if iv and any(x.superset_class is y.superset_class for x in r for y in r2 if not issubclass(x, SequencePoint) and not issubclass(y, SequencePoint)): out += F("C17", "two hierarchies share a class")
    except Exception as ex:
        return out + F("C17", f"custom_classes raised {type(ex).__name__}: {ex}")
    return out


# ---------------------------------------------------------------- C18
def gen_polar(rng):
    """levels exactly at, very near, or away from turning points; ranges that need not reach every level"""
    n = rng.randint(1, 5)
    ts = rng.sample(range(1, 30), n)
    lv = [rng.choice(ts) + rng.choice([0, 0, 0, .0004, -.0004, .004, -.03, .3]) if rng.random() < .6 else rng.randint(1, 30) for _ in range(rng.randint(1, 5))]
    lv = list(dict.fromkeys(lv))
    if rng.random() < .3: ts += [t + rng.choice([.0004, .004, .03]) for t in rng.sample(ts, 1)]
    lo, hi = (0, 31) if rng.random() < .6 else sorted(rng.sample(range(0, 32), 2))
    return {"kind": "polar", "tp": ts, "lv": lv, "lab": [rng.choice(["1", "2", "3", "4", "5", "2?"]) for _ in lv], "ranges": [[a, b, "50-150"] for a, b in gen_span(rng, lo, hi, rng.randint(1, 3), 0)], "unit": rng.choice(UNITS)}


def run_polar(case):
    from aligned_textgrid.polar.polar_classes import TurningPoints, Levels, Ranges
    from aligned_textgrid.polar.polar_grid import PolarGrid
    from praatio.data_classes.interval_tier import IntervalTier
    from praatio.data_classes.point_tier import PointTier
    from praatio.data_classes.textgrid import Textgrid
    from praatio.utilities.constants import Interval, Point
    import io, contextlib
    u = case["unit"]
    out = []
    try:
        tg = Textgrid()
        tg.addTier(PointTier("TurningPoints", [Point(t_(t, u), "0") for t in case["tp"]], 0, t_(31, u)))
        tg.addTier(PointTier("Levels", [Point(t_(t, u), l) for t, l in zip(case["lv"], case["lab"])], 0, t_(31, u)))
        tg.addTier(IntervalTier("Ranges", [Interval(t_(a, u), t_(b, u), l) for a, b, l in case["ranges"]], 0, t_(31, u)))
        with contextlib.redirect_stdout(io.StringIO()):
            pg = PolarGrid(textgrid=tg, entry_classes=[[TurningPoints, Levels], [Ranges]])
        tps, lvs, rgs = list(pg.TurningPoints), list(pg.Levels), list(pg.Ranges)
        for l in lvs:
            p = min(tps, key=lambda t: abs(t.time - l.time))
            if any(close(t.time, l.time) for t in tps):
                alone = sum(abs(t.time - l.time) == abs(p.time - l.time) for t in tps) == 1 and all(x is l or abs(x.time - p.time) > abs(l.time - p.time) for x in lvs)
                if alone and close(p.time, l.time) and (l.turning_point is not p or p.level is not l): out += F("C18", f"level at {l.time} and turning point at {p.time} are not linked to each other")
            elif l.turning_point is not None: out += F("C18", f"level at {l.time} names a turning point at {l.turning_point.time}")
            r = [x for x in rgs if x.start <= l.time < x.end]
            if l.range_interval is not (r[0] if r else None): out += F("C18", f"level at {l.time} has range {l.range_interval!r}")
        for t in tps:
            if not any(close(t.time, l.time) for l in lvs) and t.level is not None: out += F("C18", "turning point without level at its time names one")
        for l in lvs:
            if l.ranges_tier is not pg.Ranges: out += F("C18", "ranges tier not set")
            if l.range_interval is None or l.range_interval.label == "": continue
            b = l.range_interval.bands
            want = np.linspace(50, 150, 6)[l.level - 1:l.level + 1]
            if not np.allclose(l.band, want): out += F("C18", f"band {l.band} of level {l.level}")
    except Exception as ex:
        return out + F("C18", f"PolarGrid raised {type(ex).__name__}: {ex}")
    return out
