"""Plain-Python oracles for the properties (independent of the deductive engine)."""
from world import *


def links_list(seq, who):
    """C01 for one entry list that shares one parent (subset list, or a run of a tier)."""
    out = []
    n = len(seq)
    for i, e in enumerate(seq):
        if e.label == "#":
            continue
        p, f = e.prev, e.fol
        if i == 0:
            if p is None or p.label != "#":
                out.append(f"{who}[{i}].prev should be an edge, is {p!r}")
        elif p is not seq[i - 1]:
            out.append(f"{who}[{i}].prev is not {who}[{i-1}] but {p!r}")
        if i == n - 1:
            if f is None or f.label != "#":
                out.append(f"{who}[{i}].fol should be an edge, is {f!r}")
        elif f is not seq[i + 1]:
            out.append(f"{who}[{i}].fol is not {who}[{i+1}] but {f!r}")
    return out


def links_tier(tier, top=True):
    runs, cur = [], []
    for e in tier:
        if cur and getattr(cur[-1], "super_instance", None) is not getattr(e, "super_instance", None):
            runs.append(cur); cur = []
        cur.append(e)
    if cur:
        runs.append(cur)
    out = []
    for r in runs:
        if getattr(r[0], "super_instance", None) is not None or not top:
            continue        # the parent's subset list decides (checked there)
        out += links_list(r, f"{tier.name}-run")
    return out


def tiers_of(g):
    return list(g)


def all_entries(g):
    return [e for t in g for e in t]


def C01(g):
    out = []
    for k, t in enumerate(g):
        out += links_tier(t, k == 0 or not isinstance(t, SequenceTier))
        for e in t:
            if isinstance(e, SequenceInterval):
                out += links_list(list(e.subset_list), f"{t.name}:{e.label}.subset_list")
            if e.intier is not t:
                out.append(f"{t.name}: entry {key(e)} has intier {e.intier!r}")
    return out


def C02(g):
    out = []
    for t in g:
        lists = [(t.name, t.sequence_list)]
        for e in t:
            if isinstance(e, SequenceInterval):
                lists.append((f"{t.name}:{e.label}", e.subset_list))
        for nm, l in lists:
            ks = [key(x)[0] for x in l]
            if any(a > b for a, b in zip(ks, ks[1:])):
                out.append(f"{nm} out of time order: {ks}")
            if len({id(x) for x in l}) != len(l):
                out.append(f"{nm} has the same object twice")
            if type(l._values) is not list:
                out.append(f"{nm}: _values is {type(l._values)}")
    return out


def C03(g):
    out = []
    for t in g:
        if not isinstance(t, SequenceTier):
            continue
        for e in t:
            s = e.super_instance
            if s is not None and sum(x is e for x in s.subset_list) != 1:
                out.append(f"{key(e)} names parent {key(s)} but is not in its list once")
            if s is not None and e.within is not s:
                out.append(f"{key(e)} within is not its parent")
            if s is None and isinstance(e.within, SequenceInterval):
                out.append(f"{key(e)} has no parent but is within {e.within!r}")
            for c in e.subset_list:
                if c.super_instance is not e:
                    out.append(f"child {key(c)} of {key(e)} names parent {c.super_instance!r}")
                if c.within is not e:
                    out.append(f"child {key(c)} of {key(e)} is within {c.within!r}")
                if not isinstance(c, e.subset_class):
                    out.append(f"child class {type(c)} is not {e.subset_class}")
    owners = {}
    for t in g:
        if isinstance(t, SequenceTier):
            for e in t:
                for c in e.subset_list:
                    if id(c) in owners and owners[id(c)] is not e:
                        out.append(f"{key(c)} is in two subset lists")
                    owners[id(c)] = e
    return out


def children_in_tier(g):
    """In a group, the lower tier holds exactly the children of the upper tier."""
    out = []
    ts = tiers_of(g)
    for up, lo in zip(ts, ts[1:]):
        kids = {id(c) for e in up for c in e.subset_list}
        ents = {id(e) for e in lo}
        if kids - ents:
            out.append(f"{len(kids-ents)} children of {up.name} are missing from {lo.name}")
        if ents - kids:
            out.append(f"{len(ents-kids)} entries of {lo.name} have no parent in {up.name}")
    return out


def overlap(a, b):
    return min(a.end, b.end) - max(a.start, b.start)


def tight(t):
    return all(close(a.end, b.start) for a, b in zip(t, t[1:])) if len(t) > 1 else True


def snap(g):
    """id -> key for all entries of a group"""
    return {id(e): (e, key(e)) for t in g for e in t}
