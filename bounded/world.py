"""Random worlds of aligned_textgrid objects.

Everything is driven by small JSON-able specs, so that every failing case can be
written to a replay file and run again against the real code.
"""
import random, warnings
warnings.simplefilter("ignore")
import numpy as np
from aligned_textgrid import (SequenceInterval, SequencePoint, SequenceTier, SequencePointTier,
                              Word, Phone, AlignedTextGrid, custom_classes, Top, Bottom)
from aligned_textgrid.sequences.tiers import TierGroup
from aligned_textgrid.points.tiers import PointsGroup
from aligned_textgrid.sequence_list import SequenceList
from aligned_textgrid.custom_classes import clone_class, get_class_hierarchy

LABELS = ["a", "b", "c", "", "DH", "AH0", "x y", "sp", " "]
OFFS = [0, 0, 0, 0, 5, 3]
UNITS = [1, 0.25, 0.1, 0.5, 0.001]


def classes(depth):
    if depth == 2:
        return [Word, Phone]
    return custom_classes(["Utt", "Wd", "Syl", "Seg"][:depth]) if depth > 1 else custom_classes(["Wd"])


# ---------------------------------------------------------------- specs
def gen_span(rng, lo, hi, n, gap_p):
    """n non-overlapping spans of positive length in [lo, hi] (in units)."""
    n = max(1, min(n, hi - lo))
    cuts = sorted(rng.sample(range(lo + 1, hi), n - 1)) if n > 1 else []
    edges = [lo] + cuts + [hi]
    out = []
    for a, b in zip(edges[:-1], edges[1:]):
        for _ in range(2):
            if rng.random() < gap_p and b - a > 1:
                if rng.random() < 0.5:
                    a += 1
                else:
                    b -= 1
        out.append((a, b))
    return out


def gen_group_spec(rng, depth=None, gap_p=None, miss_p=None, maxn=4, off=None):
    """A nested group: levels = list per tier of [start, end, label] (in units)."""
    depth = depth or rng.choice([1, 2, 2, 2, 3, 3])
    gap_p = rng.choice([0, 0, .3, .6]) if gap_p is None else gap_p
    miss_p = rng.choice([0, 0, .3, .6]) if miss_p is None else miss_p
    scale = {1: 12, 2: 24, 3: 48, 4: 96}[depth]
    off = rng.choice(OFFS) if off is None else off
    n = rng.randint(1, maxn)
    levels = [[[a, b, rng.choice(LABELS)] for a, b in gen_span(rng, off, off + scale, n, gap_p)]]
    for d in range(1, depth):
        cur = []
        for a, b, _ in levels[-1]:
            if rng.random() < miss_p and not (cur == [] and b == levels[-1][-1][1]):
                continue
            for x, y in gen_span(rng, a, b, rng.randint(1, 3), gap_p):
                cur.append([x, y, rng.choice(LABELS)])
        levels.append(cur)
    return {"unit": rng.choice(UNITS), "levels": levels, "shuffle": rng.choice([0, 0, rng.randint(1, 999)])}


def gen_points_spec(rng, maxn=5, nt=None):
    nt = nt or rng.choice([1, 1, 2])
    tiers = []
    for _ in range(nt):
        ts = rng.sample(range(0, 30), rng.randint(1, maxn))
        tiers.append([[t, rng.choice(LABELS)] for t in ts])
    return {"unit": rng.choice(UNITS), "tiers": tiers}


def t_(x, unit):
    return x * unit if unit != 1 else x


def build_tiers(spec, cls=None):
    cls = cls or classes(len(spec["levels"]))
    u = spec["unit"]
    tiers = []
    for c, lev in zip(cls, spec["levels"]):
        ents = [c((t_(a, u), t_(b, u), l)) for a, b, l in lev]
        if spec.get("shuffle"):
            random.Random(spec["shuffle"]).shuffle(ents)
        tiers.append(SequenceTier(ents, entry_class=c))
    return tiers


def build_group(spec, cls=None):
    return TierGroup(build_tiers(spec, cls))


def point_classes(n):
    return custom_classes(["PA", "PB"][:n], points=[0, 1])


def build_point_tiers(spec, cls=None):
    cls = cls or point_classes(len(spec["tiers"]))
    return [SequencePointTier([c((t_(t, spec["unit"]), l)) for t, l in pts], entry_class=c)
            for c, pts in zip(cls, spec["tiers"])]


def build_points(spec, cls=None):
    return PointsGroup(build_point_tiers(spec, cls))


def gen_atg_spec(rng, ngroups=None, points=None, depth=None, complete=False):
    depth = depth or rng.choice([1, 2, 2, 3])
    gs = []
    for i in range(ngroups or rng.randint(1, 3)):
        if complete:
            gs.append(gen_group_spec(rng, depth=depth, gap_p=0, miss_p=0, off=0))
        else:
            gs.append(gen_group_spec(rng, depth=depth))
    if len(gs) > 1 and rng.random() < .5:
        gs[1]["unit"] = gs[0]["unit"]
    ps = []
    if points if points is not None else rng.random() < .4:
        ps = [gen_points_spec(rng)]
    return {"groups": gs, "points": ps, "names": [rng.choice(["A", "A", "B", "C", "A_0"]) for _ in range(8)]}


def build_atg(spec):
    cls = classes(len(spec["groups"][0]["levels"]))
    gs = [build_group(g, cls) for g in spec["groups"]] + [build_points(p) for p in spec["points"]]
    return AlignedTextGrid(gs)


def key(x):
    if isinstance(x, SequencePoint):
        return (float(x.time), x.label)
    return (float(x.start), float(x.end), x.label)


def keys(seq):
    return [key(x) for x in seq]


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-8 + 1e-5 * abs(float(b))


def kclose(a, b):
    return len(a) == len(b) and a[-1] == b[-1] and all(close(x, y) for x, y in zip(a[:-1], b[:-1]))


def is_in(x, seq):
    return any(x is y for y in seq)


def same_objs(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))
