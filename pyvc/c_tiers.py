"""Contracts: tiers, groups and points — times, extents, lookups, export (C06 C08 C09 C15 C16)."""
from spec import *
import npx, ghost
from c_list import same_list, tf


class TierC(Contract):
    recv = ST
    def __init__(self, recv=None, **kw):
        super().__init__(recv, **kw)
        self.ek = SP if self.recv == SPT else SI
    def instantiate(self, e, env, heap, mode):
        S = State(e, env, heap, mode)
        vals = list(env.values())
        S.self = vals[0].t
        S.k = vals[0].k
        S.vk = vals[0].ek            # kind of the entries, if more is known
        S.ek = SP if S.k == SPT else SI
        S.a = vals[1:]
        S.l = heap.seq(S.self)
        S.n, S.arr = heap.n(S.l), heap.arr(S.l)
        S.f0, S.f1 = ("_time", "_time") if S.ek == SP else ("_start", "_end")
        return S if self.bind(S) is not False else None
    def pre(self, S):
        yield "has a list of entries", S.l > 0
    def timed(self, S):
        return alli(S.n, S.arr, lambda j, x: S.h0.timed(x, S.ek))


class TTimes(TierC):
    props = ("C06", "C08"); which = 0
    def result_def(self, S):
        h, a, f = S.h0, S.arr, (S.f0, S.f1)[self.which]
        return VLst(S.n, lambda j: VOptR(h._a(f + "?", sel(a, j)), h._a(f, sel(a, j))), np=True)
    def same_result(self, e, S, v, d):
        if not isinstance(v, (VLst, VCell)): return z3.BoolVal(False)
        return same_list(e, e.as_list(v), d)


class TStarts(TTimes): name = "starts"
class TEnds(TTimes): name = "ends"; which = 1
class TTimesP(TTimes): name = "times"


class TLabels(TierC):
    name = "labels"; props = ("C09", "C05")
    def result_def(self, S):
        h, a = S.h0, S.arr
        return VLst(S.n, lambda j: VL(h.label(sel(a, j))))
    same_result = TTimes.same_result


class TExtent(TierC):
    """xmin / xmax: exact extremum, None for an empty tier"""
    props = ("C16",); lo = True
    def pre(self, S):
        yield from super().pre(S)
        yield "entries have times", self.timed(S)
    def result_def(self, S):
        f = S.f0 if self.lo else S.f1
        t = S.h0.d[f]
        return VOptR(S.n == 0, ghost.T[self.lo][0](S.arr, S.n, t))
    def same_result(self, e, S, v, d):
        if isinstance(v, VNone): return d.none
        if isinstance(v, VR): return z3.And(z3.Not(d.none), v.t == d.t)
        if isinstance(v, VOptR): return z3.And(v.none == d.none, z3.Implies(z3.Not(d.none), v.t == d.t))
        return z3.BoolVal(False)


class TXmin(TExtent): name = "xmin"
class TXmax(TExtent): name = "xmax"; lo = False


class TSetTimes(TierC):
    """starts = / ends = / times = : one new time per entry, in order, or a refusal with no change"""
    props = ("C06", "C14"); which = 0
    def args(self, e):
        n = e.fresh("tn", I); a = e.fresh("ts", z3.ArraySort(I, R))
        e.assume(n >= 0)
        return [VLst(n, lambda j: VR(a[j]), np=True)]
    def bind(self, S):
        if not isinstance(S.a[0], (VLst, VCell)): return False
        S.ts = S.e.as_list(S.a[0])
        S.f = (S.f0, S.f1)[self.which]
    def pre(self, S):
        yield from super().pre(S)
        yield "entries are distinct", distinct(S, S.n, S.arr, "ents")
    def raises(self, S): return S.n != S.ts.n
    def modifies(self, S):
        m = S.member("l", S.n, S.arr)
        return {S.f: m, S.f + "?": m}
    def tval(self, S, j):
        return S.e.el_real(S.ts, j)
    def post(self, S):
        h = S.h1
        yield "every entry has its new time", alli(S.n, S.arr, lambda j, x: z3.And(z3.Not(h._a(S.f + "?", x)), h._a(S.f, x) == self.tval(S, j)))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        def done(k, h, env):
            return alli(S.n, S.arr, lambda j, x: z3.Implies(j < k, z3.And(z3.Not(h._a(S.f + "?", x)), h._a(S.f, x) == self.tval(S, j))))
        return self.frame_candidates(e, S, hl, fields) + [("done", done)]


class TSetStarts(TSetTimes): name = "starts="
class TSetEnds(TSetTimes): name = "ends="; which = 1
class TSetTimesP(TSetTimes): name = "times="


class TShift(TierC):
    """_shift: every time of every entry moves by the increment, once"""
    name = "_shift"; props = ("C06",)
    def args(self, e): return [VR(e.fresh("inc", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.inc = S.e.as_real(S.a[0])
        S.fs = (S.f0,) if S.ek == SP else (S.f0, S.f1)
    def pre(self, S):
        yield from super().pre(S)
        yield "entries have times", self.timed(S)
        yield "entries are distinct", distinct(S, S.n, S.arr, "ents")
    def modifies(self, S):
        m = S.member("l", S.n, S.arr)
        return {f + q: m for f in S.fs for q in ("", "?")}
    def post(self, S):
        a, h = S.h0, S.h1
        for f in S.fs:
            yield f"{f} moves by the increment", alli(S.n, S.arr, lambda j, x: h._a(f, x) == a._a(f, x) + S.inc)
        yield "entries still have times", alli(S.n, S.arr, lambda j, x: h.timed(x, S.ek))


class TIntervalAt(TierC):
    name = "get_interval_at_time"; props = ("C08",)
    def args(self, e): return [VR(e.fresh("time", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI, VOptR)): return False
        S.x = S.a[0].t if isinstance(S.a[0], VOptR) else S.e.as_real(S.a[0])
        S.xn = S.a[0].none if isinstance(S.a[0], VOptR) else z3.BoolVal(False)
    def pre(self, S):
        yield from super().pre(S)
        yield "the time is a number", z3.Not(S.xn)
        yield "entries have times", self.timed(S)
        h, x = S.h0, S.x
        a, b = qv("a"), qv("b")
        inn = lambda r: z3.And(h.start(r) <= x, h.end(r) > x)
        yield "intervals do not overlap at the time", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < S.n), z3.Not(z3.And(inn(S.arr[a]), inn(S.arr[b])))),
                                                                patterns=[z3.MultiPattern(S.arr[a], S.arr[b])])
    def result_def(self, S):
        i = ghost.ivat(S.arr, S.n, S.h0.d["_start"], S.h0.d["_end"], S.x)
        return VOptI(i < 0, i)
    def same_result(self, e, S, v, d):
        if isinstance(v, VNone): return d.none
        if isinstance(v, VI): return z3.And(z3.Not(d.none), v.t == d.t)
        return z3.BoolVal(False)


class TNearest(TierC):
    name = "get_nearest_point_index"; props = ("C08", "C18"); recv = SPT
    def args(self, e): return [VR(e.fresh("time", R))]
    bind = TIntervalAt.bind
    def pre(self, S):
        yield from super().pre(S)
        yield "the time is a number", z3.Not(S.xn)
        yield "entries have times", self.timed(S)
        yield "tier is not empty", S.n > 0
    def result_def(self, S):
        return VI(ghost.nrst(S.arr, S.n, S.h0.d["_time"], S.x))
    def same_result(self, e, S, v, d):
        return v.t == d.t if isinstance(v, VI) else z3.BoolVal(False)


class TNearestPoint(TNearest):
    name = "get_nearest_point"
    def result_def(self, S):
        return VRef(sel(S.arr, ghost.nrst(S.arr, S.n, S.h0.d["_time"], S.x)), S.vk or SP, None, True)
    def same_result(self, e, S, v, d):
        return v.t == d.t if isinstance(v, VRef) else z3.BoolVal(False)


class TReturnTier(TierC):
    name = "return_tier"; props = ("C09",)
    def args(self, e): return [VL(e.fresh("name", Lab))]
    def bind(self, S):
        v = S.a[0]
        if isinstance(v, VNone): S.nm = S.h0._a("name", S.self)
        elif isinstance(v, (VL, VStr)): 
            t = S.e.as_lab(v)
            S.nm = z3.If(t == S.lit(None), S.h0._a("name", S.self), t)
        else: return False
    def result_def(self, S):
        h, a = S.h0, S.arr
        def el(j):
            x = sel(a, j)
            if S.ek == SP: return VTup([VOptR(h._a("_time?", x), h.time(x)), VL(h.label(x))], "Point")
            return VTup([VOptR(h._a("_start?", x), h.start(x)), VOptR(h._a("_end?", x), h.end(x)), VL(h.label(x))], "Interval")
        return VTup([VL(S.nm), VLst(S.n, el)], "PointTier" if S.ek == SP else "IntervalTier")
    def same_result(self, e, S, v, d):
        if not isinstance(v, VTup) or v.cls != d.cls: return z3.BoolVal(False)
        ents = e.as_list(v.items[1])
        ex = ents.items[0] if ents.items else (ents.f(z3.Int("j")) if ents.items is None else None)
        want = "Point" if S.ek == SP else "Interval"
        if ex is not None and (not isinstance(ex, VTup) or ex.cls != want): return z3.BoolVal(False)
        return z3.And(e.equal(v.items[0], d.items[0]), same_list(e, ents, d.items[1]))


# ------------------------------------------------------------------ points
class PDistance(Contract):
    recv = SP; props = ("C08",); link = "fol"
    def pre(self, S):
        yield "the point has a time", z3.Not(S.h0._a("_time?", S.self))
    def result_def(self, S):
        h = S.h0
        x = h._a(self.link, S.self)
        return VOptR(z3.Or(x == 0, h._a("_time?", x)), h.time(x) - h.time(S.self))
    same_result = TExtent.same_result


class PFolDistance(PDistance): name = "fol_distance"
class PPrevDistance(PDistance): name = "prev_distance"; link = "prev"


class PShift(Contract):
    recv = SP; name = "_shift"; props = ("C06",)
    def args(self, e): return [VR(e.fresh("inc", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.inc = S.e.as_real(S.a[0])
    def pre(self, S): yield "has a time", z3.Not(S.h0._a("_time?", S.self))
    def modifies(self, S): return {"_time": [S.self], "_time?": [S.self]}
    def post(self, S):
        yield "time moves by the increment", z3.And(S.h1.time(S.self) == S.h0.time(S.self) + S.inc, z3.Not(S.h1._a("_time?", S.self)))


# ------------------------------------------------------------------ intervals
class Validate(Contract):
    recv = SI; name = "validate"; props = ("C15",)
    def bind(self, S):
        S.l = S.h0.sub(S.self)
        S.n, S.arr = S.h0.n(S.l), S.h0.arr(S.l)
    def pre(self, S):
        h = S.h0
        yield "has a list of children", S.l > 0
        yield "start and end go together", h._a("_start?", S.self) == h._a("_end?", S.self)
        yield "children have times", alli(S.n, S.arr, lambda j, x: h.timed(x))
    def result_def(self, S):
        h, s, n, a = S.h0, S.self, S.n, S.arr
        c = npx.close
        snug = alli(n, a, lambda j, x: z3.Implies(j + 1 < n, c(h.start(a[j + 1]), h.end(x))))
        return VB(z3.Or(n == 0, h._a("_start?", s), z3.And(c(h.start(s), h.start(sel(a, 0))), c(h.end(s), h.end(sel(a, n - 1))), snug)))
    def same_result(self, e, S, v, d):
        return e.truth(v) == d.t if isinstance(v, VB) else z3.BoolVal(False)


class Duration(Contract):
    recv = SI; name = "duration"; props = ("C05",)
    def pre(self, S): yield "has times", S.h0.timed(S.self)
    def result_def(self, S): return VR(S.h0.end(S.self) - S.h0.start(S.self))
    def same_result(self, e, S, v, d): return v.t == d.t if isinstance(v, VR) else z3.BoolVal(False)


# ------------------------------------------------------------------ groups
class GroupC(Contract):
    recv = TG
    def __init__(self, recv=None, **kw):
        super().__init__(recv, **kw)
        self.ek = ST if self.recv == TG else SPT
    def instantiate(self, e, env, heap, mode):
        S = State(e, env, heap, mode)
        vals = list(env.values())
        S.self, S.k = vals[0].t, vals[0].k
        S.tk = ST if S.k == TG else SPT
        S.ek = SI if S.k == TG else SP
        S.a = vals[1:]
        S.n, S.arr = heap.n(S.self, "tier_list"), heap.arr(S.self, "tier_list")
        S.f0, S.f1 = ("_time", "_time") if S.ek == SP else ("_start", "_end")
        return S if self.bind(S) is not False else None
    def lst(self, S, h, i): return h.seq(sel(S.arr, i))
    def ents(self, S, h, body):
        """for every entry j of every tier i"""
        i, j = qv("i"), qv("j")
        l = self.lst(S, h, i)
        x = h.at(l, j)
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < S.n, 0 <= j, j < h.n(l)), body(i, j, x)), patterns=[x])
    def pre(self, S):
        h = S.h0
        yield "tiers have lists", alli(S.n, S.arr, lambda i, t: h.seq(t) > 0)


class GExtent(GroupC):
    props = ("C16",); lo = True
    def pre(self, S):
        yield from super().pre(S)
        yield "entries have times", self.ents(S, S.h0, lambda i, j, x: S.h0.timed(x, S.ek))
    def result_def(self, S):
        f = S.f0 if self.lo else S.f1
        d = S.h0.d
        return VOptR(z3.Not(ghost.ghas(S.arr, S.n, d["_sequence_list"], d["_values"], d["_values#"])),
                     ghost.G[self.lo][0](S.arr, S.n, d["_sequence_list"], d["_values"], d["_values#"], d[f]))
    same_result = TExtent.same_result


class GXmin(GExtent): name = "xmin"
class GXmax(GExtent): name = "xmax"; lo = False


class GLookup(GroupC):
    """get_intervals_at_time: the answers of the tiers, in order"""
    name = "get_intervals_at_time"; props = ("C08",)
    def args(self, e): return [VR(e.fresh("time", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.x = S.e.as_real(S.a[0])
    def pre(self, S):
        yield from super().pre(S)
        h, x = S.h0, S.x
        yield "entries have times", self.ents(S, h, lambda i, j, y: h.timed(y, S.ek))
        if S.ek == SI:
            i, a, b = qv("i"), qv("a"), qv("b")
            l = self.lst(S, h, i)
            inn = lambda r: z3.And(h.start(r) <= x, h.end(r) > x)
            yield "intervals do not overlap at the time", z3.ForAll([i, a, b], z3.Implies(z3.And(0 <= i, i < S.n, 0 <= a, a < b, b < h.n(l)), z3.Not(z3.And(inn(h.at(l, a)), inn(h.at(l, b))))),
                                                                    patterns=[z3.MultiPattern(h.at(l, a), h.at(l, b))])
        else:
            yield "tiers are not empty", alli(S.n, S.arr, lambda i, t: h.n(h.seq(t)) > 0)
    def result_def(self, S):
        h = S.h0
        def el(i):
            l = self.lst(S, h, i)
            if S.ek == SP: return VI(ghost.nrst(h.arr(l), h.n(l), h.d["_time"], S.x))
            r = ghost.ivat(h.arr(l), h.n(l), h.d["_start"], h.d["_end"], S.x)
            return VOptI(r < 0, r)
        return VLst(S.n, el)
    def same_result(self, e, S, v, d):
        return same_list(e, e.as_list(v), d)


class GNearest(GLookup): name = "get_nearest_points_index"


class GShift(GroupC):
    """shift: every entry of every tier moves by the increment, once"""
    name = "shift"; props = ("C06",)
    def args(self, e): return [VR(e.fresh("inc", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.inc = S.e.as_real(S.a[0])
        S.fs = (S.f0,) if S.ek == SP else (S.f0, S.f1)
        S.ti, S.ei = S.e.freshfun("tier_of", I, I), S.e.freshfun("index_of", I, I)
    def entry(self, S):
        """x is an entry of a tier of the group"""
        h = S.h0
        return lambda r: z3.And(0 <= S.ti(r), S.ti(r) < S.n, 0 <= S.ei(r), S.ei(r) < h.n(self.lst(S, h, S.ti(r))), h.at(self.lst(S, h, S.ti(r)), S.ei(r)) == r)
    def pre(self, S):
        yield from super().pre(S)
        h = S.h0
        yield "entries have times", self.ents(S, h, lambda i, j, y: h.timed(y, S.ek))
        if S.mode == "assume":
            yield "no entry is in two places", self.ents(S, h, lambda i, j, y: z3.And(S.ti(y) == i, S.ei(y) == j))
        else:
            i, j, i2, j2 = qv("i"), qv("j"), qv("i2"), qv("j2")
            l, l2 = self.lst(S, h, i), self.lst(S, h, i2)
            x, y = h.at(l, j), h.at(l2, j2)
            yield "no entry is in two places", z3.ForAll([i, j, i2, j2], z3.Implies(z3.And(0 <= i, i < S.n, 0 <= j, j < h.n(l), 0 <= i2, i2 < S.n, 0 <= j2, j2 < h.n(l2), x == y), z3.And(i == i2, j == j2)), patterns=[z3.MultiPattern(x, y)])
    def modifies(self, S):
        m = self.entry(S)
        if S is not getattr(self, "S", None): S.e.assume(self.ents(S, S.h0, lambda i, j, y: z3.And(S.ti(y) == i, S.ei(y) == j)))      # positions (a call)
        return {f + q: m for f in S.fs for q in ("", "?")}
    def post(self, S):
        a, h = S.h0, S.h1
        for f in S.fs:
            yield f"{f} moves by the increment", self.ents(S, a, lambda i, j, x: h._a(f, x) == a._a(f, x) + S.inc)
        yield "entries still have times", self.ents(S, a, lambda i, j, x: h.timed(x, S.ek))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        a = S.h0
        out = self.frame_candidates(e, S, hl, fields)
        for f in S.fs:
            out.append((f"{f} done", lambda k, h, env, f=f: self.ents(S, a, lambda i, j, x: h._a(f, x) == a._a(f, x) + z3.If(i < k, S.inc, 0))))
        out.append(("timed", lambda k, h, env: self.ents(S, a, lambda i, j, x: h.timed(x, S.ek))))
        return out


class GClasses(GroupC):
    name = "entry_classes"; props = ("C12", "C16")
    def result_def(self, S):
        h = S.h0
        return VLst(S.n, lambda i: VC(h.ec(sel(S.arr, i)), S.ek))
    def same_result(self, e, S, v, d): return same_list(e, e.as_list(v), d)


class GNames(GClasses):
    name = "tier_names"; props = ("C09", "C12")
    def result_def(self, S):
        h = S.h0
        return VLst(S.n, lambda i: VL(h._a("name", sel(S.arr, i))))


def units():
    out = []
    out += [TStarts(ST), TEnds(ST), TTimesP(SPT)]
    for k in (ST, SPT):
        out += [TLabels(k), TXmin(k), TXmax(k), TShift(k), TReturnTier(k)]
    out += [TSetStarts(ST), TSetEnds(ST), TSetTimesP(SPT), TIntervalAt(ST), TNearest(SPT), TNearestPoint(SPT)]
    out += [PFolDistance(), PPrevDistance(), PShift(), Validate(), Duration()]
    for k in (TG, PG):
        out += [GXmin(k), GXmax(k), GLookup(k), GShift(k), GClasses(k)]
    out += [GNearest(PG), GNames(TG)]
    return out
