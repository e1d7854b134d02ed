"""Contracts: PoLaR levels, turning points and ranges (C18, lookups of points C08)."""
from spec import *
import npx, ghost
from vc import LV, TP, PGRID, POLAR_FIELDS
from c_tiers import TierC, TExtent
from c_links import Init

close = npx.close


def tier(h, t):
    l = h.seq(t)
    return h.n(l), h.arr(l)


def nearest(S, t, x):
    """the entry of tier t nearest to the entry x"""
    n, arr = tier(S.h0, t)
    return ghost.npt(arr, n, S.h0.d["_time"], S.h0.time(x))


def well(S, h, t, what):
    """a tier of points with times, every one of which names it"""
    n, arr = tier(h, t)
    yield f"{what}: has a list", z3.And(t > 0, h.seq(t) > 0)
    yield f"{what}: entries have times", alli(n, arr, lambda j, x: h.timed(x, SP))
    yield f"{what}: entries name it", alli(n, arr, lambda j, x: z3.And(x > 0, x < h.nxt, h.intier(x) == t))


def tp(h, x): return h._a("turning_point", x)
def lev(h, x): return h._a("level", x)


class Relating(Contract):
    """relating levels L and turning points T: those that are each other's nearest, and at the same time, name each other"""
    props = ("C18",); extra_fields = POLAR_FIELDS; ek = SP
    def args(self, e):
        return [e_ref(e, "tier", SPT, TP if self.recv == LV else LV)]
    def bind(self, S):
        v = S.a[0]
        if not isinstance(v, VRef) or v.k != SPT: return False
        S.L, S.T = (S.h0.intier(S.self), v.t) if self.recv == LV else (v.t, S.h0.intier(S.self))
        self.more(S)
    def more(self, S):
        S.nL, S.aL = tier(S.h0, S.L)
        S.nT, S.aT = tier(S.h0, S.T)
    def near(self, S, x): return nearest(S, S.T, x)
    def mutual(self, S, x):
        h, p = S.h0, self.near(S, x)
        return z3.And(p > 0, nearest(S, S.L, p) == x, close(h.time(x), h.time(p)), close(h.time(p), h.time(x)))
    def fwd(self, S, h, but=None):
        """a turning point named back names the level"""
        return alli(S.nL, S.aL, lambda j, x: z3.Implies(z3.And(self.mutual(S, x), tp(h, x) == self.near(S, x), *([self.near(S, x) != but] if but is not None else [])), lev(h, self.near(S, x)) == x))
    def back(self, S, h, but=None):
        return alli(S.nL, S.aL, lambda j, x: z3.Implies(z3.And(self.mutual(S, x), lev(h, self.near(S, x)) == x, *([x != but] if but is not None else [])), tp(h, x) == self.near(S, x)))
    def only_near(self, S, h, since=None):
        """levels name only their nearest turning point, and only when it is at their time"""
        return alli(S.nL, S.aL, lambda j, x: z3.Or(tp(h, x) == (tp(since, x) if since else 0), z3.And(tp(h, x) == self.near(S, x), close(S.h0.time(x), S.h0.time(self.near(S, x))))))
    def pts_near(self, S, h, since=None):
        """and turning points only their nearest level"""
        def body(j, p):
            l = nearest(S, S.L, p)
            return z3.Or(lev(h, p) == (lev(since, p) if since else 0), z3.And(lev(h, p) == l, close(S.h0.time(p), S.h0.time(l))))
        return alli(S.nT, S.aT, body)
    def footprint(self, S):
        return {"turning_point": S.member("L", S.nL, S.aL), "level": S.member("T", S.nT, S.aT)}
    def wellformed(self, S):
        yield from well(S, S.h0, S.L, "levels")
        yield from well(S, S.h0, S.T, "turning points")
        yield "neither is empty", z3.And(S.nL > 0, S.nT > 0)


class SetTurningPoint(Relating):
    recv = LV; name = "set_turning_point"
    def pre(self, S):
        yield from self.wellformed(S)
        yield "the level is in its tier", isin(S, S.self, S.nL, S.aL, "l")
        yield "turning points named are linked back", self.fwd(S, S.h0)
        yield "levels named are linked back, but for this one", self.back(S, S.h0, S.self)
    def modifies(self, S): return self.footprint(S)
    def post(self, S):
        a, h, l = S.h0, S.h1, S.self
        p = self.near(S, l)
        yield "named when at the same time", z3.Implies(close(a.time(l), a.time(p)), tp(h, l) == p)
        yield "levels name only the nearest, at the same time", self.only_near(S, h, a)
        yield "turning points name only the nearest, at the same time", self.pts_near(S, h, a)
        yield "turning points named are linked back", self.fwd(S, h)
        yield "levels named are linked back", self.back(S, h)


class SetLevel(Relating):
    recv = TP; name = "set_level"
    def pre(self, S):
        yield from self.wellformed(S)
        yield "the point is in its tier", isin(S, S.self, S.nT, S.aT, "p")
        yield "turning points named are linked back, but for this one", self.fwd(S, S.h0, S.self)
        yield "levels named are linked back", self.back(S, S.h0)
    def modifies(self, S): return self.footprint(S)
    def post(self, S):
        a, h, p = S.h0, S.h1, S.self
        l = nearest(S, S.L, p)
        yield "named when at the same time", z3.Implies(close(a.time(p), a.time(l)), lev(h, p) == l)
        yield "levels name only the nearest, at the same time", self.only_near(S, h, a)
        yield "turning points name only the nearest, at the same time", self.pts_near(S, h, a)
        yield "turning points named are linked back", self.fwd(S, h)
        yield "levels named are linked back", self.back(S, h)


class RelatePoints(Relating):
    """_relate_levels_and_points: of the whole grid"""
    recv = PGRID; name = "_relate_levels_and_points"; public = False
    def args(self, e): return []
    def bind(self, S):
        S.L, S.T = S.h0._a("Levels", S.self), S.h0._a("TurningPoints", S.self)
        self.more(S)
    def pre(self, S):
        yield from self.wellformed(S)
        yield "no level names a turning point", alli(S.nL, S.aL, lambda j, x: tp(S.h0, x) == 0)
        yield "no turning point names a level", alli(S.nT, S.aT, lambda j, x: lev(S.h0, x) == 0)
        yield "so none that is nearest does (npt is one of them)", alli(S.nL, S.aL, lambda j, x: lev(S.h0, self.near(S, x)) == 0)
    def modifies(self, S): return self.footprint(S)
    def post(self, S):
        a, h = S.h0, S.h1
        yield "a level names its nearest turning point if at its time, else none", alli(S.nL, S.aL, lambda j, x: tp(h, x) == z3.If(close(a.time(x), a.time(self.near(S, x))), self.near(S, x), 0))
        yield "a turning point names its nearest level, at its time, or none", self.pts_near(S, h)
        yield "mutual nearest at the same time name each other", alli(S.nL, S.aL, lambda j, x: z3.Implies(self.mutual(S, x), z3.And(tp(h, x) == self.near(S, x), lev(h, self.near(S, x)) == x)))
    def loop_candidates(self, e, hl, fields, it):
        S, a = self.S, self.S.h0
        return self.frame_candidates(e, S, hl, fields) + [
            ("only near", lambda k, h, env: self.only_near(S, h)),
            ("only near levels", lambda k, h, env: self.pts_near(S, h)),
            ("done", lambda k, h, env: alli(S.nL, S.aL, lambda j, x: z3.Implies(z3.And(j < k, close(a.time(x), a.time(self.near(S, x)))), tp(h, x) == self.near(S, x)))),
            ("fwd", lambda k, h, env: self.fwd(S, h)),
            ("back", lambda k, h, env: self.back(S, h))]


class SetRangesTier(Contract):
    recv = LV; name = "set_ranges_tier"; props = ("C18",); extra_fields = POLAR_FIELDS
    def args(self, e): return [e_ref(e, "tier", ST)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k != ST: return False
    def modifies(self, S): return {"ranges_tier": [S.self]}
    def post(self, S): yield "the tier is set", S.h1._a("ranges_tier", S.self) == S.a[0].t


def apart(S, h, n, arr, x, tag=""):
    """at most one of the intervals is at the time x"""
    a, b = qv("a"), qv("b")
    inn = lambda r: z3.And(h.start(r) <= x, h.end(r) > x)
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), z3.Not(z3.And(inn(arr[a]), inn(arr[b])))), patterns=[z3.MultiPattern(arr[a], arr[b])])


def at(h, t, x):
    """the interval of tier t at the time x, or none"""
    n, arr = tier(h, t)
    i = ghost.ivat(arr, n, h.d["_start"], h.d["_end"], x)
    return z3.If(i < 0, 0, sel(arr, i)), i


def timed_list(h, t):
    n, arr = tier(h, t)
    return alli(n, arr, lambda j, x: h.timed(x))


class SetRangeInterval(Contract):
    """the range of a level is the interval of the ranges tier it falls in, if any"""
    recv = LV; name = "set_range_interval"; props = ("C18",); extra_fields = POLAR_FIELDS
    def pre(self, S):
        h = S.h0
        t = h._a("ranges_tier", S.self)
        n, arr = tier(h, t)
        yield "the point has a time", z3.Not(h._a("_time?", S.self))
        yield "the tier has a list", z3.Implies(t != 0, h.seq(t) > 0)
        yield "intervals have times", z3.Implies(t != 0, timed_list(h, t))
        yield "intervals do not overlap at the time", z3.Implies(t != 0, apart(S, h, n, arr, h.time(S.self)))
    def modifies(self, S): return {"range_interval": [S.self]}
    def post(self, S):
        a, h = S.h0, S.h1
        t = a._a("ranges_tier", S.self)
        n, arr = tier(a, t)
        r = h._a("range_interval", S.self)
        yield "it is the interval at its time", z3.If(z3.And(t != 0, n > 0), r == at(a, t, a.time(S.self))[0], r == a._a("range_interval", S.self))


class RelateRanges(Contract):
    """_relate_levels_and_ranges: every level gets the ranges tier and the interval it falls in"""
    recv = PGRID; name = "_relate_levels_and_ranges"; props = ("C18",); public = False; extra_fields = POLAR_FIELDS
    def bind(self, S):
        S.L, S.G = S.h0._a("Levels", S.self), S.h0._a("Ranges", S.self)
        S.nL, S.aL = tier(S.h0, S.L)
        S.nG, S.aG = tier(S.h0, S.G)
    def pre(self, S):
        h = S.h0
        yield from well(S, h, S.L, "levels")
        yield "ranges have a list", z3.And(S.G > 0, h.seq(S.G) > 0)
        yield "ranges have times", timed_list(h, S.G)
        yield "ranges do not overlap", alli(S.nL, S.aL, lambda j, x: apart(S, h, S.nG, S.aG, h.time(x)))
    def modifies(self, S):
        m = S.member("L", S.nL, S.aL)
        return {"ranges_tier": m, "range_interval": m}
    def done(self, S, h, k):
        a = S.h0
        return alli(S.nL, S.aL, lambda j, x: z3.Implies(j < k, z3.And(h._a("ranges_tier", x) == S.G, h._a("range_interval", x) == at(a, S.G, a.time(x))[0])))
    def post(self, S):
        yield "every level has its range", z3.Implies(S.nG > 0, self.done(S, S.h1, S.nL))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        return self.frame_candidates(e, S, hl, fields) + [("done", lambda k, h, env: self.done(S, h, k))]


class PolarInit(Init):
    """a new level or turning point names none of the other"""
    props = ("C18",); extra_fields = POLAR_FIELDS; assume_at_calls = False
    def __init__(self, recv):
        super().__init__(SP)
        self.recv = recv
        self.fields = ("turning_point", "ranges_tier", "range_interval") if recv == LV else ("level",)
    def args(self, e): return [VTup([VOptR(e.fresh("t?", B), e.fresh("t", R)), VL(e.fresh("label", Lab))])]
    def bind(self, S): S.v = S.a[0].items
    def modifies(self, S): return {f: [S.self] for f in ("fol", "prev", "label", "intier", "tiername", "_time", "_time?") + self.fields}
    def post(self, S):
        h = S.h1
        yield "label", h.label(S.self) == S.e.as_lab(S.v[-1])
        yield "time", z3.And(h._a("_time?", S.self) == S.v[0].none, z3.Implies(z3.Not(S.v[0].none), h.time(S.self) == S.v[0].t))
        for f in self.fields: yield f"no {f}", h._a(f, S.self) == 0


# ------------------------------------------------------------------ points and intervals at their time (C08)
class PIndexAt(Contract):
    recv = SP; name = "get_interval_index_at_time"; props = ("C08", "C18")
    def __init__(self, recv=None, **kw):
        super().__init__(recv, **kw)
        if self.recv == LV: self.extra_fields = POLAR_FIELDS
    def args(self, e): return [e_ref(e, "tier", ST)]
    def bind(self, S):
        v = S.a[0]
        if not isinstance(v, VRef) or v.k != ST: return False
        S.t = v.t
        S.n, S.arr = tier(S.h0, S.t)
    def pre(self, S):
        h = S.h0
        yield "the point has a time", z3.Not(h._a("_time?", S.self))
        yield "a tier with a list", z3.And(S.t > 0, h.seq(S.t) > 0)
        yield "intervals have times", timed_list(h, S.t)
        yield "intervals do not overlap at the time", apart(S, h, S.n, S.arr, h.time(S.self))
    def result_def(self, S):
        i = at(S.h0, S.t, S.h0.time(S.self))[1]
        return VOptI(z3.Or(S.n == 0, i < 0), i)
    def same_result(self, e, S, v, d):
        if isinstance(v, VNone): return d.none
        if isinstance(v, VI): return z3.And(z3.Not(d.none), v.t == d.t)
        if isinstance(v, VOptI): return z3.And(v.none == d.none, z3.Implies(z3.Not(d.none), v.t == d.t))
        return z3.BoolVal(False)


class PIntervalAt(PIndexAt):
    name = "get_interval_at_point"
    def result_def(self, S):
        return VRef(z3.If(S.n == 0, 0, at(S.h0, S.t, S.h0.time(S.self))[0]), SI)
    def same_result(self, e, S, v, d):
        if isinstance(v, VNone): return d.t == 0
        return v.t == d.t if isinstance(v, VRef) and v.k == SI else z3.BoolVal(False)


class PDistanceFrom(Contract):
    recv = SP; name = "distance_from"; props = ("C08",); other = SP
    def args(self, e): return [e_ref(e, "entry", self.other)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k != self.other: return False
        S.x = S.a[0].t
    def pre(self, S):
        h = S.h0
        yield "both have times", z3.And(S.x > 0, z3.Not(h._a("_time?", S.self)), h.timed(S.x, self.other))
    def result_def(self, S):
        h = S.h0
        if self.other == SP: return VR(h.time(S.self) - h.time(S.x))
        return VLst(2, None, items=[VR(h.time(S.self) - h.start(S.x)), VR(h.time(S.self) - h.end(S.x))], np=True)
    def same_result(self, e, S, v, d):
        if self.other == SP: return v.t == d.t if isinstance(v, VR) else z3.BoolVal(False)
        if not isinstance(v, VLst): return z3.BoolVal(False)
        return z3.And(v.n == 2, *[e.el_real(v, z3.IntVal(i)) == d.items[i].t for i in (0, 1)])


def units():
    return [SetTurningPoint(), SetLevel(), RelatePoints(), SetRangesTier(), SetRangeInterval(), RelateRanges(), PolarInit(LV), PolarInit(TP),
            PIndexAt(SP), PIntervalAt(SP), PIndexAt(LV), PIntervalAt(LV),
            PDistanceFrom(), PDistanceFrom(other=SI, variant="[interval]", assume_at_calls=False)]
