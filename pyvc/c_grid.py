"""Contracts: a textgrid as a whole — extents, lookups, shifting (C16 C08 C06)."""
from spec import *
import npx, ghost
from vc import GRP
from c_list import same_list
from c_tiers import TExtent


class GridC(Contract):
    recv = ATG
    def instantiate(self, e, env, heap, mode):
        S = State(e, env, heap, mode)
        vals = list(env.values())
        S.self, S.a = vals[0].t, vals[1:]
        S.n, S.arr = heap.n(S.self, "_tier_groups"), heap.arr(S.self, "_tier_groups")
        S.tg = lambda g: sub(heap.tag(g), e.cls(TG).t)
        return S if self.bind(S) is not False else None
    def tiers(self, h, g): return h.n(g, "tier_list"), h.arr(g, "tier_list")
    def lst(self, S, h, k, i): return h.seq(sel(h.arr(sel(S.arr, k), "tier_list"), i))
    def ents(self, S, h, body):
        """for every entry j of every tier i of every group k"""
        k, i, j = qv("k"), qv("i"), qv("j")
        g = sel(S.arr, k)
        l = self.lst(S, h, k, i)
        x = h.at(l, j)
        return z3.ForAll([k, i, j], z3.Implies(z3.And(0 <= k, k < S.n, 0 <= i, i < h.n(g, "tier_list"), 0 <= j, j < h.n(l)), body(k, i, j, g, x)), patterns=[x])
    def timed(self, S, h):
        return self.ents(S, h, lambda k, i, j, g, x: z3.If(S.tg(g), h.timed(x), h.timed(x, SP)))
    def pre(self, S):
        h = S.h0
        k, i = qv("k"), qv("i")
        g = sel(S.arr, k)
        t = h.at(g, i, "tier_list")
        yield "tiers have lists", z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < S.n, 0 <= i, i < h.n(g, "tier_list")), h.seq(t) > 0), patterns=[t])


class AExtent(GridC):
    """xmin / xmax of a textgrid: no entry lies beyond it and one reaches it; empty tiers and groups do not count"""
    props = ("C16",); lo = True; exc = "ValueError"
    def pre(self, S):
        yield from super().pre(S)
        yield "entries have times", self.timed(S, S.h0)
    def raises(self, S): return S.n == 0
    def make_result(self, e, S): return VOptR(e.fresh("ext?", B), e.fresh("ext", R))
    def edge(self, S, h, g, x):
        return z3.If(S.tg(g), h.start(x) if self.lo else h.end(x), h.time(x))
    def post(self, S):
        h, v = S.h0, S.res
        if isinstance(v, VNone): none, t = z3.BoolVal(True), z3.RealVal(0)
        elif isinstance(v, VR): none, t = z3.BoolVal(False), v.t
        elif isinstance(v, VOptR): none, t = v.none, v.t
        else:
            yield "result is a time or None", z3.BoolVal(False); return
        le = (lambda x, y: x <= y) if self.lo else (lambda x, y: x >= y)
        yield "there is one when there is an entry, which it bounds", self.ents(S, h, lambda k, i, j, g, x: z3.And(z3.Not(none), le(t, self.edge(S, h, g, x))))
        # stated as: not all entries are elsewhere
        yield "some entry reaches it", z3.Or(none, z3.Not(self.ents(S, h, lambda k, i, j, g, x: self.edge(S, h, g, x) != t)))


class AXmin(AExtent): name = "xmin"
class AXmax(AExtent): name = "xmax"; lo = False


class ALookup(GridC):
    """get_intervals_at_time: the answers of the groups, in order"""
    name = "get_intervals_at_time"; props = ("C08",)
    def args(self, e): return [VR(e.fresh("time", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.x = S.e.as_real(S.a[0])
    def pre(self, S):
        yield from super().pre(S)
        h, x = S.h0, S.x
        yield "entries have times", self.timed(S, h)
        k, i, a, b = qv("k"), qv("i"), qv("a"), qv("b")
        g = sel(S.arr, k)
        l = self.lst(S, h, k, i)
        rng = z3.And(0 <= k, k < S.n, 0 <= i, i < h.n(g, "tier_list"))
        inn = lambda r: z3.And(h.start(r) <= x, h.end(r) > x)
        yield "intervals do not overlap at the time", z3.ForAll([k, i, a, b], z3.Implies(z3.And(rng, S.tg(g), 0 <= a, a < b, b < h.n(l)), z3.Not(z3.And(inn(h.at(l, a)), inn(h.at(l, b))))),
                                                                patterns=[z3.MultiPattern(h.at(l, a), h.at(l, b))])
        t = h.at(g, i, "tier_list")
        yield "point tiers are not empty", z3.ForAll([k, i], z3.Implies(z3.And(rng, z3.Not(S.tg(g))), h.n(h.seq(t)) > 0), patterns=[t])
    def result_def(self, S):
        h = S.h0
        def grp(k):
            g = sel(S.arr, k)
            def el(i):
                l = self.lst(S, h, k, i)
                p = ghost.nrst(h.arr(l), h.n(l), h.d["_time"], S.x)
                r = ghost.ivat(h.arr(l), h.n(l), h.d["_start"], h.d["_end"], S.x)
                return VOptI(z3.And(S.tg(g), r < 0), z3.If(S.tg(g), r, p))
            return VLst(h.n(g, "tier_list"), el)
        return VLst(S.n, grp)
    def same_result(self, e, S, v, d):
        l = e.as_list(v)
        if l.items is not None: return z3.And(d.n == 0, z3.BoolVal(not l.items))
        k, i = qv("k"), qv("i")
        x, y = e.as_list(l.f(k)), d.f(k)
        if x.items is not None: return z3.BoolVal(False)
        return z3.And(l.n == d.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d.n), x.n == y.n)),
                      z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < d.n, 0 <= i, i < y.n), e.equal(self.opt(x.f(i)), y.f(i)))))
    def opt(self, v):
        return VOptI(z3.BoolVal(False), v.t) if isinstance(v, VI) else VOptI(z3.BoolVal(True), z3.IntVal(0)) if isinstance(v, VNone) else v


class AShift(GridC):
    """shift: every entry of every tier of every group moves by the increment, once"""
    name = "shift"; props = ("C06",)
    def args(self, e): return [VR(e.fresh("inc", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.inc = S.e.as_real(S.a[0])
        f = S.e.freshfun
        S.gi, S.ti, S.ei = f("group_of", I, I), f("tier_of", I, I), f("index_of", I, I)
    def pre(self, S):
        yield from super().pre(S)
        h = S.h0
        yield "entries have times", self.timed(S, h)
        if S.mode != "assume": raise Unsupported("textgrid shift called")
        yield "no entry is in two places", self.ents(S, h, lambda k, i, j, g, x: z3.And(S.gi(x) == k, S.ti(x) == i, S.ei(x) == j))
    def modifies(self, S):
        h = S.h0
        def foot(tg):
            def m(r):
                g = sel(S.arr, S.gi(r))
                l = self.lst(S, h, S.gi(r), S.ti(r))
                return z3.And(0 <= S.gi(r), S.gi(r) < S.n, S.tg(g) if tg else z3.Not(S.tg(g)), 0 <= S.ti(r), S.ti(r) < h.n(g, "tier_list"), 0 <= S.ei(r), S.ei(r) < h.n(l), h.at(l, S.ei(r)) == r)
            return m
        out = {f + q: foot(True) for f in ("_start", "_end") for q in ("", "?")}
        out.update({"_time": foot(False), "_time?": foot(False)})
        return out
    def moved(self, S, h, upto):
        a = S.h0
        for f, tg in (("_start", True), ("_end", True), ("_time", False)):
            yield f"{f} moves by the increment", self.ents(S, a, lambda k, i, j, g, x: z3.Implies(S.tg(g) if tg else z3.Not(S.tg(g)), h._a(f, x) == a._a(f, x) + (S.inc if upto is None else z3.If(k < upto, S.inc, 0))))
    def post(self, S):
        yield from self.moved(S, S.h1, None)
        yield "entries still have times", self.timed(S, S.h1)
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        out = self.frame_candidates(e, S, hl, fields)
        for n, (lbl, _) in enumerate(list(self.moved(S, S.h0, None))):
            out.append((lbl, lambda k, h, env, n=n: list(self.moved(S, h, k))[n][1]))
        return out + [("timed", lambda k, h, env: self.timed(S, h))]


def units():
    return [AXmin(), AXmax(), ALookup(), AShift()]
