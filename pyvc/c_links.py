"""Contracts: neighbour links (C01)."""
from spec import *


class SetFol(Contract):
    name = "set_fol"; props = ("C01", "C14")
    mine, theirs = "fol", "prev"
    def args(self, e): return [e_ref(e, "other", self.recv)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef): return False
        S.x = S.a[0].t
    def pre(self, S):
        return [("neighbour is an object", S.x != 0)]
    def raises(self, S):
        h = S.h0
        m = h._a(self.mine, S.self)
        return z3.Or(S.x == S.self, z3.And(h.label(S.self) != S.lit(HASH), m != S.x, h.tag(S.x) != h.tag(S.self)))
    def modifies(self, S): return {self.mine: [S.self], self.theirs: [S.x]}
    def post(self, S):
        a, b, s, x = S.h0, S.h1, S.self, S.x
        H_ = S.lit(HASH)
        noop = z3.Or(a.label(s) == H_, a._a(self.mine, s) == x)
        yield f"{self.mine} is set", b._a(self.mine, s) == z3.If(a.label(s) == H_, a._a(self.mine, s), x)
        yield f"neighbour's {self.theirs} is set", b._a(self.theirs, x) == z3.If(z3.Or(noop, a.label(x) == H_), a._a(self.theirs, x), s)


class SetPrev(SetFol):
    name = "set_prev"; mine, theirs = "prev", "fol"


def alloc_fields(kind):
    return OBJ_FIELDS if kind == SI else PT_FIELDS


class SetFinal(Contract):
    name = "set_final"; props = ("C01",); mine, theirs = "fol", "prev"
    allocs = True
    def __init__(self, recv=None):
        super().__init__(recv)
        self.alloc_fields = alloc_fields(self.recv)
    def modifies(self, S): return {self.mine: [S.self]}
    def post(self, S):
        a, b, s = S.h0, S.h1, S.self
        H_ = S.lit(HASH)
        m = b._a(self.mine, s)
        yield "edge is marked", z3.Implies(a.label(s) != H_, z3.And(m >= a.nxt, m < b.nxt, b.label(m) == H_, b.tag(m) == a.tag(s)))
        yield "marker itself is untouched", z3.Implies(a.label(s) == H_, m == a._a(self.mine, s))


class SetInitial(SetFinal):
    name = "set_initial"; mine, theirs = "prev", "fol"


class Init(Contract):
    """SequenceInterval / SequencePoint construction from a tuple."""
    name = "__init__"; props = ("C01", "C03")
    allocs = True
    def __init__(self, recv=None, **kw):
        super().__init__(recv, **kw)
        self.alloc_fields = alloc_fields(self.recv)
    def args(self, e):
        lab = VL(e.fresh("label", Lab))
        if self.recv == SP: return [VTup([VOptR(e.fresh("t?", B), e.fresh("t", R)), lab])]
        return [VTup([VOptR(e.fresh("s?", B), e.fresh("s", R)), VOptR(e.fresh("e?", B), e.fresh("e", R)), lab])]
    def bind(self, S):
        v = S.a[0]
        if S.e.contracts and len(S.a) > 1 and any(not isinstance(x, VNone) for x in S.a[1:]): return False
        if isinstance(v, VTup) and len(v.items) == (2 if self.recv == SP else 3):
            S.v = v.items
        else: return False
        for t in S.v[:-1]:
            if not isinstance(t, (VNone, VR, VI, VOptR)): return False
        if not isinstance(S.v[-1], (VL, VStr)): return False
    def own(self):
        fs = ["fol", "prev", "label", "intier", "tiername"]
        fs += ["_time", "_time?"] if self.recv == SP else ["_start", "_start?", "_end", "_end?", "super_instance", "_subset_list"]
        return fs
    def modifies(self, S): return {f: [S.self] for f in self.own()}
    def post(self, S):
        a, b, s = S.h0, S.h1, S.self
        H_ = S.lit(HASH)
        lab = S.e.as_lab(S.v[-1])
        yield "label", b.label(s) == lab
        for f, v in zip(["_time"] if self.recv == SP else ["_start", "_end"], S.v[:-1]):
            n, t = (z3.BoolVal(True), None) if isinstance(v, VNone) else (v.none, v.t) if isinstance(v, VOptR) else (z3.BoolVal(False), z3.ToReal(v.t) if isinstance(v, VI) else v.t)
            yield f"{f} given or None", b._a(f + "?", s) == n
            if t is not None: yield f"{f} value", z3.Implies(z3.Not(n), b._a(f, s) == t)
        for m in ("fol", "prev"):
            x = b._a(m, s)
            yield f"{m} marks the edge", z3.If(lab == H_, x == 0, z3.And(x >= a.nxt, x < b.nxt, b.label(x) == H_, b.tag(x) == a.tag(s)))
        yield "in no tier", b.intier(s) == 0
        if self.recv == SI:
            yield "no parent", b.sup(s) == 0
            l = b.sub(s)
            yield "no children", z3.And(l >= a.nxt, l < b.nxt, b.n(l) == 0, b.ec(l) == 0)


class SubsetPrecedence(Contract):
    name = "_set_subset_precedence"; props = ("C01",); public = False
    allocs = True
    alloc_fields = OBJ_FIELDS
    def bind(self, S):
        S.l = S.h0.sub(S.self)
        S.n, S.arr = S.h0.n(S.l), S.h0.arr(S.l)
    def pre(self, S):
        yield "has a list of children", z3.And(S.l > 0, S.l < S.h0.nxt)
        yield from linkable(S, S.h0, S.n, S.arr)
    def modifies(self, S):
        m = S.member("l", S.n, S.arr)
        return {"fol": m, "prev": m}
    def post(self, S):
        yield from links(S, S.h1, S.n, S.arr)
        yield from edges_fresh(S, S.n, S.arr)
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        return self.frame_candidates(e, S, hl, fields) + link_candidates(S, S.n, S.arr)


def linkable(S, h, n, arr):
    """entries are distinct, of one class, none labelled '#'"""
    yield "no child is labelled '#'", alli(n, arr, lambda j, x: h.label(x) != S.lit(HASH))
    yield "children are of one class", alli(n, arr, lambda j, x: h.tag(x) == h.tag(arr[0]))
    yield "children are distinct", distinct(S, n, arr, "kids")


def edges_fresh(S, n, arr):
    yield "edge markers are new", z3.Implies(n > 0, z3.And(S.h1.prev(arr[0]) >= S.h0.nxt, S.h1.fol(arr[n - 1]) >= S.h0.nxt,
                                                           S.h1.prev(arr[0]) < S.h1.nxt, S.h1.fol(arr[n - 1]) < S.h1.nxt))


def link_candidates(S, n, arr):
    H_ = S.lit(HASH)
    nxt0 = S.h0.nxt
    def c(f): return lambda k, h, env: f(k, h)
    return [
        ("prev of done", c(lambda k, h: alli(n, arr, lambda j, x: z3.Implies(z3.And(0 < j, j < k), h.prev(x) == arr[j - 1])))),
        ("fol of done", c(lambda k, h: alli(n, arr, lambda j, x: z3.Implies(z3.And(j < k, j < n - 1), h.fol(x) == arr[j + 1])))),
        ("first edge", c(lambda k, h: z3.Implies(z3.And(k > 0, n > 0), z3.And(h.prev(arr[0]) >= nxt0, h.prev(arr[0]) < h.nxt, h.label(h.prev(arr[0])) == H_)))),
        ("last edge", c(lambda k, h: z3.Implies(z3.And(k >= n, n > 0), z3.And(h.fol(arr[n - 1]) >= nxt0, h.fol(arr[n - 1]) < h.nxt, h.label(h.fol(arr[n - 1])) == H_)))),
        ("k<=n", c(lambda k, h: k <= n)),
    ]


def units():
    out = []
    for k in (SI, SP):
        out += [SetFol(k), SetPrev(k), SetFinal(k), SetInitial(k), Init(k)]
    out += [SubsetPrecedence(SI)]
    return out
