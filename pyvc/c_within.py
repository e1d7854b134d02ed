"""Contracts: what is within what, indices, paths and ids (C11)."""
from spec import *
import npx

AI, AB, AAI = z3.ArraySort(I, I), z3.ArraySort(I, B), z3.ArraySort(I, z3.ArraySort(I, I))
# widx: the first position of o in what the object o is within contains
widx = z3.Function("widx", AI, AAI, AI, I, I)
anc = z3.Function("anc", AI, I, I, I)              # the i-th object upwards: anc(o, 0) = o, anc(o, i + 1) = within(anc(o, i))
dep = z3.Function("dep", AI, AB, AB, I, I)         # how many objects are above o (chains are finite)


def H3(h): return h.d["_within"], h.d["has_within"], h.d["has_contains"]
def HC(h): return h.d["_containsL"], h.d["_containsL#"]


def hasidx(h, o):
    w, hw, hc = H3(h)
    return z3.And(hw[o], w[o] != 0, hc[w[o]])


def ix(h, o): return widx(h.d["_within"], *HC(h), o)


def widx_axiom():
    W, C, N = z3.Const("W", AI), z3.Const("C", AAI), z3.Const("N", AI)
    o, j = z3.Ints("o j")
    x = widx(W, C, N, o)
    return z3.ForAll([W, C, N, o, j], z3.Implies(z3.And(0 <= j, j < N[W[o]], C[W[o]][j] == o), z3.And(0 <= x, x <= j, C[W[o]][x] == o)),
                     patterns=[z3.MultiPattern(x, C[W[o]][j])])


def occurs(h, o):
    return z3.And(0 <= ix(h, o), ix(h, o) < h.d["_containsL#"][h.within(o)], h.d["_containsL"][h.within(o)][ix(h, o)] == o)


class NodeC(Contract):
    recv = "Node"; props = ("C11",)
    def instantiate(self, e, env, heap, mode):
        e.axioms.append(widx_axiom())
        return super().instantiate(e, env, heap, mode)


class Within(NodeC):
    """within: what the object is within, nothing if that was never set"""
    name = "within"; assume_at_calls = False
    def result_def(self, S):
        return VRef(z3.If(S.h0.haswithin(S.self), S.h0.within(S.self), 0), "Node")
    def same_result(self, e, S, v, d):
        if isinstance(v, VNone): return d.t == 0
        return v.t == d.t if isinstance(v, VRef) else z3.BoolVal(False)


class SetContains(NodeC):
    """contains= : what is contained is that list, and each of it is within this object"""
    name = "contains="
    def args(self, e):
        n = e.fresh("n", I); a = e.fresh("new", AI)
        e.assume(n >= 0)
        return [e.from_arr(n, a, "Node")]
    def bind(self, S):
        if not isinstance(S.a[0], (VLst, VCell)): return False
        S.n, S.arr = S.e.materialize(S.e.as_list(S.a[0]))
    def pre(self, S):
        yield "they are objects", alli(S.n, S.arr, lambda j, x: z3.And(0 < x, x < S.h0.nxt))
    def modifies(self, S):
        m = S.member("l", S.n, S.arr)
        return {"_containsL": [S.self], "_containsL#": [S.self], "has_contains": [S.self], "_within": m, "has_within": m}
    def post(self, S):
        h = S.h1
        yield "contains that list", z3.And(h._a("has_contains", S.self), h._a("_containsL#", S.self) == S.n)
        yield "the same objects in order", alli(S.n, S.arr, lambda j, x: sel(h._a("_containsL", S.self), j) == x)
        yield "each is within this object", alli(S.n, S.arr, lambda j, x: z3.And(h.haswithin(x), h.within(x) == S.self))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        return self.frame_candidates(e, S, hl, fields) + [
            ("done are within", lambda k, h, env: alli(S.n, S.arr, lambda j, x: z3.Implies(j < k, z3.And(h.haswithin(x), h.within(x) == S.self))))]


class WithinIndex(NodeC):
    """within_index: the position in what it is within"""
    name = "within_index"
    def pre(self, S):
        yield "it occurs in what it is within", z3.Implies(hasidx(S.h0, S.self), occurs(S.h0, S.self))
    def result_def(self, S):
        return VOptI(z3.Not(hasidx(S.h0, S.self)), ix(S.h0, S.self))
    def same_result(self, e, S, v, d):
        if isinstance(v, VNone): return d.none
        if isinstance(v, VI): return z3.And(z3.Not(d.none), v.t == d.t)
        if isinstance(v, VOptI): return z3.And(v.none == d.none, z3.Implies(z3.Not(d.none), v.t == d.t))
        return z3.BoolVal(False)


class GetPath(NodeC):
    """_get_within_path(obj): the positions of obj, of what it is within, ... up to the top"""
    name = "_get_within_path"; mutable_result = True
    up = True
    def args(self, e): return [e_ref(e, "obj", "Node")]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k != "Node": return False
        S.o = S.a[0].t
        h = S.h0
        w, hw, hc = H3(h)
        S.d = dep(w, hw, hc, S.o)
        i = qv("i")
        # definition of dep at o, and of anc (as a lemma: see Lemma anc)
        up = w[S.o]
        S.e.assume(z3.And(S.d >= 0, S.d == z3.If(hasidx(h, S.o), 1 + dep(w, hw, hc, up), 0), dep(w, hw, hc, up) >= 0, anc(w, S.o, 0) == S.o))
        S.e.assume(z3.ForAll([i], z3.Implies(i >= 0, anc(w, up, i) == anc(w, S.o, i + 1)), patterns=[anc(w, up, i)]))
        S.e.assume(z3.ForAll([i], z3.Implies(i >= 1, anc(w, up, i - 1) == anc(w, S.o, i)), patterns=[anc(w, S.o, i)]))
    def pre(self, S):
        h = S.h0
        r = qv("r")
        yield "it is an object", z3.And(S.o > 0, S.o < h.nxt)
        yield "whatever is within an object occurs in it", z3.ForAll([r], z3.Implies(z3.And(0 < r, r < h.nxt, hasidx(h, r)), occurs(h, r)), patterns=[h.within(r)])
    def result_def(self, S):
        w = S.h0.d["_within"]
        h = S.h0
        return VLst(S.d, lambda i: VI(ix(h, anc(w, S.o, i if self.up else S.d - 1 - i))))
    def same_result(self, e, S, v, d):
        if not isinstance(v, (VLst, VCell)): return z3.BoolVal(False)
        l = e.as_list(v)
        j = qv("j")
        if l.items is not None:
            return z3.And(d.n == len(l.items), *[e.equal(x, e.elem(d, z3.IntVal(i))) for i, x in enumerate(l.items)])
        return z3.And(l.n == d.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d.n), e.equal(e.elem(l, j), e.elem(d, j)))))


class WithinPath(GetPath):
    """within_path: the same from the top down"""
    name = "within_path"; up = False
    def args(self, e): return []
    def bind(self, S):
        S.a = [VRef(S.self, "Node")]
        return super().bind(S)


class Id(WithinPath):
    """id: the numerals of the path, with a separator that is no digit"""
    name = "id"; mutable_result = False
    def result_def(self, S): return super().result_def(S)
    def same_result(self, e, S, v, d):
        if isinstance(v, VStr): return z3.And(z3.BoolVal(v.s == ""), d.n == 0)
        j = getattr(v, "joined", None)
        if not isinstance(v, VL) or j is None: return z3.BoolVal(False)
        sep, l = j
        if not sep or any(c.isdigit() for c in sep): return z3.BoolVal(False)
        want = VLst(d.n, lambda i: VL(npx.istr(e.elem(d, i).t)))
        return super().same_result(e, S, VLst(l.n, l.f, items=l.items), want)
    assume_at_calls = False


class TierIndex(Contract):
    """tier_index: the position in the tier it is in"""
    name = "tier_index"; props = ("C11",)
    def bind(self, S):
        h = S.h0
        S.t = h.intier(S.self)
        S.l = h.seq(S.t)
    def pre(self, S):
        h = S.h0
        i = qv("i")
        yield "the tier has a list", h.seq(S.t) > 0
        yield "it is in the tier it names", z3.Implies(S.t != 0, z3.Exists([i], z3.And(0 <= i, i < h.n(S.l), h.at(S.l, i) == S.self), patterns=[h.at(S.l, i)]))
    def make_result(self, e, S): return VOptI(e.fresh("none", B), e.fresh("at", I))
    def post(self, S):
        h, v = S.h0, S.res
        none = z3.BoolVal(isinstance(v, VNone)) if not isinstance(v, VOptI) else v.none
        yield "no index without a tier", none == (S.t == 0)
        if not isinstance(v, VNone):
            yield "the entry there is this one", z3.Implies(S.t != 0, z3.And(0 <= v.t, v.t < h.n(S.l), h.at(S.l, v.t) == S.self))
            yield "and none before it", z3.Implies(S.t != 0, alli(h.n(S.l), h.arr(S.l), lambda j, x: z3.Implies(j < v.t, x != S.self)))


# ------------------------------------------------------------------ lemmas (induction, no code)
def lemma_anc():
    """anc(within(o), i) = anc(o, i + 1), by induction on i"""
    W, o, i = z3.Const("W", AI), z3.Int("o"), z3.Int("i")
    head = lambda x, k: anc(W, x, k + 1) == W[anc(W, x, k)]
    zero = lambda x: anc(W, x, 0) == x
    yield "base", [zero(o), zero(W[o]), head(o, z3.IntVal(0))], anc(W, W[o], 0) == anc(W, o, 1)
    yield "step", [i >= 0, anc(W, W[o], i) == anc(W, o, i + 1), head(W[o], i), head(o, i + 1)], anc(W, W[o], i + 1) == anc(W, o, i + 2)


def lemma_down():
    """following a path down from the top leads to the object, so equal paths in one textgrid are paths of one object"""
    W, C, N = z3.Const("W", AI), z3.Const("C", AAI), z3.Const("N", AI)
    a, b, d, i = z3.Ints("a b d i")
    occ = lambda x: C[W[x]][widx(W, C, N, x)] == x
    head = lambda x, k: anc(W, x, k + 1) == W[anc(W, x, k)]
    p = lambda x, k: widx(W, C, N, anc(W, x, d - 1 - k))
    yield "one step down", [0 <= i, i < d, occ(anc(W, a, d - 1 - i)), head(a, d - 1 - i)], C[anc(W, a, d - i)][p(a, i)] == anc(W, a, d - 1 - i)
    same = lambda k: anc(W, a, d - k) == anc(W, b, d - k)
    yield "same path, same object (step)", [0 <= i, i < d, same(i), p(a, i) == p(b, i), occ(anc(W, a, d - 1 - i)), occ(anc(W, b, d - 1 - i)), head(a, d - 1 - i), head(b, d - 1 - i)], same(i + 1)
    yield "same path, same object (end)", [same(d), anc(W, a, 0) == a, anc(W, b, 0) == b], a == b


def lemma_sorted():
    """adjacent order implies pairwise order: f(a) <= f(a + d) by induction on d"""
    f = z3.Function("f", I, R)
    a, d, lo, hi = z3.Ints("a d lo hi")
    adj = lambda k: z3.Implies(z3.And(lo <= k, k < hi), f(k) <= f(k + 1))
    yield "base", [], f(a) <= f(a + 0)
    yield "step", [d >= 0, lo <= a, a + d + 1 <= hi, adj(a + d), z3.Implies(a + d <= hi, f(a) <= f(a + d))], f(a) <= f(a + d + 1)


def units():
    return [Within(), SetContains(), WithinIndex(), GetPath(), WithinPath(), Id(), TierIndex(SI), TierIndex(SP),
            Lemma("ancestors", ("C11",), lemma_anc), Lemma("paths", ("C11",), lemma_down), Lemma("adjacent order", ("C02",), lemma_sorted)]
