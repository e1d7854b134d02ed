"""Contracts: moving whole trees of intervals, lists of entries, and concatenation (C06)."""
from spec import *
import ghost
from c_list import ListC, tkey, any_keyeq
from c_tiers import TierC


def shape(h): return h.d["_subset_list"], h.d["_values"], h.d["_values#"]
def below(h, x, r): return ghost.desc(*shape(h), x, r)
def under(h, l, r): return ghost.ldesc(*shape(h), l, r)
def branch(h, l, r): return ghost.lbr(*shape(h), l, r)


def forest(h, foot):
    """no interval of foot has one below two of its children, or is below itself"""
    x, j, r = qv("x"), qv("j"), qv("r")
    c = h.at(h.sub(x), j)
    d = below(h, c, r)
    return z3.ForAll([x, j, r], z3.Implies(z3.And(foot(x), 0 <= j, j < h.n(h.sub(x)), d), z3.And(r != x, branch(h, h.sub(x), r) == j)), patterns=[d])


def moved_if(h0, h1, cond, by):
    """for all r with cond(r): both times of r move by by(r)"""
    for f in ("_start", "_end"):
        r = qv("r")
        yield f"{f} moves by the increment", z3.ForAll([r], z3.Implies(cond(r), h1._a(f, r) == h0._a(f, r) + by(r)), patterns=[h1._a(f, r)])


def all_timed(h, cond):
    r = qv("r")
    return z3.ForAll([r], z3.Implies(cond(r), h.timed(r)), patterns=[cond(r)])


TIMES = ("_start", "_start?", "_end", "_end?")


class ShiftTree(Contract):
    """_shift of an interval: it and everything below it move by the increment, once"""
    recv = SI; name = "_shift"; props = ("C06",)
    def args(self, e): return [VR(e.fresh("inc", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.inc = S.e.as_real(S.a[0])
        S.foot = lambda r: below(S.h0, S.self, r)
    def pre(self, S):
        h = S.h0
        if S.mode == "assume":
            for f in ghost.desc_def(*shape(h), S.self): yield "definition of below", f
        yield "it has a list of children", h.sub(S.self) > 0
        yield "it has times", h.timed(S.self)
        yield "containment is a forest", forest(h, S.foot)
        yield "all below have lists of children", self.lists(S)
        yield "all below have times", all_timed(h, S.foot)
    def lists(self, S):
        r = qv("r")
        return z3.ForAll([r], z3.Implies(S.foot(r), z3.And(r > 0, r < S.h0.nxt, S.h0.sub(r) > 0, S.h0.sub(r) < S.h0.nxt)), patterns=[S.foot(r)])
    def modifies(self, S): return {f: S.foot for f in TIMES}
    def post(self, S):
        yield from moved_if(S.h0, S.h1, S.foot, lambda r: S.inc)
        yield "all below still have times", all_timed(S.h1, S.foot)


class ShiftList(ListC):
    """_shift of a list: every entry (and everything below it) moves by the increment, once"""
    name = "_shift"; props = ("C06",)
    def args(self, e): return [VR(e.fresh("inc", R))]
    def bind(self, S):
        if not isinstance(S.a[0], (VR, VI)): return False
        S.inc = S.e.as_real(S.a[0])
        if S.ek == SP: S.foot = lambda r: S.member("l", S.n, S.arr)(r)
        else: S.foot = lambda r: under(S.h0, S.self, r)
    def pre(self, S):
        h = S.h0
        yield "entries are objects", self.nonnull(S)
        if S.ek == SP:
            yield "entries have times", self.timed(S)
            yield "entries are distinct", distinct(S, S.n, S.arr, "ents")
            return
        carry = getattr(S.e.unit, "carry_below", None)
        if S.mode != "assume" and carry: carry(h, S.self)
        if S.mode == "assume":
            for f in ghost.ldesc_def(*shape(h), S.self): yield "definition of below", f
        yield "entries have lists of children", alli(S.n, S.arr, lambda j, x: h.sub(x) > 0)
        yield "entries have times", self.timed(S)
        yield "containment is a forest", forest(h, S.foot)
        j, r = qv("j"), qv("r")
        d = below(h, sel(S.arr, j), r)
        yield "no interval is below two entries", z3.ForAll([j, r], z3.Implies(z3.And(0 <= j, j < S.n, d), branch(h, S.self, r) == j), patterns=[d])
        yield "all below have lists of children", ShiftTree.lists(self, S)
        yield "all below have times", all_timed(h, S.foot)
    def modifies(self, S): return {f: S.foot for f in (("_time", "_time?") if S.ek == SP else TIMES)}
    def post(self, S):
        yield from self.moved(S, S.h1, None)
    def moved(self, S, h, k):
        a = S.h0
        if S.ek == SP:
            yield "every time moves by the increment", alli(S.n, S.arr, lambda j, x: h.time(x) == a.time(x) + (S.inc if k is None else z3.If(j < k, S.inc, 0)))
            yield "entries still have times", alli(S.n, S.arr, lambda j, x: h.timed(x, SP))
            return
        yield "entries still have times", alli(S.n, S.arr, lambda j, x: h.timed(x))
        yield from moved_if(a, h, S.foot, lambda r: S.inc if k is None else z3.If(branch(a, S.self, r) < k, S.inc, 0))
        yield "all below still have times", all_timed(h, S.foot)
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        out = self.frame_candidates(e, S, hl, fields)
        for n, (lbl, _) in enumerate(list(self.moved(S, S.h0, None))):
            out.append((lbl, lambda k, h, env, n=n: list(self.moved(S, h, k))[n][1]))
        return out


class LConcat(ListC):
    """concat(entries): the list keeps its entries and gets the given ones, moved once by the end of the list"""
    name = "concat"; props = ("C06", "C02"); exc = "ValueError"
    allocs = True; alloc_fields = ("_values", "_values#", "entry_class", "tag")
    as_ref = True; opaque_order = True
    def __init__(self, ek=SI, **kw):
        super().__init__(ek, **kw)
        if not self.as_ref: self.variant += "[list]"
    def args(self, e):
        if self.as_ref: return [e_ref(e, "new", SL, self.ek)]
        n = e.fresh("n", I); e.assume(n >= 0)
        return [e.from_arr(n, e.fresh("given", z3.ArraySort(I, I)), self.ek)]
    def bind(self, S):
        l = S.e.as_list(S.a[0])
        xs = l.items if l.items is not None else [l.f(z3.Int("j"))]
        if any(not isinstance(x, VRef) or x.k != S.ek for x in xs): return False
        S.m, S.g = S.e.materialize(l)
        h = S.h0
        S.ec = h.ec(S.self)
        S.mx = ghost.T[False][0](S.arr, S.n, h.d["_time" if S.ek == SP else "_end"])
        S.inc = z3.If(S.n > 0, S.mx, z3.RealVal(0))
        if S.ek == SP: S.foot = lambda r: S.member("given", S.m, S.g)(r)
        else:
            S.ob = S.e.freshfun("branch_of", I, I)
            S.foot = S.e.freshfun("below_given", I, B)
            j, r = qv("j"), qv("r")
            d = below(h, S.g[j], r)
            S.e.assume(z3.ForAll([r], z3.Implies(S.foot(r), z3.And(0 <= S.ob(r), S.ob(r) < S.m, below(h, S.g[S.ob(r)], r))), patterns=[S.foot(r)]))
            S.e.assume(z3.ForAll([j, r], z3.Implies(z3.And(0 <= j, j < S.m, d), S.foot(r)), patterns=[d]))      # definition of branch_of
            S.e.assume(alli(S.m, S.g, lambda j, x: z3.And(below(h, x, x), S.foot(x))))
            x = qv("x")
            c = h.at(h.sub(x), j)
            S.e.assume(z3.ForAll([x, j], z3.Implies(z3.And(S.foot(x), 0 <= j, j < h.n(h.sub(x))), S.foot(c)), patterns=[c]))
    def trees(self, S):
        h = S.h0
        j, k, r = qv("j"), qv("k"), qv("r")
        d = below(h, S.g[j], r)
        if S.mode == "assume": one = z3.ForAll([j, r], z3.Implies(z3.And(0 <= j, j < S.m, d), S.ob(r) == j), patterns=[d])
        else: one = z3.ForAll([j, k, r], z3.Implies(z3.And(0 <= j, j < k, k < S.m, d), z3.Not(below(h, S.g[k], r))))
        yield "no interval is below two given ones", one
        yield "containment is a forest", forest(h, S.foot)
        yield "all below have lists of children", ShiftTree.lists(self, S)
        yield "all below have times", all_timed(h, S.foot)
        yield "no entry is below a given one", alli(S.n, S.arr, lambda j, x: z3.Not(S.foot(x)))
    def carry_below(self, h, l):
        """the lists below the given entries are as they were, so what is below them is (lemma 'below depends on the lists below');
        and the definition of below for the list that is now shifted"""
        S = self.S
        if S.ek != SI: return
        a = S.h0
        s1, v1, n1 = shape(a)
        s2, v2, n2 = shape(h)
        x, r, y = qv("x"), qv("r"), qv("y")
        same = z3.ForAll([y], z3.Implies(S.foot(y), z3.And(s1[y] == s2[y], v1[s1[y]] == v2[s1[y]], n1[s1[y]] == n2[s1[y]])), patterns=[s1[y]])
        d, ld, br = below(h, x, r), under(h, s1[x], r), branch(h, s1[x], r)
        S.e.oblige("lists below the given entries are as they were", same)
        S.e.assume(z3.ForAll([x, r], z3.Implies(S.foot(x), d == below(a, x, r)), patterns=[d, below(a, x, r)]))
        S.e.assume(z3.ForAll([x, r], z3.Implies(S.foot(x), z3.And(ld == under(a, s1[x], r), br == branch(a, s1[x], r))), patterns=[ld, br]))
        for f in ghost.ldesc_def(*shape(h), l): S.e.assume(f)
    def pre(self, S):
        h = S.h0
        fs = ("_time",) if S.ek == SP else ("_start", "_end")
        mine = S.member("mine", S.n, S.arr)
        t = h.tag(S.g[0])
        yield "entries are objects", self.nonnull(S)
        yield "entries have times", self.timed(S)
        yield "entries are distinct", distinct(S, S.n, S.arr, "mine")
        yield "entries are of the list's class", alli(S.n, S.arr, lambda j, x: h.tag(x) == S.ec)
        yield "entries are in time order", sorted_by(S.n, S.arr, tkey(h, S.ek))
        yield "a list with entries has a class", z3.Implies(S.n > 0, S.ec != 0)
        yield "given are objects", alli(S.m, S.g, lambda j, x: z3.And(x > 0, x < h.nxt))
        yield "given have times", self.timed(S, S.m, S.g)
        yield "given are distinct", distinct(S, S.m, S.g, "given")
        yield "given are of one class", alli(S.m, S.g, lambda j, x: h.tag(x) == t)
        yield "which fits only if it is the list's", z3.Implies(z3.And(S.m > 0, S.ec != 0), S.ec == t)
        yield "given are not in the list", alli(S.m, S.g, lambda j, x: z3.Not(mine(x)))
        if S.ek == SI: yield from self.trees(S)
        yield "no given one will equal an entry", alli(S.m, S.g, lambda j, x: alli(S.n, S.arr, lambda i, y: z3.Not(z3.And(h.label(x) == h.label(y), *[h._a(f, y) == h._a(f, x) + S.inc for f in fs]))))
    def modifies(self, S):
        out = {"_values": [S.self], "_values#": [S.self], "entry_class": [S.self]}
        out.update({f: S.foot for f in (("_time", "_time?") if S.ek == SP else TIMES)})
        return out
    def post(self, S):
        a, h = S.h0, S.h1
        yield from self.result(S, h.n(S.self), h.arr(S.self))
    def result(self, S, n1, a1):
        a, h = S.h0, S.h1
        yield "as many as both have", n1 == S.n + S.m
        yield "in time order", sorted_by(n1, a1, tkey(h, S.ek))
        yield "no entry twice", distinct(S, n1, a1, "new")
        yield "nothing of the list is lost", included(S, S.n, S.arr, n1, a1, "fw1")
        yield "nothing given is lost", included(S, S.m, S.g, n1, a1, "fw2")
        mine, new = S.member("mine", S.n, S.arr), S.member("given", S.m, S.g)
        yield "nothing else is there", alli(n1, a1, lambda j, x: z3.Or(mine(x), new(x)))
        yield "entries still have times", alli(n1, a1, lambda j, x: h.timed(x, S.ek))
        if S.ek == SP:
            yield "every given one moves by the end of the list", alli(S.m, S.g, lambda j, x: z3.And(h.timed(x, SP), h.time(x) == a.time(x) + S.inc))
        else:
            yield from moved_if(a, h, S.foot, lambda r: S.inc)
            yield "all below still have times", all_timed(h, S.foot)


class TConcat(LConcat):
    """concat of tiers: as for lists, and the entries are linked and in this tier; refused when the classes do not fit"""
    name = "concat"; props = ("C06", "C02", "C01", "C14"); public = True
    def __init__(self, recv=ST, **kw):
        Contract.__init__(self, recv, **kw)
        self.ek = SP if self.recv == SPT else SI
        self.alloc_fields = tuple(set(OBJ_FIELDS if self.ek == SI else PT_FIELDS) | {"_values", "_values#", "entry_class", "tag"})
    def args(self, e): return [e_ref(e, "new", self.recv)]
    def instantiate(self, e, env, heap, mode):
        S = State(e, env, heap, mode)
        vals = list(env.values())
        if not isinstance(vals[1], VRef) or vals[1].k != self.recv: return None
        S.t, S.other, S.a, S.ek = vals[0].t, vals[1].t, vals[1:], self.ek
        S.self = heap.seq(S.t)           # the list
        S.n, S.arr = heap.n(S.self), heap.arr(S.self)
        return S if self.bind(S) is not False else None
    def bind(self, S):
        h = S.h0
        S.a = [VRef(h.seq(S.other), SL, S.ek, True)]
        super().bind(S)
        S.up = h._a("t.superset_class", S.t)
        S.top = sub(S.up, S.e.cls("Top").t)
    def pre(self, S):
        h = S.h0
        H_ = S.lit(HASH)
        o = h.seq(S.other)
        yield "both have lists", z3.And(S.self > 0, S.self < h.nxt, o > 0, o < h.nxt, o != S.self)
        yield "tiers have a class of entries", z3.And(h.ec(S.t) != 0, h.ec(S.other) != 0)
        if S.ek == SI: yield "the class above is set", S.up != 0
        yield "no entry is labelled '#'", z3.And(alli(S.n, S.arr, lambda j, x: h.label(x) != H_), alli(S.m, S.g, lambda j, x: h.label(x) != H_))
        yield from super().pre(S)
    def raises(self, S):
        a, b = S.h0.ec(S.t), S.h0.ec(S.other)
        return z3.Not(z3.Or(sub(a, b), sub(b, a)))
    def modifies(self, S):
        h = S.h0
        out = super().modifies(S)
        mine, new = S.member("mine", S.n, S.arr), S.member("given", S.m, S.g)
        m = lambda r: z3.Or(mine(r), new(r))
        out.update({"_sequence_list": [S.t], "intier": m, "tiername": m})
        if S.ek == SP:
            out.update({f: m for f in ("fol", "prev", "_within", "has_within")})
            out.update({"_contains": [S.t], "has_contains": [S.t]})
        else:
            root, top, c = lambda r: z3.And(m(r), h.sup(r) == 0), lambda r: z3.And(m(r), S.top), lambda r: z3.And(S.top, r == S.t)
            out.update({"fol": root, "prev": root, "_within": top, "has_within": top, "_contains": c, "has_contains": c})
        return out
    def post(self, S):
        from c_tierlinks import in_tier, root_links
        a, h, t = S.h0, S.h1, S.t
        l = h.seq(t)
        n1, a1 = h.n(l), h.arr(l)
        yield from self.result(S, n1, a1)
        yield from in_tier(S, h, n1, a1, t)
        if S.ek == SP: yield from links(S, h, n1, a1)
        else: yield from root_links(S, a, h, n1, a1)


def below_lemma():
    A, AA = z3.ArraySort(I, I), z3.ArraySort(I, z3.ArraySort(I, I))
    x, y, r, j, X, Y, d = z3.Ints("x y r j X Y d")
    foot = z3.Function("foot", I, B)
    sh = [(z3.Const(f"s{i}", A), z3.Const(f"v{i}", AA), z3.Const(f"n{i}", A)) for i in (1, 2)]
    D = [z3.Function(f"D{i}", I, I, I, B) for i in (1, 2)]       # within so many steps
    (s1, v1, n1), (s2, v2, n2) = sh
    c = v1[s1[x]][j]
    closed = z3.ForAll([x, j], z3.Implies(z3.And(foot(x), 0 <= j, j < n1[s1[x]]), foot(c)), patterns=[c])
    same = z3.ForAll([x], z3.Implies(foot(x), z3.And(s1[x] == s2[x], v1[s1[x]] == v2[s1[x]], n1[s1[x]] == n2[s1[x]])))
    def step(i):
        s, v, n = sh[i]
        return D[i](d + 1, X, Y) == z3.Or(Y == X, z3.Exists([j], z3.And(0 <= j, j < n[s[X]], D[i](d, v[s[X]][j], Y))))
    yield "none", [D[0](0, X, Y) == (X == Y), D[1](0, X, Y) == (X == Y)], D[0](0, X, Y) == D[1](0, X, Y)
    ih = z3.ForAll([x, r], z3.Implies(foot(x), D[0](d, x, r) == D[1](d, x, r)))
    yield "one step more", [closed, same, ih, foot(X), step(0), step(1)], D[0](d + 1, X, Y) == D[1](d + 1, X, Y)


def units():
    return [ShiftTree(), ShiftList(SI), ShiftList(SP), Lemma("below depends on the lists below", ("C06",), below_lemma), LConcat(SI), LConcat(SI, as_ref=False, assume_at_calls=False), LConcat(SP), LConcat(SP, as_ref=False, assume_at_calls=False), TConcat(ST), TConcat(SPT)]
