"""Contracts: entries of a tier — neighbours, tier of an entry, assigning and popping entries (C01 C02 C11 C14)."""
from spec import *
from c_list import ListC, any_keyeq, tkey, without
from c_links import linkable, link_candidates
from c_rel import kids, family, only, loose, unlinked, Cased, LRemove, OWN
from c_tiers import TierC


def entries_ok(S, h, n, arr, tag="ents"):
    yield "entries are objects", alli(n, arr, lambda j, x: z3.And(x > 0, x < h.nxt))
    yield "no entry is labelled '#'", alli(n, arr, lambda j, x: h.label(x) != S.lit(HASH))
    yield "entries are of one class", alli(n, arr, lambda j, x: h.tag(x) == h.tag(arr[0]))
    yield "entries are distinct", distinct(S, n, arr, tag)


def in_tier(S, h, n, arr, t):
    yield "every entry names this tier", alli(n, arr, lambda j, x: z3.And(h.intier(x) == t, h._a("tiername", x) == S.h0._a("name", t)))


class PTPrec(TierC):
    """__set_precedence of a point tier: all entries linked in order, in this tier and within it"""
    recv = SPT; name = "__set_precedence"; props = ("C01", "C11"); public = False
    allocs = True; alloc_fields = PT_FIELDS
    def pre(self, S):
        yield "has a list of entries", z3.And(S.l > 0, S.l < S.h0.nxt)
        yield from entries_ok(S, S.h0, S.n, S.arr)
    def modifies(self, S):
        m = S.member("l", S.n, S.arr)
        out = {f: m for f in ("fol", "prev", "intier", "tiername", "_within", "has_within")}
        out.update({"_contains": [S.self], "has_contains": [S.self]})
        return out
    def post(self, S):
        h = S.h1
        yield from links(S, h, S.n, S.arr)
        yield from in_tier(S, h, S.n, S.arr, S.self)
        yield "every entry is within this tier", alli(S.n, S.arr, lambda j, x: z3.And(h.haswithin(x), h.within(x) == S.self))
        yield "which contains the list", z3.And(h.contains(S.self) == S.l, h._a("has_contains", S.self))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        out = self.frame_candidates(e, S, hl, fields) + link_candidates(S, S.n, S.arr)
        out.append(("done name the tier", lambda k, h, env: alli(S.n, S.arr, lambda j, x: z3.Implies(j < k, z3.And(h.intier(x) == S.self, h._a("tiername", x) == S.h0._a("name", S.self))))))
        return out


class STPrec(TierC):
    """__set_precedence of an interval tier: entries without a parent are linked to neighbours without one"""
    recv = ST; name = "__set_precedence"; props = ("C01", "C11"); public = False
    allocs = True; alloc_fields = OBJ_FIELDS
    def bind(self, S):
        S.up = S.h0._a("t.superset_class", S.self)
        S.top = sub(S.up, S.e.cls("Top").t)
    def pre(self, S):
        yield "has a list of entries", z3.And(S.l > 0, S.l < S.h0.nxt)
        yield "the class above is set", S.up != 0
        yield from entries_ok(S, S.h0, S.n, S.arr)
    def modifies(self, S):
        h = S.h0
        m = S.member("l", S.n, S.arr)
        root = lambda r: z3.And(m(r), h.sup(r) == 0)
        top = lambda r: z3.And(m(r), S.top)
        return {"fol": root, "prev": root, "intier": m, "tiername": m, "_within": top, "has_within": top,
                "_contains": lambda r: z3.And(S.top, r == S.self), "has_contains": lambda r: z3.And(S.top, r == S.self)}
    def post(self, S):
        h = S.h1
        yield from root_links(S, S.h0, h, S.n, S.arr)
        yield from in_tier(S, h, S.n, S.arr, S.self)
        yield "on top every entry is within this tier", z3.Implies(S.top, alli(S.n, S.arr, lambda j, x: z3.And(h.haswithin(x), h.within(x) == S.self)))
        yield "which contains the list", z3.Implies(S.top, z3.And(h.contains(S.self) == S.l, h._a("has_contains", S.self)))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        H_ = S.lit(HASH)
        a = S.h0
        n, arr = S.n, S.arr
        out = self.frame_candidates(e, S, hl, fields)
        root = lambda x: a.sup(x) == 0
        def c(f): return lambda k, h, env: f(k, h)
        return out + [
            ("prev of done", c(lambda k, h: alli(n, arr, lambda j, x: z3.Implies(z3.And(0 < j, j < k, root(x), root(arr[j - 1])), h.prev(x) == arr[j - 1]), h.prev))),
            ("fol of done", c(lambda k, h: alli(n, arr, lambda j, x: z3.Implies(z3.And(j < k, j < n - 1, root(x), root(arr[j + 1])), h.fol(x) == arr[j + 1]), h.fol))),
            ("first edge", c(lambda k, h: alli(n, arr, lambda j, x: z3.Implies(z3.And(j < k, root(x), z3.Or(j == 0, z3.Not(root(arr[j - 1])))), z3.And(h.prev(x) != 0, h.label(h.prev(x)) == H_, h.prev(x) >= a.nxt, h.prev(x) < h.nxt)), h.prev))),
            ("last edge", c(lambda k, h: alli(n, arr, lambda j, x: z3.Implies(z3.And(j < k, root(x), z3.Or(j == n - 1, z3.Not(root(arr[j + 1])))), z3.And(h.fol(x) != 0, h.label(h.fol(x)) == H_, h.fol(x) >= a.nxt, h.fol(x) < h.nxt)), h.fol))),
            ("done name the tier", lambda k, h, env: alli(n, arr, lambda j, x: z3.Implies(j < k, z3.And(h.intier(x) == S.self, h._a("tiername", x) == a._a("name", S.self))))),
            ("k<=n", c(lambda k, h: k <= n))]


def root_links(S, a, h, n, arr):
    """neighbours among entries without a parent"""
    H_ = S.lit(HASH)
    root = lambda x: a.sup(x) == 0
    yield "fol is the next entry without a parent", alli(n, arr, lambda j, x: z3.Implies(z3.And(j < n - 1, root(x), root(arr[j + 1])), h.fol(x) == arr[j + 1]), h.fol)
    yield "prev is the entry before without a parent", alli(n, arr, lambda j, x: z3.Implies(z3.And(0 < j, root(x), root(arr[j - 1])), h.prev(x) == arr[j - 1]), h.prev)
    yield "left edges are marked", alli(n, arr, lambda j, x: z3.Implies(z3.And(root(x), z3.Or(j == 0, z3.Not(root(arr[j - 1])))), z3.And(h.prev(x) != 0, h.label(h.prev(x)) == H_)), h.prev)
    yield "right edges are marked", alli(n, arr, lambda j, x: z3.Implies(z3.And(root(x), z3.Or(j == n - 1, z3.Not(root(arr[j + 1])))), z3.And(h.fol(x) != 0, h.label(h.fol(x)) == H_)), h.fol)


class SetSequenceList(TierC):
    """sequence_list=: exactly the given entries, in time order, linked and in this tier"""
    name = "sequence_list="; exc = "ValueError"; props = ("C01", "C02", "C11", "C14")
    allocs = True; opaque_order = True
    as_ref = True
    def __init__(self, recv=None, **kw):
        super().__init__(recv, **kw)
        self.alloc_fields = tuple(set(OBJ_FIELDS if self.ek == SI else PT_FIELDS) | {"_values", "_values#", "entry_class"})
    def args(self, e):
        if self.as_ref: return [e_ref(e, "new", SL, self.ek)]
        n = e.fresh("n", I); e.assume(n >= 0)
        return [e.from_arr(n, e.fresh("given", z3.ArraySort(I, I)), self.ek)]
    def bind(self, S):
        l = S.e.as_list(S.a[0])
        xs = l.items if l.items is not None else [l.f(z3.Int("j"))]
        if any(not isinstance(x, VRef) or x.k != S.ek for x in xs): return False
        S.m, S.g = S.e.materialize(l)
        if S.ek == SI: STPrec.bind(self, S)
    def pre(self, S):
        h = S.h0
        if S.ek == SI: yield "the class above is set", S.up != 0
        yield "given are objects", alli(S.m, S.g, lambda j, x: z3.And(x > 0, x < h.nxt))
        yield "given have times", alli(S.m, S.g, lambda j, x: h.timed(x, S.ek))
        yield "given are distinct", distinct(S, S.m, S.g, "given")
        yield "none given is labelled '#'", alli(S.m, S.g, lambda j, x: h.label(x) != S.lit(HASH))
    def raises(self, S):
        h = S.h0
        return z3.Not(alli(S.m, S.g, lambda j, x: h.tag(x) == h.tag(S.g[0])))
    def modifies(self, S):
        h = S.h0
        m = S.member("given", S.m, S.g)
        out = {"_sequence_list": [S.self], "intier": m, "tiername": m}
        if S.ek == SP:
            out.update({f: m for f in ("fol", "prev", "_within", "has_within")})
            out.update({"_contains": [S.self], "has_contains": [S.self]})
        else:
            root = lambda r: z3.And(m(r), h.sup(r) == 0)
            top = lambda r: z3.And(m(r), S.top)
            out.update({"fol": root, "prev": root, "_within": top, "has_within": top, "_contains": lambda r: z3.And(S.top, r == S.self), "has_contains": lambda r: z3.And(S.top, r == S.self)})
        return out
    def post(self, S):
        a, h, t = S.h0, S.h1, S.self
        l = h.seq(t)
        n1, a1 = h.n(l), h.arr(l)
        yield "entries are a new list", z3.And(l >= a.nxt, l < h.nxt)
        yield "as many as given", n1 == S.m
        yield "in time order", sorted_by(n1, a1, tkey(h, S.ek))
        yield from permuted(S, S.m, S.g, a1, "p", "every given one is an entry", "every entry was given")
        yield "no entry twice", distinct(S, n1, a1, "new1")
        yield "order kept where it was right", z3.Implies(sorted_by(S.m, S.g, tkey(a, S.ek)), alli(S.m, S.g, lambda j, x: a1[j] == x))
        yield "entry class", h.ec(l) == z3.If(S.m > 0, a.tag(S.g[0]), 0)
        yield from in_tier(S, h, n1, a1, t)
        if S.ek == SP:
            yield from links(S, h, n1, a1)
            yield "every entry is within this tier", alli(n1, a1, lambda j, x: z3.And(h.haswithin(x), h.within(x) == t))
            yield "which contains the list", z3.And(h.contains(t) == l, h._a("has_contains", t))
        else:
            yield from root_links(S, a, h, n1, a1)
            yield "on top every entry is within this tier", z3.Implies(S.top, alli(n1, a1, lambda j, x: z3.And(h.haswithin(x), h.within(x) == t)))
            yield "which contains the list", z3.Implies(S.top, z3.And(h.contains(t) == l, h._a("has_contains", t)))


class STPop(Cased):
    """pop(x): x leaves the tier (and its parent), the others are linked again"""
    recv = ST; ek = SI; name = "pop"; props = ("C01", "C02", "C03", "C14", "C07")
    CASES = ("no parent", "with a parent")
    def args(self, e): return [e_ref(e, "x", SI)]
    def bind(self, S):
        v = S.a[0]
        if not isinstance(v, VRef) or v.k != SI: return False
        h = S.h0
        S.l = h.seq(S.self)
        S.n, S.arr = h.n(S.l), h.arr(S.l)
        S.x = v.t
        S.p = h.sup(S.x)
        S.pl, S.pn, S.parr = kids(h, S.p)
        S.there = any_keyeq(h, S.l, S.x, SI)
        STPrec.bind(self, S)
    def choose(self, e, S):
        return "with a parent" if e.fork(S.p != 0, "it has a parent") else "no parent"
    def pre(self, S):
        h, x = S.h0, S.x
        yield "it is an object", x > 0
        yield "has a list of entries", z3.And(S.l > 0, S.l < h.nxt)
        yield "the class above is set", S.up != 0
        yield from entries_ok(S, h, S.n, S.arr)
        yield "no other entry equals it", only(S, h, S.n, S.arr, x)
        if S.case == "no parent":
            yield "it has no parent", S.p == 0
        else:
            yield "it has a parent", z3.And(S.p != 0, S.p != x, S.pl > 0, S.pl < h.nxt, S.pl != S.l)
            yield from family(S, h, S.p)
            yield "no other sibling equals it", only(S, h, S.pn, S.parr, x)
            yield "it is in its parent's list", isin(S, x, S.pn, S.parr, "px")
            yield "siblings name the parent", alli(S.pn, S.parr, lambda j, y: h.sup(y) == S.p)
    def raises(self, S): return z3.Not(S.there)
    def modifies(self, S):
        h, x = S.h0, S.x
        m = S.member("l", S.n, S.arr)
        sib = S.member("sib", S.pn, S.parr) if S.case == "with a parent" else lambda r: z3.BoolVal(False)
        lk = lambda r: z3.Or(r == x, z3.And(m(r), h.sup(r) == 0), sib(r))
        w = lambda r: z3.Or(r == x, z3.And(m(r), S.top))
        c = lambda r: z3.And(S.top, r == S.self)
        return {"_values": [S.l] if S.case == "no parent" else [S.l, S.pl], "_values#": [S.l] if S.case == "no parent" else [S.l, S.pl], "super_instance": [x],
                "fol": lk, "prev": lk, "intier": m, "tiername": m, "_within": w, "has_within": w, "_contains": c, "has_contains": c}
    def post(self, S):
        a, h, t, x = S.h0, S.h1, S.self, S.x
        n1, a1 = h.n(S.l), h.arr(S.l)
        for lbl, f in without(S, S.n, S.arr, n1, a1, x, "l"): yield lbl, f
        yield from unlinked(S, x)
        if S.case == "with a parent": yield "it has no parent", z3.And(h.sup(x) == 0, h.haswithin(x), h.within(x) == 0)
        else: yield "it has no parent", h.sup(x) == 0
        yield from in_tier(S, h, n1, a1, t)
        yield from root_links(S, a, h, n1, a1)
        yield "on top every entry is within this tier", z3.Implies(S.top, alli(n1, a1, lambda j, y: z3.And(h.haswithin(y), h.within(y) == t)))
        if S.case == "with a parent":
            q1, b1 = h.n(S.pl), h.arr(S.pl)
            for lbl, f in without(S, S.pn, S.parr, q1, b1, x, "rm"): yield "parent's list: " + lbl, f
            for lbl, f in links(S, h, q1, b1): yield "parent's list: " + lbl, f


def units():
    out = [PTPrec(), STPrec()]
    for k in (ST, SPT): out += [SetSequenceList(k), SetSequenceList(k, as_ref=False, variant="[list]", assume_at_calls=False)]
    return out + [STPop(c) for c in STPop.CASES]
