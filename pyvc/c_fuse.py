"""Contracts: adding lists, assigning children, fusing neighbours (C02 C03 C07 C14)."""
from spec import *
from c_list import ListC, any_keyeq, tkey, without
from c_rel import kids, family, only, loose, unlinked, Cased, LRemove, OWN, SetSubsetList
from c_tierlinks import STPop, entries_ok


class NoOverlaps(ListC):
    """_check_no_overlaps only looks (it may warn)"""
    name = "_check_no_overlaps"; props = ("C02",); public = False
    def pre(self, S):
        yield "there is an entry", S.n > 0
        yield "entries are objects", self.nonnull(S)
        yield "entries have times", self.timed(S)
    def make_result(self, e, S): return VB(e.fresh("overlaps", B))


class LAdd(ListC):
    """list + entries: a new list with the entries of both, none twice (entries of one class)"""
    name = "__add__"; exc = "ValueError"; props = ("C02", "C14")
    CASES = ("nothing added", "all new")
    allocs = True; alloc_fields = ("_values", "_values#", "entry_class", "tag")
    as_ref = True; opaque_order = True
    def __init__(self, ek=SI, case=None, **kw):
        super().__init__(ek, **kw)
        self.case = case
        if case: self.variant += f"[{case}]"
        if not self.as_ref: self.variant += "[list]"
    def instantiate(self, e, env, heap, mode):
        S = super().instantiate(e, env, heap, mode)
        if S is not None: S.case = self.case
        return S
    def allocating(self, S): return S.case != "nothing added"
    def args(self, e):
        if self.as_ref: return [e_ref(e, "other", SL, self.ek)]
        n = e.fresh("n", I); e.assume(n >= 0)
        return [e.from_arr(n, e.fresh("given", z3.ArraySort(I, I)), self.ek)]
    def bind(self, S):
        if not isinstance(S.a[0], (VRef, VLst, VCell)): return False
        if isinstance(S.a[0], VRef) and S.a[0].k != SL: return False
        l = S.e.as_list(S.a[0])
        xs = l.items if l.items is not None else [l.f(z3.Int("j"))]
        if any(not isinstance(x, VRef) or x.k not in (SI, SP) for x in xs): return False
        if xs: S.ek = xs[0].k
        S.m, S.g = S.e.materialize(l)
        S.ec = S.h0.ec(S.self)
    def choose(self, e, S):
        return "nothing added" if e.fork(S.m == 0, "nothing is added") else "all new"
    def pre(self, S):
        h = S.h0
        if S.case == "nothing added":
            yield "nothing is added", S.m == 0
            return
        t = h.tag(S.g[0])
        yield "something is added", S.m > 0
        yield "entries are objects", self.nonnull(S)
        yield "entries have times", self.timed(S)
        yield "entries are distinct", distinct(S, S.n, S.arr, "mine")
        yield "added are objects", alli(S.m, S.g, lambda j, x: z3.And(x > 0, x < h.nxt))
        yield "added have times", self.timed(S, S.m, S.g)
        yield "added are distinct", distinct(S, S.m, S.g, "added")
        yield "no added one equals an entry", alli(S.m, S.g, lambda j, x: z3.Not(any_keyeq(h, S.self, x, S.ek)))
        yield "entries are of the list's class", alli(S.n, S.arr, lambda j, x: h.tag(x) == S.ec)
        yield "an empty list has no class or fits", z3.Implies(S.n > 0, S.ec != 0)
        yield "classes that fit are equal", z3.Implies(z3.And(S.ec != 0, z3.Or(sub(S.ec, t), sub(t, S.ec))), S.ec == t)
    def raises(self, S):
        if S.case == "nothing added": return None
        h = S.h0
        t = h.tag(S.g[0])
        return z3.Or(z3.Not(alli(S.m, S.g, lambda j, x: h.tag(x) == t)), z3.And(S.ec != 0, z3.Not(z3.Or(sub(S.ec, t), sub(t, S.ec)))))
    def modifies(self, S):
        return {} if S.case == "nothing added" else {"entry_class": [S.self]}
    def make_result(self, e, S):
        if S.case == "nothing added": return VRef(S.self, SL, S.ek, True)
        r = e.fresh("sum", I)
        S.r = r
        return VRef(r, SL, S.ek, True)
    def post(self, S):
        a, h = S.h0, S.h1
        if S.mode == "prove":
            if not isinstance(S.res, VRef): yield "a list comes back", z3.BoolVal(False); return
            r = S.res.t
        else: r = S.self if S.case == "nothing added" else S.r
        if S.case == "nothing added":
            yield "the list itself comes back", r == S.self
            return
        n1, a1 = h.n(r), h.arr(r)
        t = a.tag(S.g[0])
        yield "a new list comes back", z3.And(r >= a.nxt, r < h.nxt)
        yield "as many as both have", n1 == S.n + S.m
        yield "in time order", sorted_by(n1, a1, tkey(h, S.ek))
        yield "no entry twice", distinct(S, n1, a1, "new")
        yield "classes", z3.And(h.ec(r) == t, h.ec(S.self) == t)
        yield "nothing of the list is lost", included(S, S.n, S.arr, n1, a1, "fw1")
        yield "nothing added is lost", included(S, S.m, S.g, n1, a1, "fw2")
        mine, added = S.member("mine", S.n, S.arr), S.member("added", S.m, S.g)
        yield "nothing else is there", alli(n1, a1, lambda j, x: z3.Or(mine(x), added(x)))


class SubsetListSet(SetSubsetList):
    """subset_list=: as set_subset_list"""
    name = "subset_list="; exc = "Exception"
    props = ("C01", "C02", "C03", "C11", "C14")
    def loop_candidates(self, e, hl, fields, it): return self.frame_candidates(e, self.S, hl, fields)


class Fuse(Cased):
    """fuse_rightwards: the interval takes over the end and the children of the next one, which goes"""
    recv = SI; name = "fuse_rightwards"; props = ("C07",); assume_at_calls = False
    CASES = ("edge", "free", "parent", "top tier", "tier and parent")
    QUIET = ("edge",)
    opaque_order = True
    near, back, edge = "fol", "prev", "_end"
    last = other_kids = None      # the one beyond is the edge; the other has children (None: either)
    budget = 600
    def __init__(self, case=None, **kw):
        super().__init__(case, **kw)
        self.may_only_raise = case == "edge"
        self.deep = self.near == "prev" and bool(self.other_kids) and not self.last and case != "top tier"
        if self.last is not None:
            self.variant = f"[{case}, {'next to the edge' if self.last else 'inside'}, {'children' if self.other_kids else 'no children'}]"
    def args(self, e): return [VLabFun(e.freshfun("label_fun", Lab, Lab, Lab))]
    def bind(self, S):
        h = S.h0
        S.F = S.a[0].fn
        S.x = S.self
        S.y = h._a(self.near, S.x)
        S.z = h._a(self.near, S.y)
        S.t, S.p = h.intier(S.x), h.sup(S.x)
        S.tl = h.seq(S.t)
        S.tn, S.ta = h.n(S.tl), h.arr(S.tl)
        S.pl, S.pn, S.pa = kids(h, S.p)
        S.xl, S.xn, S.xa = kids(h, S.x)
        S.yl, S.yn, S.ya = kids(h, S.y)
        lx, ly = h.label(S.x), h.label(S.y)
        S.lab = S.F(lx, ly) if self.near == "fol" else S.F(ly, lx)
        S.first, S.second = (S.x, S.y) if self.near == "fol" else (S.y, S.x)
        S.up = sel(h.d["c.superset_class"], h.tag(S.x))
        S.want = sel(h.d["c.subset_class"], h.tag(S.x))
        S.ttop = sub(h._a("t.superset_class", S.t), S.e.cls("Top").t)
    def raises(self, S): return S.h0.label(S.y) == S.lit(HASH)
    def pre(self, S):
        h, x, y, z = S.h0, S.x, S.y, S.z
        H_ = S.lit(HASH)
        yield "there is a neighbour", z3.And(y > 0, y < h.nxt, y != x)
        if S.case == "edge":
            yield "which is the edge", h.label(y) == H_
            return
        yield "which is not the edge", z3.And(h.label(y) != H_, h.label(x) != H_, h.tag(x) == h.tag(y), h._a(self.back, y) == x)
        yield "the one beyond is another", z3.And(z > 0, z < h.nxt, z != x, z != y, z3.Implies(h.label(z) != H_, h._a(self.back, z) == y))
        if self.last is not None:
            yield "the one beyond", h.label(z) == H_ if self.last else h.label(z) != H_
            yield "the other's children", S.yn > 0 if self.other_kids else S.yn == 0
        yield "both have times", z3.And(h.timed(x), h.timed(y))
        other = "_start" if self.near == "fol" else "_end"
        yield "and differ in the kept time", h._a(other, x) != h._a(other, y)
        yield "the new label is not '#'", S.lab != H_
        # children
        yield "both have lists", z3.And(S.xl > 0, S.xl < h.nxt, S.yl > 0, S.yl < h.nxt, S.xl != S.yl)
        yield "a class is defined for children", S.want != 0
        for who, l, n, a, s in (("its", S.xl, S.xn, S.xa, x), ("the other's", S.yl, S.yn, S.ya, y)):
            yield f"{who} children", alli(n, a, lambda j, c: z3.And(c > 0, c < h.nxt, h.sup(c) == s, h.timed(c), h.label(c) != H_, h.tag(c) == h.ec(l), h.tag(c) != h.tag(x), c != z, sub(h.tag(c), S.want)))
            yield f"{who} children are distinct", distinct(S, n, a, "kids" + who)
            yield f"{who} class", z3.Implies(n > 0, z3.And(h.ec(l) != 0, h.sup(a[0]) == s))
        yield "one class", z3.Implies(z3.And(h.ec(S.xl) != 0, h.ec(S.yl) != 0), h.ec(S.xl) == h.ec(S.yl))
        a, b = qv("a"), qv("b")
        yield "no two of the other's children are equal", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < S.yn, 0 <= b, b < S.yn, keyeq(h, S.ya[a], S.ya[b], SI)), a == b), patterns=[z3.MultiPattern(S.ya[a], S.ya[b])])
        yield "no child of one equals one of the other", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < S.xn, 0 <= b, b < S.yn), z3.And(S.xa[a] != S.ya[b], z3.Not(keyeq(h, S.xa[a], S.ya[b], SI)))), patterns=[z3.MultiPattern(S.xa[a], S.ya[b])])
        # where it is
        if S.case in ("free", "parent"): yield "not in a tier", S.t == 0
        else:
            yield "both are in the tier", z3.And(S.t > 0, S.t < h.nxt, h.intier(y) == S.t, S.tl > 0, S.tl < h.nxt, S.tl != S.xl, S.tl != S.yl)
            yield "the class above is set", h._a("t.superset_class", S.t) != 0
            for lbl, f in entries_ok(S, h, S.tn, S.ta, "tents"): yield "tier: " + lbl, f
            yield "tier: entries are of its class", alli(S.tn, S.ta, lambda j, e: h.tag(e) == h.tag(x))
            yield "tier: no other entry equals the other", only(S, h, S.tn, S.ta, y)
            yield from self.adjacent(S, S.tn, S.ta, "t")
            if S.case == "top tier":
                yield "its class is a top class", S.up == S.e.cls("Top").t
                yield "tier: no entry has a parent", alli(S.tn, S.ta, lambda j, e: h.sup(e) == 0)
                for lbl, f in links(S, h, S.tn, S.ta): yield "tier: " + lbl, f
        if S.case in ("free", "top tier"): yield "no parent", z3.And(S.p == 0, h.sup(y) == 0)
        else:
            yield "its class is not a top class", S.up != S.e.cls("Top").t
            yield "both have one parent", z3.And(S.p > 0, S.p < h.nxt, h.sup(y) == S.p, S.p != x, S.p != y, S.p != z, S.pl > 0, S.pl < h.nxt, S.pl != S.xl, S.pl != S.yl, h.tag(S.p) != h.tag(x))
            for lbl, f in family(S, h, S.p, "pfam"): yield lbl, f
            yield "siblings name it", alli(S.pn, S.pa, lambda j, c: z3.And(h.sup(c) == S.p, h.tag(c) == h.tag(x), c > 0, c < h.nxt))
            yield "no other sibling equals the other", only(S, h, S.pn, S.pa, y)
            yield from self.adjacent(S, S.pn, S.pa, "p")
            for lbl, f in links(S, h, S.pn, S.pa): yield "siblings: " + lbl, f
            if S.case == "tier and parent": yield "lists differ", S.tl != S.pl
    def adjacent(self, S, n, arr, tag):
        i = S.e.at_hint(S.e.fresh("i" + tag, I))
        yield "they are next to each other", z3.And(0 <= i, i + 1 < n, arr[i] == S.first, arr[i + 1] == S.second)
        S.e.at_hint(i + 1)
        j = i if self.near == "fol" else i + 1
        k = i + 1 if self.near == "fol" else i
        setattr(S, "i" + tag, i)
    def modifies(self, S):
        if S.case == "edge": return {}
        h, x, y, z = S.h0, S.x, S.y, S.z
        kx, ky = S.member("xk", S.xn, S.xa), S.member("yk", S.yn, S.ya)
        kid = lambda r: z3.Or(kx(r), ky(r))
        tier, par = S.case in ("top tier", "tier and parent"), S.case in ("parent", "tier and parent")
        te = S.member("te", S.tn, S.ta) if tier else lambda r: z3.BoolVal(False)
        sib = S.member("sib", S.pn, S.pa) if par else lambda r: z3.BoolVal(False)
        top = lambda r: z3.And(te(r), S.ttop) if tier else z3.BoolVal(False)
        lk = lambda r: z3.Or(r == x, r == y, r == z, kid(r), z3.And(te(r), h.sup(r) == 0), sib(r))
        out = {self.edge: [x], self.edge + "?": [x], "label": [x], "fol": lk, "prev": lk, "_subset_list": [x],
               "entry_class": [S.xl if self.near == "fol" else S.yl],
               "super_instance": lambda r: z3.Or(kid(r), r == y), "_within": lambda r: z3.Or(kid(r), r == y, top(r)), "has_within": lambda r: z3.Or(kid(r), r == y, top(r)),
               "_values": [S.yl] + ([S.tl] if tier else []) + ([S.pl] if par else [])}
        out["_values#"] = out["_values"]
        c = (lambda r: z3.Or(r == x, z3.And(S.ttop, r == S.t))) if tier else [x]
        out["_contains"] = out["has_contains"] = c
        if tier: out["intier"] = out["tiername"] = te
        return out
    def post(self, S):
        a, h, x, y, z = S.h0, S.h1, S.x, S.y, S.z
        H_ = S.lit(HASH)
        yield "it spans both", z3.And(h._a(self.edge, x) == a._a(self.edge, y), z3.Not(h._a(self.edge + "?", x)))
        yield "its label is made of both, in time order", h.label(x) == S.lab
        yield "the one beyond is the neighbour now", z3.If(a.label(z) != H_, z3.And(h._a(self.near, x) == z, h._a(self.back, z) == x), h.label(h._a(self.near, x)) == H_)
        l = h.sub(x)
        n1, a1 = h.n(l), h.arr(l)
        yield "children: as many as both had", n1 == S.xn + S.yn
        yield "children: in time order", sorted_by(n1, a1, tkey(h, SI))
        yield "children: its own are kept", included(S, S.xn, S.xa, n1, a1, "kx")
        yield "children: the other's are taken", included(S, S.yn, S.ya, n1, a1, "ky")
        yield "children: name it as parent", alli(n1, a1, lambda j, c: z3.And(h.sup(c) == x, h.haswithin(c), h.within(c) == x))
        for lbl, f in links(S, h, n1, a1): yield "children: " + lbl, f
        yield "the other has none left", h.n(a.sub(y)) == 0
        if S.case in ("top tier", "tier and parent"):
            n2, a2 = h.n(S.tl), h.arr(S.tl)
            for lbl, f in without(S, S.tn, S.ta, n2, a2, y, "t"): yield "tier: " + lbl, f
            if S.case == "top tier":
                for lbl, f in links(S, h, n2, a2): yield "tier: " + lbl, f
        if S.case in ("parent", "tier and parent"):
            n3, a3 = h.n(S.pl), h.arr(S.pl)
            for lbl, f in without(S, S.pn, S.pa, n3, a3, y, "p"): yield "siblings: " + lbl, f
            for lbl, f in links(S, h, n3, a3): yield "siblings: " + lbl, f
            yield "the other has no parent", h.sup(y) == 0
        if S.case != "free":
            for f in ("fol", "prev"): yield f"the other's {f} is '#'", h.label(h._a(f, y)) == H_


class FuseLeft(Fuse):
    """fuse_leftwards: likewise with the interval before"""
    name = "fuse_leftwards"
    near, back, edge = "prev", "fol", "_start"
    def make_result(self, e, S): return VRef(S.x, SI, None, True)


def units():
    out = []
    for ek in (SI, SP):
        out.append(NoOverlaps(ek))
        out += [LAdd(ek, "nothing added"), LAdd(ek, "all new"), LAdd(ek, "all new", as_ref=False, assume_at_calls=False)]
    out += [SubsetListSet(case="taking", variant="[taking]", assume_at_calls=False), SubsetListSet(), SubsetListSet(as_ref=False, variant="[list]", assume_at_calls=False)]
    for c in (Fuse, FuseLeft):
        out += [c("edge"), c("free")] + [c(case, last=a, other_kids=b) for case in c.CASES[2:] for a in (True, False) for b in (True, False)]
    return out
