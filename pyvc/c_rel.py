"""Contracts: removing, adding and replacing children (C01 C02 C03 C14)."""
from spec import *
from c_list import ListC, without, any_keyeq, tkey
from c_links import linkable, link_candidates, edges_fresh


def kids(h, p):
    l = h.sub(p)
    return l, h.n(l), h.arr(l)


def family(S, h, p, tag="fam"):
    """p's list of children can be linked: entries are distinct, of one class, none labelled '#'"""
    l, n, arr = kids(h, p)
    yield "parent has a list of children", z3.And(l > 0, l < h.nxt)
    yield "no sibling is labelled '#'", alli(n, arr, lambda j, x: h.label(x) != S.lit(HASH))
    yield "siblings are of one class", alli(n, arr, lambda j, x: h.tag(x) == h.tag(arr[0]))
    yield "siblings are distinct", distinct(S, n, arr, tag)


def only(S, h, n, arr, x, ek=SI):
    """no entry but x itself equals x in times and label"""
    return alli(n, arr, lambda j, y: z3.Implies(keyeq(h, y, x, ek), y == x))


def loose(S, x):
    """x has no neighbours and no parent any more"""
    a, b = S.h0, S.h1
    H_ = S.lit(HASH)
    yield "has no parent", b.sup(x) == 0
    yield "is within nothing", z3.And(b.haswithin(x), b.within(x) == 0)
    yield from unlinked(S, x)


def unlinked(S, x):
    a, b = S.h0, S.h1
    H_ = S.lit(HASH)
    for m in ("fol", "prev"):
        y = b._a(m, x)
        yield f"{m} is a new '#'", z3.Implies(a.label(x) != H_, z3.And(y >= a.nxt, y < b.nxt, b.label(y) == H_))


OWN = ("super_instance", "_within", "has_within", "fol", "prev")


class Cased(Contract):
    """A contract by cases; each case is one unit, call sites decide the case first."""
    CASES = ()
    allocs = True
    alloc_fields = OBJ_FIELDS
    def __init__(self, case=None, **kw):
        super().__init__(**kw)
        self.case = case
        if case: self.variant = f"[{case}]"
    def instantiate(self, e, env, heap, mode):
        S = super().instantiate(e, env, heap, mode)
        if S is not None: S.case = self.case
        return S
    QUIET = ()     # cases in which nothing is created
    def allocating(self, S): return self.allocs and S.case not in self.QUIET
    def choose(self, e, S): raise NotImplementedError
    def conds(self, S): raise NotImplementedError


# ------------------------------------------------------------------ removing
class RemoveSuperset(Cased):
    """remove_superset: the interval leaves its parent's list"""
    recv = SI; name = "remove_superset"; props = ("C01", "C03")
    CASES = ("no parent", "listed", "not listed")
    QUIET = ("no parent",)
    def bind(self, S):
        h = S.h0
        S.x = S.self
        S.p = h.sup(S.x)
        S.l, S.n, S.arr = kids(h, S.p)
    def choose(self, e, S):
        if not e.fork(S.p != 0, "it has a parent"): return "no parent"
        return "listed" if e.fork(any_keyeq(S.h0, S.l, S.x, SI), "it is in its parent's list") else "not listed"
    def pre(self, S):
        h, x = S.h0, S.x
        c = S.case
        if c == "no parent":
            yield "it has no parent", S.p == 0
            return
        yield "it has a parent", z3.And(S.p != 0, S.p != x)
        yield "parent has a list", z3.And(S.l > 0, S.l < h.nxt)
        if c == "listed":
            yield from family(S, h, S.p)
            yield "no other sibling equals it", only(S, h, S.n, S.arr, x)
            yield "it is in its parent's list", isin(S, x, S.n, S.arr, "x")
        else:
            yield "it is not in its parent's list", z3.Not(any_keyeq(h, S.l, x, SI))
    def modifies(self, S):
        if S.case == "no parent": return {}
        out = {f: [S.x] for f in OWN}
        if S.case == "listed":
            m = S.member("kids", S.n, S.arr)
            out["fol"] = out["prev"] = lambda r: z3.Or(r == S.x, m(r))
            out["_values"] = out["_values#"] = [S.l]
        return out
    def post(self, S):
        if S.case == "no parent": return
        yield from loose(S, S.x)
        if S.case == "listed":
            h = S.h1
            n1, a1 = h.n(S.l), h.arr(S.l)
            for lbl, f in without(S, S.n, S.arr, n1, a1, S.x, "rm"): yield "parent's list: " + lbl, f
            for lbl, f in links(S, h, n1, a1): yield "parent's list: " + lbl, f


class RemoveFromSubsetList(Cased):
    """remove_from_subset_list(x): x leaves the list; nothing if it is not there"""
    recv = SI; name = "remove_from_subset_list"; props = ("C01", "C02", "C03")
    CASES = ("listed", "not listed")
    QUIET = ("not listed",)
    def args(self, e): return [e_ref(e, "x", SI)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k != SI: return False
        h = S.h0
        S.x, S.p = S.a[0].t, S.self
        S.l, S.n, S.arr = kids(h, S.p)
    def choose(self, e, S):
        return "listed" if e.fork(any_keyeq(S.h0, S.l, S.x, SI), "it is in the list") else "not listed"
    def pre(self, S):
        h, x = S.h0, S.x
        yield "it is an object", x > 0
        yield "has a list", z3.And(S.l > 0, S.l < h.nxt)
        if S.case == "listed":
            yield from family(S, h, S.p)
            yield "no other entry equals it", only(S, h, S.n, S.arr, x)
            yield "it is in the list", isin(S, x, S.n, S.arr, "x")
            yield "and names this parent", z3.And(h.sup(x) == S.p, x != S.p)
        else:
            yield "it is not in the list", z3.Not(any_keyeq(h, S.l, x, SI))
    def modifies(self, S):
        if S.case == "not listed": return {}
        return RemoveSuperset.modifies(self, S)
    def post(self, S):
        if S.case == "not listed": return
        yield from RemoveSuperset.post(self, S)


class LRemove(Cased):
    """SequenceList.remove(x) for intervals: x leaves the list, and its parent's list if that is another one"""
    recv = SL; ek = SI; name = "remove"; exc = "ValueError"; props = ("C01", "C02", "C03", "C14")
    CASES = ("no parent", "own list", "other list")
    QUIET = ("no parent", "absent")
    must_raise = True
    def args(self, e): return [e_ref(e, "x", SI)]
    def bind(self, S):
        v = S.a[0]
        if not isinstance(v, VRef) or v.k != SI: return False
        h = S.h0
        S.x = v.t
        S.p = h.sup(S.x)
        S.n, S.arr = h.n(S.self), h.arr(S.self)
        S.pl, S.pn, S.parr = kids(h, S.p)
        S.there = any_keyeq(h, S.self, S.x, SI)
    def choose(self, e, S):
        if not e.fork(S.p != 0, "it has a parent"): return "no parent"
        return "own list" if e.fork(S.pl == S.self, "the list is its parent's") else "other list"
    def pre(self, S):
        h, x = S.h0, S.x
        yield "it is an object", x > 0
        yield "entries are objects", alli(S.n, S.arr, lambda j, y: z3.And(y > 0, y < h.nxt))
        yield "no other entry equals it", only(S, h, S.n, S.arr, x)
        yield "entries are distinct", distinct(S, S.n, S.arr, "ents")
        if S.case == "no parent":
            yield "it has no parent", S.p == 0
            return
        yield "it has a parent", z3.And(S.p != 0, S.p != x, S.pl > 0, S.pl < h.nxt)
        if S.case == "own list":
            yield "the list is its parent's", S.pl == S.self
        else:
            yield "the list is not its parent's", S.pl != S.self
            yield from family(S, h, S.p)
            yield "no other sibling equals it", only(S, h, S.pn, S.parr, x)
            yield "it is in its parent's list", isin(S, x, S.pn, S.parr, "px")
    def raises(self, S): return z3.Not(S.there) if self.must_raise else None
    def modifies(self, S):
        out = {"_values": [S.self], "_values#": [S.self]}
        if S.case == "no parent": return out
        out.update({f: [S.x] for f in OWN})
        if S.case == "other list":
            m = S.member("kids", S.pn, S.parr)
            out["fol"] = out["prev"] = lambda r: z3.Or(r == S.x, m(r))
            out["_values"] = out["_values#"] = [S.self, S.pl]
        return out
    def post(self, S):
        h = S.h1
        for lbl, f in without(S, S.n, S.arr, h.n(S.self), h.arr(S.self), S.x, "l"): yield lbl, z3.Implies(S.there, f) if not self.must_raise else f
        yield from self.released(S)
    def released(self, S):
        h = S.h1
        if S.case == "no parent": return
        yield from loose(S, S.x)
        if S.case == "other list":
            n1, a1 = h.n(S.pl), h.arr(S.pl)
            for lbl, f in without(S, S.pn, S.parr, n1, a1, S.x, "rm"): yield "parent's list: " + lbl, f
            for lbl, f in links(S, h, n1, a1): yield "parent's list: " + lbl, f


class LRemoveP(ListC):
    """SequenceList.remove(x) for points: one entry equal to x leaves the list"""
    name = "remove"; exc = "ValueError"; props = ("C02", "C14"); must_raise = True
    def __init__(self, **kw): super().__init__(SP, **kw); self.assume_at_calls = False
    def args(self, e): return [e_ref(e, "x", SP)]
    def bind(self, S):
        S.x = S.a[0].t
        S.there = any_keyeq(S.h0, S.self, S.x, SP)
    def pre(self, S):
        yield "entries are objects", self.nonnull(S)
    def raises(self, S): return z3.Not(S.there) if self.must_raise else None
    def modifies(self, S): return {"_values": [S.self], "_values#": [S.self]}
    def post(self, S):
        h, n0, a0 = S.h0, S.n, S.arr
        n1, a1 = S.h1.n(S.self), S.h1.arr(S.self)
        i, j, k = qv("i"), qv("j"), qv("k")
        yield "one entry less", n1 == z3.If(S.there, n0 - 1, n0)
        first = z3.And(0 <= i, i < n0, keyeq(h, a0[i], S.x, SP), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(keyeq(h, a0[k], S.x, SP))), patterns=[a0[k]]))
        yield "others stay in order", z3.ForAll([i], z3.Implies(first, z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), a1[j] == a0[j])),
                                                                              z3.ForAll([j], z3.Implies(z3.And(i <= j, j < n1), a1[j] == a0[j + 1])))), patterns=[a0[i]])
        yield "nothing changes if there is none", z3.Implies(z3.Not(S.there), alli(n0, a0, lambda j, y: a1[j] == y))


class LPopP(LRemoveP): name = "pop"; must_raise = False


class LPop(LRemove):
    """SequenceList.pop(x): as remove, but nothing happens when x is not there"""
    name = "pop"; must_raise = False; props = ("C01", "C02", "C03")
    CASES = ("absent", "no parent", "own list", "other list")
    def choose(self, e, S):
        if not e.fork(S.there, "it is in the list"): return "absent"
        return super().choose(e, S)
    def pre(self, S):
        if S.case == "absent":
            yield "it is an object", S.x > 0
            yield "it is not in the list", z3.Not(S.there)
            return
        yield "it is in the list", isin(S, S.x, S.n, S.arr, "x")
        yield from super().pre(S)
    def modifies(self, S): return {} if S.case == "absent" else super().modifies(S)
    def post(self, S):
        if S.case != "absent": yield from super().post(S)


# ------------------------------------------------------------------ what an interval or a tier contains
class SetContainsL(Contract):
    """contains= with a list of entries: they are all within this object"""
    name = "contains="; props = ("C03", "C11")
    def __init__(self, recv=None):
        super().__init__(recv)
        self.ek = SP if self.recv == SPT else SI
    def args(self, e): return [e_ref(e, "new", SL, self.ek)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k != SL: return False
        S.l = S.a[0].t
        S.n, S.arr = S.h0.n(S.l), S.h0.arr(S.l)
    def pre(self, S):
        yield "it is a list", S.l > 0
        yield "entries are objects", alli(S.n, S.arr, lambda j, x: z3.And(0 < x, x < S.h0.nxt))
    def modifies(self, S):
        m = S.member("l", S.n, S.arr)
        return {"_contains": [S.self], "has_contains": [S.self], "_within": m, "has_within": m}
    def post(self, S):
        h = S.h1
        yield "contains that list", z3.And(h._a("has_contains", S.self), h.contains(S.self) == S.l)
        yield "each entry is within this object", alli(S.n, S.arr, lambda j, x: z3.And(h.haswithin(x), h.within(x) == S.self))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        return self.frame_candidates(e, S, hl, fields) + [
            ("done are within", lambda k, h, env: alli(S.n, S.arr, lambda j, x: z3.Implies(j < k, z3.And(h.haswithin(x), h.within(x) == S.self))))]


# ------------------------------------------------------------------ adding
def inserted(S, n0, a0, n1, a1, x, tag):
    """list 1 is list 0 with x added, order kept"""
    if S.mode == "assume":
        i = S.memo.get(("ins", tag))
        if i is None: i = S.memo[("ins", tag)] = S.e.at_hint(S.e.fresh("ins", I))
        yield "one entry more", z3.And(n1 == n0 + 1, 0 <= i, i <= n0, a1[i] == x)
        for f in S.e.spliced(n0, a0, a1, i): yield "others keep their order", f
    else:
        i, j = qv("i"), qv("j")
        yield "one entry more", n1 == n0 + 1
        yield "it is in the list", isin(S, x, n1, a1, "x")
        yield "others keep their order", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1, a1[i] == x),
                z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), a1[j] == a0[j])),
                       z3.ForAll([j], z3.Implies(z3.And(i < j, j < n1), a1[j] == a0[j - 1])))), patterns=[a1[i]])


class AppendSubsetList(Cased):
    """append_subset_list(x): x becomes a child, at its place in time"""
    recv = SI; name = "append_subset_list"; props = ("C01", "C02", "C03", "C11", "C14")
    CASES = ("equal entry there", "no parent", "named already", "other parent")
    QUIET = ("equal entry there",)
    def args(self, e): return [e_ref(e, "x", SI)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k != SI: return False
        h = S.h0
        S.x, S.p = S.a[0].t, S.self
        S.l, S.n, S.arr = kids(h, S.p)
        S.q = h.sup(S.x)
        S.ql, S.qn, S.qarr = kids(h, S.q)
        S.dup = any_keyeq(h, S.l, S.x, SI)
        S.want = sel(h.d["c.subset_class"], h.tag(S.p))
    def choose(self, e, S):
        if e.fork(S.dup, "an equal entry is there"): return "equal entry there"
        if not e.fork(S.q != 0, "it has a parent"): return "no parent"
        return "named already" if e.fork(S.q == S.p, "it names this parent") else "other parent"
    def fits(self, S): return sub(S.h0.tag(S.x), S.want)
    def raises(self, S): return z3.Not(self.fits(S))
    def pre(self, S):
        h, x, p = S.h0, S.x, S.p
        yield "it is an object", z3.And(x > 0, x != p)
        yield "has a list", z3.And(S.l > 0, S.l < h.nxt)
        yield "a class is defined for children", S.want != 0
        if S.case == "equal entry there":
            yield "an equal entry is there", S.dup
            return
        yield "no equal entry is there", z3.Not(S.dup)
        yield from family(S, h, p)
        yield "children have times", alli(S.n, S.arr, lambda j, y: h.timed(y))
        yield "it has times", h.timed(x)
        yield "children are in time order", sorted_by(S.n, S.arr, tkey(h, SI))
        yield "it is not labelled '#'", h.label(x) != S.lit(HASH)
        yield "children and it are of one class", z3.And(alli(S.n, S.arr, lambda j, y: h.tag(y) == h.tag(x)), z3.Or(h.ec(S.l) == 0, h.ec(S.l) == h.tag(x)))
        up = sel(h.d["c.superset_class"], h.tag(x))
        yield "the classes name each other", z3.Implies(self.fits(S), z3.And(up != 0, sub(h.tag(p), up)))
        yield "it is not a child yet", alli(S.n, S.arr, lambda j, y: y != x)
        if S.case == "no parent":
            yield "it has no parent", S.q == 0
        elif S.case == "named already":
            yield "it names this parent", S.q == p
        else:
            yield "it has another parent", z3.And(S.q != 0, S.q != p, S.q != x, S.ql != S.l, S.ql > 0, S.ql < h.nxt)
            for lbl, f in family(S, h, S.q, "qfam"): yield "old parent: " + lbl, f
            yield "no other old sibling equals it", only(S, h, S.qn, S.qarr, x)
            yield "it is in its old parent's list", isin(S, x, S.qn, S.qarr, "qx")
            m = S.member("l", S.n, S.arr)
            yield "no child has two parents", alli(S.qn, S.qarr, lambda j, y: z3.Not(m(y)))
    def modifies(self, S):
        if S.case == "equal entry there": return {}
        m = S.member("l", S.n, S.arr)
        mine = lambda r: z3.Or(r == S.x, m(r))
        out = {"_values": [S.l], "_values#": [S.l], "entry_class": [S.l], "super_instance": [S.x], "_within": mine, "has_within": mine,
               "_contains": [S.p], "has_contains": [S.p], "fol": mine, "prev": mine, "tag": [S.x]}
        if S.case == "other parent":
            m2 = S.member("ql", S.qn, S.qarr)
            out["fol"] = out["prev"] = lambda r: z3.Or(r == S.x, m(r), m2(r))
            out["_values"] = out["_values#"] = [S.l, S.ql]
        return out
    def post(self, S):
        if S.case == "equal entry there": return
        a, h, x, p = S.h0, S.h1, S.x, S.p
        n1, a1 = h.n(S.l), h.arr(S.l)
        yield from inserted(S, S.n, S.arr, n1, a1, x, "ins")
        yield "in time order", sorted_by(n1, a1, tkey(h, SI))
        yield "no child twice", distinct(S, n1, a1, "new")
        yield "it names this parent", h.sup(x) == p
        yield "every child is within this interval", alli(n1, a1, lambda j, y: z3.And(h.haswithin(y), h.within(y) == p))
        yield "which contains the list", z3.And(h.contains(p) == S.l, h._a("has_contains", p))
        yield "its class stays", z3.And(h.tag(x) == a.tag(x), h.ec(S.l) == a.tag(x))
        yield from links(S, h, n1, a1)
        if S.case == "other parent":
            qn1, qa1 = h.n(S.ql), h.arr(S.ql)
            for lbl, f in without(S, S.qn, S.qarr, qn1, qa1, x, "rm"): yield "old parent: " + lbl, f
            for lbl, f in links(S, h, qn1, qa1): yield "old parent: " + lbl, f


class SetSuperInstance(AppendSubsetList):
    """set_super_instance(p): the interval becomes a child of p and leaves its old parent"""
    name = "set_super_instance"
    CASES = ("listed already", "no parent", "other parent")
    QUIET = ("listed already",)
    def args(self, e): return [e_ref(e, "p", SI)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k != SI: return False
        h = S.h0
        S.x, S.p = S.self, S.a[0].t
        S.l, S.n, S.arr = kids(h, S.p)
        S.q = h.sup(S.x)
        S.ql, S.qn, S.qarr = kids(h, S.q)
        S.dup = any_keyeq(h, S.l, S.x, SI)
        S.want = sel(h.d["c.subset_class"], h.tag(S.p))
        S.up = sel(h.d["c.superset_class"], h.tag(S.x))
    def choose(self, e, S):
        if e.fork(S.q != 0, "it has a parent"): return "other parent"
        return "listed already" if e.fork(S.dup, "an equal entry is there") else "no parent"
    def fits(self, S): return sub(S.h0.tag(S.p), S.up)
    def raises(self, S): return z3.Or(z3.Not(self.fits(S)), S.p == S.q) if S.case == "other parent" else z3.Not(self.fits(S))
    def pre(self, S):
        h, x, p = S.h0, S.x, S.p
        yield "a class is defined for parents", S.up != 0
        yield "the parent is an object", p > 0
        if S.case == "listed already":
            yield "it has no parent", z3.And(S.q == 0, x != p)
            yield "it is in the list", isin(S, x, S.n, S.arr, "x")
            yield "has a list", z3.And(S.l > 0, S.l < h.nxt)
            yield "a class is defined for children", S.want != 0
            yield "the classes name each other", z3.Implies(self.fits(S), sub(h.tag(x), S.want))
            return
        for lbl, f in super().pre(S):
            if lbl == "the classes name each other": f = z3.Implies(self.fits(S), sub(h.tag(x), S.want))
            elif lbl == "it has another parent": f = z3.And(S.q != 0, S.q != x, S.ql > 0, S.ql < h.nxt, z3.Implies(S.q != p, S.ql != S.l))
            elif lbl in ("no equal entry is there", "no child has two parents", "it is not a child yet"): f = z3.Implies(S.q != p, f)
            yield lbl, f
    def modifies(self, S):
        return {"super_instance": [S.x]} if S.case == "listed already" else super().modifies(S)
    def post(self, S):
        if S.case == "listed already": yield "it names this parent", S.h1.sup(S.x) == S.p
        else: yield from super().post(S)


class SetSubsetList(Contract):
    """set_subset_list(list): exactly the given intervals are the children; dropped ones are released.

    Case 'free': no given interval is another parent's child. Case 'taking': some are children of one other
    parent, and then all of that parent's children are given (fusion)."""
    recv = SI; name = "set_subset_list"; props = ("C01", "C02", "C03", "C04", "C11", "C14")
    allocs = True; alloc_fields = OBJ_FIELDS
    as_ref = True; opaque_order = True
    CASES = ("free", "taking"); case = "free"
    def instantiate(self, e, env, heap, mode):
        S = super().instantiate(e, env, heap, mode)
        if S is not None: S.case = self.case
        return S
    def choose(self, e, S): return "free" if e.fork(self.no_other(S), "none given has another parent") else "taking"
    def no_other(self, S): return alli(S.m, S.g, lambda j, x: z3.Or(S.h0.sup(x) == 0, S.h0.sup(x) == S.p))
    def args(self, e):
        if self.as_ref: return [e_ref(e, "new", SL, SI)]
        n = e.fresh("n", I); e.assume(n >= 0)
        return [e.from_arr(n, e.fresh("given", z3.ArraySort(I, I)), SI)]
    def bind(self, S):
        v = S.a[0]
        if isinstance(v, VNone): return False
        l = S.e.as_list(v)
        if l.items is not None:
            if any(not isinstance(x, VRef) or x.k != SI for x in l.items): return False
        else:
            x = l.f(z3.Int("j"))
            if not isinstance(x, VRef) or x.k != SI: return False
        S.m, S.g = S.e.materialize(l)
        h = S.h0
        S.p = S.self
        S.l, S.n, S.arr = kids(h, S.p)
        S.want = sel(h.d["c.subset_class"], h.tag(S.p))
    def pre(self, S):
        h, p = S.h0, S.p
        yield "a class is defined for children", S.want != 0
        yield "has a list", z3.And(S.l > 0, S.l < h.nxt)
        yield "children are other objects", alli(S.n, S.arr, lambda j, x: z3.And(x > 0, x < h.nxt, x != p))
        yield "given are other objects", alli(S.m, S.g, lambda j, x: z3.And(x > 0, x < h.nxt, x != p))
        yield "given have times", alli(S.m, S.g, lambda j, x: h.timed(x))
        yield "given are distinct", distinct(S, S.m, S.g, "given")
        yield "none given is labelled '#'", alli(S.m, S.g, lambda j, x: h.label(x) != S.lit(HASH))
        if S.case == "free":
            yield "none given has another parent", self.no_other(S)
            return
        q, ql, qn, qarr = self.taken(S)
        g = S.member("new", S.m, S.g)
        yield "there is one other parent", z3.And(q != 0, q != p, ql > 0, ql < h.nxt, ql != S.l, alli(S.m, S.g, lambda j, x: z3.And(x != q, z3.Or(h.sup(x) == 0, h.sup(x) == p, h.sup(x) == q))))
        yield "its children are given", alli(qn, qarr, lambda j, x: z3.And(g(x), h.sup(x) == q))
        yield "it lists its children", alli(S.m, S.g, lambda j, x: z3.Implies(h.sup(x) == q, self.qmember(S)(x)))
        for lbl, f in family(S, h, q, "qfam"): yield "other parent: " + lbl, f
        a, b = qv("a"), qv("b")
        yield "no two of them are equal", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < qn, 0 <= b, b < qn, keyeq(h, qarr[a], qarr[b], SI)), a == b), patterns=[z3.MultiPattern(qarr[a], qarr[b])])
    def qmember(self, S): return S.member("qkids", S.qn, S.qarr)
    def taken(self, S):
        """the other parent: that of some given interval with another parent"""
        h = S.h0
        if "q" not in S.memo:
            w = S.e.fresh("w", I)
            S.memo["w"] = w
            S.q = S.memo["q"] = h.sup(S.g[w])
            S.ql, S.qn, S.qarr = kids(h, S.q)
            other = lambda x: z3.And(h.sup(x) != 0, h.sup(x) != S.p)
            S.memo["wax"] = z3.Or(self.no_other(S), z3.And(0 <= w, w < S.m, other(S.g[w])))
            S.e.assume(S.memo["wax"])
            if S.mode == "assume": S.e.assume(z3.And(0 <= w, w < S.m, other(S.g[w])))
        return S.q, S.ql, S.qn, S.qarr
    def raises(self, S):
        h = S.h0
        return z3.Not(z3.And(alli(S.m, S.g, lambda j, x: sub(h.tag(x), S.want)), alli(S.m, S.g, lambda j, x: h.tag(x) == h.tag(S.g[0]))))
    def modifies(self, S):
        m, g = S.member("old", S.n, S.arr), S.member("new", S.m, S.g)
        both = lambda r: z3.Or(m(r), g(r))
        out = {f: both for f in OWN}
        out.update({"_subset_list": [S.p], "_contains": [S.p], "has_contains": [S.p]})
        if S.case == "taking": out.update({"_values": [S.ql], "_values#": [S.ql]})
        return out
    def post(self, S):
        a, h, p = S.h0, S.h1, S.p
        l = h.sub(p)
        n1, a1 = h.n(l), h.arr(l)
        yield "children are a new list", z3.And(l >= a.nxt, l < h.nxt)
        yield "as many as given", n1 == S.m
        yield "in time order", sorted_by(n1, a1, tkey(h, SI))
        yield from permuted(S, S.m, S.g, a1, "p", "every given one is a child", "every child was given")
        yield "no child twice", distinct(S, n1, a1, "new1")
        yield "order kept where it was right", z3.Implies(sorted_by(S.m, S.g, tkey(a, SI)), alli(S.m, S.g, lambda j, x: a1[j] == x))
        yield "entry class", h.ec(l) == z3.If(S.m > 0, a.tag(S.g[0]), 0)
        yield "children name this parent", alli(n1, a1, lambda j, x: h.sup(x) == p)
        yield "children are within it", alli(n1, a1, lambda j, x: z3.And(h.haswithin(x), h.within(x) == p))
        yield "which contains the list", z3.And(h.contains(p) == l, h._a("has_contains", p))
        for lbl, f in links(S, h, n1, a1): yield lbl, f
        g = S.member("new", S.m, S.g)
        if S.case == "taking":
            if S.mode == "prove":      # name the first child there could be
                t = S.e.fresh("left", I)
                S.e.assume(z3.And(t == h.at(S.ql, 0), h.sup(t) == h.sup(t)))
            yield "the other parent has no children left", h.n(S.ql) == 0
        yield "dropped children are released", alli(S.n, S.arr, lambda j, x: z3.Implies(z3.Not(g(x)), self.free(S, h, x)))
    def free(self, S, h, x):
        H_ = S.lit(HASH)
        out = [h.sup(x) == 0, h.haswithin(x), h.within(x) == 0]
        for f in ("fol", "prev"):
            y = h._a(f, x)
            out.append(z3.Implies(S.h0.label(x) != H_, z3.And(y >= S.h0.nxt, y < h.nxt, h.label(y) == H_)))
        return z3.And(out)
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        p = S.p
        l = e.as_list(it)
        n, arr = e.materialize(l)
        out = [c for c in self.frame_candidates(e, S, hl, fields) if S.case == "free" or "since entry" not in c[0] and not (c[0].startswith("_values") and c[0].endswith("stays"))]
        g = S.member("new", S.m, S.g)
        first = n.eq(S.n) or n.eq(hl.n(S.l))
        if e.debug: print("   loop over", n, "first" if first else "second")
        if S.case == "taking" and first:
            for v in list(e.env.values()):
                if isinstance(v, VRef) and v.k == SL and not v.t.eq(S.l) and not any(v is a for a in S.a):
                    out.append((f"local list {v.t} stays", lambda k, h, env, t=v.t: z3.And(h.arr(t) == hl.arr(t), h.n(t) == hl.n(t))))
            out.append(("other list stays", lambda k, h, env: z3.And(h.arr(S.ql) == S.qarr, h.n(S.ql) == S.qn)))
            out.append(("given have their parent", lambda k, h, env: alli(S.m, S.g, lambda j, x: h.sup(x) == S.h0.sup(x))))
        elif "super_instance" in fields:
            if S.case == "taking":
                q, ql = S.q, S.ql
                f = S.pos("qkids", S.qn, S.qarr)
                def left(k, h, env):
                    return alli(h.n(ql), h.arr(ql), lambda j, x: z3.And(0 <= f(x), f(x) < S.qn, S.qarr[f(x)] == x, h.sup(x) == q))
                def order(k, h, env):
                    a, b = qv("a"), qv("b")
                    x, y = h.at(ql, a), h.at(ql, b)
                    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < h.n(ql)), f(x) < f(y)), patterns=[z3.MultiPattern(x, y)])
                out.append(("left in the other list", left))
                out.append(("in their order", order))
                out.append(("waiting have their parent", lambda k, h, env: alli(n, arr, lambda j, x: z3.Implies(j >= k, h.sup(x) == S.h0.sup(x)))))
            else: out.append(("given have this parent or none", lambda k, h, env: alli(S.m, S.g, lambda j, x: z3.Or(h.sup(x) == 0, h.sup(x) == p))))
            out.append(("done name it", lambda k, h, env: alli(n, arr, lambda j, x: z3.Implies(j < k, h.sup(x) == p))))
        out.append(("dropped are free", lambda k, h, env: alli(S.n, S.arr, lambda j, x: z3.Implies(z3.Not(g(x)), self.free(S, h, x)))))
        if "fol" in fields:
            out.append(("done are free", lambda k, h, env: alli(S.n, S.arr, lambda j, x: z3.Implies(z3.And(j < k, z3.Not(g(x))), self.free(S, h, x)))))
        return out


def units():
    out = []
    for c in (RemoveSuperset, RemoveFromSubsetList, LRemove, LPop):
        out += [c(case) for case in c.CASES]
    out += [SetContainsL(k) for k in (SI, ST, SPT)]
    for c in (AppendSubsetList, SetSuperInstance): out += [c(case) for case in c.CASES]
    out += [SetSubsetList(case="taking", variant="[taking]", assume_at_calls=False), SetSubsetList(), SetSubsetList(as_ref=False, variant='[list]', assume_at_calls=False)]
    out += [LRemoveP(), LPopP()]
    return out
