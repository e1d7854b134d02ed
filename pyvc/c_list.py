"""Contracts: SequenceList (C02), for lists of intervals and of points."""
from spec import *
import npx


def tkey(h, ek):
    def key(x): return h.key0(x, ek)
    key.array = h.d["_time" if ek == SP else "_start"]
    return key


def tf(ek): return ("_time",) if ek == SP else ("_start", "_end")


class ListC(Contract):
    recv = SL
    props = ("C02",)
    def __init__(self, ek=SI, **kw):
        super().__init__(**kw)
        self.ek = ek
        self.variant = f"[{'points' if ek == SP else 'intervals'}]"
    def instantiate(self, e, env, heap, mode):
        S = State(e, env, heap, mode)
        vals = list(env.values())
        S.selfv = vals[0]
        S.self = vals[0].t
        S.ek = vals[0].ek or self.ek
        S.a = vals[1:]
        S.n, S.arr = heap.n(S.self), heap.arr(S.self)
        return S if self.bind(S) is not False else None
    def timed(self, S, n=None, arr=None):
        h = S.h0
        return alli(S.n if n is None else n, S.arr if arr is None else arr, lambda j, x: h.timed(x, S.ek))
    def nonnull(self, S):
        return alli(S.n, S.arr, lambda j, x: z3.And(x > 0, x < S.h0.nxt))


class LInit(ListC):
    name = "__init__"; exc = "ValueError"; props = ("C02", "C14")
    def setup(self, e, func):
        va = func.node.args.vararg
        if va is None: raise Unsupported("SequenceList takes no *args")
        n = e.fresh("n", I); arr = e.fresh("args", z3.ArraySort(I, I))
        e.assume(n >= 0)
        return {func.node.args.args[0].arg: e_ref(e, "self", SL, self.ek), va.arg: e.from_arr(n, arr, self.ek)}
    def bind(self, S):
        l = S.e.as_list(S.a[-1])
        if l.items is not None:
            if any(not isinstance(x, VRef) for x in l.items): return False
        elif not isinstance(l.f(z3.Int("j")), VRef): return False
        if l.items is not None and l.items and l.items[0].k in (SI, SP): S.ek = l.items[0].k
        if l.ek in (SI, SP): S.ek = l.ek
        S.an, S.aarr = S.e.materialize(l)
    def pre(self, S):
        h = S.h0
        yield "entries are objects", alli(S.an, S.aarr, lambda j, x: z3.And(x > 0, x < h.nxt))
        yield "entries have times", self.timed(S, S.an, S.aarr)
        yield "entries are distinct", distinct(S, S.an, S.aarr, "args")
    def raises(self, S):
        h = S.h0
        return z3.Not(alli(S.an, S.aarr, lambda j, x: h.tag(x) == h.tag(S.aarr[0])))
    def raise_mods(self, S): return self.modifies(S)      # the list under construction itself
    def modifies(self, S): return {"_values": [S.self], "_values#": [S.self], "entry_class": [S.self]}
    def post(self, S):
        h, l = S.h1, S.self
        yield "as many entries as given", h.n(l) == S.an
        yield "in time order", sorted_by(h.n(l), h.arr(l), tkey(h, S.ek))
        yield from permuted(S, S.an, S.aarr, h.arr(l), "p", "every given entry is in the list", "every entry of the list was given")
        yield "no entry twice", distinct(S, h.n(l), h.arr(l), "vals")
        yield "entry class", h.ec(l) == z3.If(S.an > 0, S.h0.tag(S.aarr[0]), 0)
        yield "order kept where it was right", z3.Implies(sorted_by(S.an, S.aarr, tkey(S.h0, S.ek)), alli(S.an, S.aarr, lambda j, x: h.at(l, j) == x))


class LSort(ListC):
    name = "_sort"; public = False
    def pre(self, S):
        yield "entries are objects", self.nonnull(S)
        yield "entries have times", self.timed(S)
        yield "entries are distinct", distinct(S, S.n, S.arr, "vals0")
    def modifies(self, S): return {"_values": [S.self], "_values#": [S.self]}
    def post(self, S):
        h, l = S.h1, S.self
        yield "same length", h.n(l) == S.n
        yield "in time order", sorted_by(h.n(l), h.arr(l), tkey(h, S.ek))
        yield from permuted(S, S.n, S.arr, h.arr(l), "p")
        yield "no entry twice", distinct(S, h.n(l), h.arr(l), "vals")
        yield "order kept where it was right", z3.Implies(sorted_by(S.n, S.arr, tkey(S.h0, S.ek)), alli(S.n, S.arr, lambda j, x: h.at(l, j) == x))


class LTimes(ListC):
    """starts / ends"""
    fld = 0
    def bind(self, S):
        f = tf(S.ek)
        S.f = f[0] if self.fld == 0 else f[-1]
    def result_def(self, S):
        h, l, f = S.h0, S.self, S.f
        return VLst(S.n, lambda j: VOptR(h._a(f + "?", h.at(l, j)), h._a(f, h.at(l, j))), np=True)
    def same_result(self, e, S, v, d):
        if not isinstance(v, (VLst, VCell)): return z3.BoolVal(False)
        return same_list(e, e.as_list(v), d)


def same_list(e, l, d, eq=None):
    j = qv("j")
    if l.items is not None:
        return z3.And(d.n == len(l.items), *[e.equal(x, e.elem(d, z3.IntVal(i))) for i, x in enumerate(l.items)])
    body = z3.Implies(z3.And(0 <= j, j < d.n), (eq or e.equal)(e.elem(l, j), e.elem(d, j)))
    return z3.And(l.n == d.n, z3.ForAll([j], body))


class LStarts(LTimes): name = "starts"
class LEnds(LTimes): name = "ends"; fld = 1


class LLabels(ListC):
    name = "labels"
    def result_def(self, S):
        h, l = S.h0, S.self
        return VLst(S.n, lambda j: VL(h.label(h.at(l, j))))
    same_result = LTimes.same_result


class LContains(ListC):
    name = "__contains__"
    def args(self, e): return [e_ref(e, "other", self.ek)]
    def bind(self, S):
        if not isinstance(S.a[0], VRef) or S.a[0].k not in (SI, SP): return False
        S.x = S.a[0].t
        S.ek = S.a[0].k
    def pre(self, S): yield "other is an object", S.x != 0
    def result_def(self, S):
        h, l = S.h0, S.self
        i = qv("i")
        return VB(z3.Exists([i], z3.And(0 <= i, i < S.n, keyeq(h, h.at(l, i), S.x, S.ek)), patterns=[h.at(l, i)]))
    def same_result(self, e, S, v, d):
        return e.truth(v) == d.t


def any_keyeq(h, l, x, ek, n=None, arr=None):
    i = qv("i")
    n = h.n(l) if n is None else n
    arr = h.arr(l) if arr is None else arr
    return z3.Exists([i], z3.And(0 <= i, i < n, keyeq(h, arr[i], x, ek)), patterns=[arr[i]])


class LAppend(ListC):
    """append(value) with shift and re_init off"""
    name = "append"; exc = "ValueError"; props = ("C02", "C14")
    def args(self, e): return [e_ref(e, "value", self.ek)]
    def bind(self, S):
        v = S.a[0]
        if not isinstance(v, VRef) or v.k not in (SI, SP): return False
        S.x, S.ek = v.t, v.k
        for o in S.a[1:]:
            if not (isinstance(o, VB) and z3.is_false(z3.simplify(o.t))): return False
        h = S.h0
        S.dup = any_keyeq(h, S.self, S.x, S.ek)
        S.ec = h.ec(S.self)
        S.clash = z3.And(S.ec != 0, z3.Not(z3.Or(sub(S.ec, h.tag(S.x)), sub(h.tag(S.x), S.ec))))
    def pre(self, S):
        h = S.h0
        yield "value is an object", S.x != 0
        yield "entries are objects", self.nonnull(S)
        yield "entries have times", self.timed(S)
        yield "value has times", h.timed(S.x, S.ek)
        yield "list is in time order", sorted_by(S.n, S.arr, tkey(h, S.ek))
        yield "entries are distinct", distinct(S, S.n, S.arr, "vals0")
    def raises(self, S): return z3.And(z3.Not(S.dup), S.clash)
    def modifies(self, S):
        return {"_values": [S.self], "_values#": [S.self], "entry_class": [S.self], "tag": [S.x]}
    def post(self, S):
        a, h, l, x = S.h0, S.h1, S.self, S.x
        n1, ar1 = h.n(l), h.arr(l)
        yield "an equal entry is not added again", z3.Implies(S.dup, z3.And(n1 == S.n, h.ec(l) == S.ec, h.tag(x) == a.tag(x)))
        yield "and the list stays", z3.Implies(S.dup, alli(S.n, S.arr, lambda j, y: ar1[j] == y))
        yield "one entry more", z3.Implies(z3.Not(S.dup), n1 == S.n + 1)
        yield "entry class is set", z3.Implies(z3.Not(S.dup), z3.And(h.ec(l) == z3.If(S.ec == 0, a.tag(x), S.ec), h.tag(x) == h.ec(l)))
        yield "in time order", sorted_by(n1, ar1, tkey(h, S.ek))
        yield "no entry twice", distinct(S, n1, ar1, "vals1")
        # where it went: old order is kept around the new entry
        if S.mode == "assume":
            i = S.e.at_hint(S.e.fresh("ins", I))
            yield "new entry is in", z3.Implies(z3.Not(S.dup), z3.And(0 <= i, i <= S.n, ar1[i] == x))
            for f in S.e.spliced(S.n, S.arr, ar1, i): yield "others keep their order", z3.Implies(z3.Not(S.dup), f)
        else:
            i, j = qv("i"), qv("j")
            yield "new entry is in", z3.Implies(z3.Not(S.dup), isin(S, x, n1, ar1, "x"))
            yield "no entry lost", included(S, S.n, S.arr, n1, ar1, "fw")
            yield "no entry invented", included(S, n1, ar1, S.n, S.arr, "bw", but=x)
            yield "others keep their order", z3.Implies(z3.Not(S.dup), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1, ar1[i] == x),
                        z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), ar1[j] == S.arr[j])),
                               z3.ForAll([j], z3.Implies(z3.And(i < j, j < n1), ar1[j] == S.arr[j - 1])))), patterns=[ar1[i]]))


def without(S, n0, a0, n1, a1, x, tag):
    """list 1 is list 0 without x (which occurs in it), order kept"""
    if S.mode == "assume":
        i = S.memo.get(("rm", tag))
        if i is None: i = S.memo[("rm", tag)] = S.e.fresh("rm", I)
        yield "one entry less", z3.And(n1 == n0 - 1, 0 <= i, i < n0, a0[i] == x)
        for f in S.e.spliced(n1, a1, a0, i): yield "others stay in order", f
    else:
        i, j = qv("i"), qv("j")
        yield "one entry less", n1 == n0 - 1
        yield "others stay in order", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0, a0[i] == x),
                z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), a1[j] == a0[j])),
                       z3.ForAll([j], z3.Implies(z3.And(i <= j, j < n1), a1[j] == a0[j + 1])))), patterns=[a0[i]])


def order_lemma():
    A = z3.ArraySort(I, I); T = z3.ArraySort(I, R)
    a, n, s, t = z3.Const("a", A), z3.Int("n"), z3.Const("s", T), z3.Const("t", T)
    j, x, y = z3.Ints("j x y")
    def srt(k): return z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < n), k[a[x]] <= k[a[y]]), patterns=[z3.MultiPattern(a[x], a[y])])
    yield "order depends on the times of the entries only", [srt(s), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), s[a[j]] == t[a[j]]), patterns=[a[j]])], srt(t)


def units():
    out = [Lemma("order of entries", ("C02",), order_lemma)]
    for ek in (SI, SP):
        out += [LInit(ek), LSort(ek), LStarts(ek), LEnds(ek), LLabels(ek), LContains(ek), LAppend(ek)]
    return out
