"""Contracts: class hierarchy links, cloning and custom classes (C10, C17)."""
from spec import *
from vc import cname, cbase

HP = "HierarchyPart"


def has(word, t): return z3.Function("substr_" + word, Lab, B)(t)


class ClassC(Contract):
    recv = "class"
    def __init__(self, **kw):
        super().__init__("class", **kw)
    def setup(self, e, func):
        names = [a.arg for a in func.node.args.args]
        c, s = e.fresh("cls", I), e.fresh("other", I)
        e.assume(z3.And(0 < c, c < e.h["cnxt"], 0 <= s, s < e.h["cnxt"]))
        return {names[0]: VC(c, SI), names[1]: VC(s, SI)}


class SetSuperset(ClassC):
    name = "set_superset_class"; props = ("C10", "C14")
    mine, theirs, edge, otheredge = "c.superset_class", "c.subset_class", "Top", "Bottom"
    def bind(self, S):
        if not isinstance(S.a[0], (VC, VNone)): return False
        S.s = z3.IntVal(0) if isinstance(S.a[0], VNone) else S.a[0].t
        S.hp = S.e.cls(HP).t
        S.off = z3.Or(S.s == 0, has(self.edge, cname(S.self)))
    def pre(self, S):
        yield "a class of the hierarchy", sub(S.self, S.hp)
    def raises(self, S):
        return z3.And(z3.Not(S.off), z3.Or(S.s == S.self, z3.Not(sub(S.s, S.hp))))
    def modifies(self, S):
        return {self.mine: lambda d: sub(d, S.self), self.theirs: lambda d: z3.And(S.s != 0, sub(d, S.s))}
    def post(self, S):
        a, b, c, s = S.h0, S.h1, S.self, S.s
        m1, t1, t0 = b.d[self.mine], b.d[self.theirs], a.d[self.theirs]
        yield "no link beyond the edge", z3.Implies(S.off, sel(m1, c) == 0)
        yield "the link is set", z3.Implies(z3.Not(S.off), sel(m1, c) == s)
        yield "and the other class links back", z3.Implies(z3.Not(S.off), sel(t1, s) == z3.If(z3.And(has(self.otheredge, cname(s)), sel(t0, s) != c), 0, c))
        d = qv("d")
        yield "nothing else when there is no partner", z3.Implies(S.off, z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < a.cnxt), sel(t1, d) == sel(t0, d)), patterns=[sel(t1, d)]))
        yield "partner that already links back stays", z3.Implies(z3.And(z3.Not(S.off), sel(t0, s) == c), z3.ForAll([d], z3.Implies(z3.And(0 <= d, d < a.cnxt), sel(t1, d) == sel(t0, d)), patterns=[sel(t1, d)]))


class SetSubset(SetSuperset):
    name = "set_subset_class"
    mine, theirs, edge, otheredge = "c.subset_class", "c.superset_class", "Bottom", "Top"


class MakeEdge(Contract):
    """_make_top / _make_bottom: a new class below Top / Bottom"""
    recv = None; props = ("C10", "C17"); allocs_cls = True
    edge = "Top"
    def __init__(self, **kw):
        super().__init__(None, **kw)
        self.recv = None
    def setup(self, e, func): return {}
    def bind(self, S): S.base = S.e.cls(self.edge).t
    def make_result(self, e, S): return VC(e.fresh("edge", I), SI)
    def post(self, S):
        a, b = S.h0, S.h1
        if not isinstance(S.res, VC):
            yield "a class", z3.BoolVal(False)
            return
        t = S.res.t
        yield "a new class", z3.And(t == a.cnxt, b.cnxt == a.cnxt + 1)
        yield "of the right kind", z3.And(sub(t, S.base), cbase(t) == S.base, has(self.edge, cname(t)), z3.Not(has({"Top": "Bottom", "Bottom": "Top"}[self.edge], cname(t))))
        d = qv("d")
        yield "a leaf of the class tree", z3.ForAll([d], z3.Implies(z3.And(0 < d, d < a.cnxt), z3.And(sub(t, d) == sub(S.base, d), z3.Not(sub(d, t)))), patterns=[sub(t, d), sub(d, t)])
        for f in ("c.superset_class", "c.subset_class"):
            yield f"{f} as its base", sel(b.d[f], t) == sel(a.d[f], S.base)


class MakeTop(MakeEdge): name = "_make_top"
class MakeBottom(MakeEdge): name = "_make_bottom"; edge = "Bottom"


bnd = z3.Function("bnd", I, B)
CSUP, CSUB = "c.superset_class", "c.subset_class"


def plain(c):
    """a name that is not read as an edge of the hierarchy"""
    return z3.And(z3.Not(has("Top", cname(c))), z3.Not(has("Bottom", cname(c))))


class Clone(Contract):
    """clone_class: a new hierarchy of the same names and depth; no class there was is changed"""
    recv = None; name = "clone_class"; props = ("C10",); allocs_cls = True
    def __init__(self, ik=SI, **kw):
        super().__init__(None, **kw)
        self.ik = ik
        self.variant = "[interval class]" if ik == SI else "[point class]"
        self.assume_at_calls = ik == SI
    def setup(self, e, func):
        names = [a.arg for a in func.node.args.args]
        c = e.fresh("cls", I)
        e.assume(z3.And(0 < c, c < e.h["cnxt"]))
        e.assume(bnd(e.h["cnxt"]))
        return {names[0]: VC(c, self.ik), names[1]: VB(e.fresh("recurse", B))}
    def bind(self, S):
        S.c = S.self
        if list(S.env.values())[0].ik != self.ik: return False
        S.si, S.sp, S.top, S.bot, S.hp = (S.e.cls(x).t for x in (SI, SP, "Top", "Bottom", HP))
        if not isinstance(S.a[0], VB): return False
        S.rec = S.a[0].t
    def pre(self, S):
        h = S.h0
        d = qv("d")
        if self.ik == SP:
            yield "a point class", z3.And(sub(S.c, S.sp), z3.Not(sub(S.c, S.si)))
            return
        yield "an interval class", z3.And(sub(S.c, S.si), 0 < S.c, S.c < h.cnxt)
        up, dn = sel(h.d[CSUP], d), sel(h.d[CSUB], d)
        yield "classes have plain names", z3.ForAll([d], z3.Implies(z3.And(0 < d, d < h.cnxt, sub(d, S.si)), plain(d)), patterns=[sub(d, S.si)])
        yield "no class is of both kinds", z3.ForAll([d], z3.Implies(z3.And(0 < d, d < h.cnxt, sub(d, S.si)), z3.And(z3.Not(sub(d, S.sp)), z3.Not(sub(d, S.top)), z3.Not(sub(d, S.bot)))), patterns=[sub(d, S.si)])
        yield "classes are in a hierarchy", z3.ForAll([d], z3.Implies(z3.And(0 < d, d < h.cnxt, sub(d, S.si)), z3.And(up > 0, dn > 0, z3.Or(sub(dn, S.bot), sub(dn, S.si)))), patterns=[sel(h.d[CSUB], d), sub(d, S.si)])
    def raises(self, S):
        if self.ik == SP: return None
        return z3.And(z3.Not(S.rec), z3.Not(sub(sel(S.h0.d[CSUP], S.c), S.top)))
    def make_result(self, e, S): return VC(e.fresh("clone", I), self.ik)
    def post(self, S):
        a, b, c = S.h0, S.h1, S.c
        if not isinstance(S.res, VC):
            yield "a class", z3.BoolVal(False)
            return
        t = S.res.t
        yield "a new class", z3.And(t >= a.cnxt, t < b.cnxt)
        yield "a subclass of the original", sub(t, c)
        d, x = qv("d"), qv("x")
        if self.ik == SI:
            b0 = qv("b0")
            closed = z3.ForAll([d], z3.Implies(z3.And(0 < d, d < b0, sub(d, S.si)), sel(a.d[CSUB], d) < b0), patterns=[sel(a.d[CSUB], d)])
            tch = bnd(b0) if S.mode == "prove" else z3.BoolVal(True)      # bnd: a trigger only, true everywhere
            yield "only what hangs below is cloned", z3.ForAll([b0], z3.Implies(z3.And(tch, 1000 < b0, b0 <= a.cnxt, c < b0, closed),
                z3.ForAll([x], z3.Implies(z3.And(a.cnxt <= x, x < b.cnxt), cbase(x) < b0), patterns=[cbase(x)])), patterns=[bnd(b0)])
        yield "new classes are made from old ones", z3.ForAll([x], z3.Implies(z3.And(a.cnxt <= x, x < b.cnxt), z3.And(0 < cbase(x), cbase(x) < a.cnxt)), patterns=[cbase(x)])
        yield "and are as they are", z3.ForAll([x, d], z3.Implies(z3.And(a.cnxt <= x, x < b.cnxt, 0 < d, d < a.cnxt), sub(x, d) == sub(cbase(x), d)), patterns=[sub(x, d)])
        yield "new classes have no subclasses", z3.ForAll([x, d], z3.Implies(z3.And(a.cnxt <= d, d < b.cnxt, 0 < x, x < b.cnxt, x != d), z3.Not(sub(x, d))), patterns=[sub(x, d)])
        yield "of the same name", cname(t) == cname(c)
        if self.ik == SP: return
        up, dn = lambda h, x: sel(h.d[CSUP], x), lambda h, x: sel(h.d[CSUB], x)
        yield "clone of the original", cbase(t) == c
        yield "an interval class", z3.And(sub(t, S.si), plain(t))
        yield "top of a hierarchy of its own", z3.Implies(sub(up(a, c), S.top), z3.And(up(b, t) >= a.cnxt, up(b, t) < b.cnxt, sub(up(b, t), S.top), z3.Not(sub(up(b, t), S.si)), dn(b, up(b, t)) == t))
        yield "linked downwards to its own clones", z3.And(dn(b, t) >= a.cnxt, dn(b, t) < b.cnxt, up(b, dn(b, t)) == t)
        yield "depth is kept", z3.If(sub(dn(a, c), S.bot), sub(dn(b, t), S.bot), z3.And(sub(dn(b, t), S.si), cbase(dn(b, t)) == dn(a, c)))
        d = qv("d")
        new = z3.And(a.cnxt <= d, d < b.cnxt, sub(d, S.si))
        def every(f): return z3.ForAll([d], z3.Implies(new, f), patterns=[sub(d, S.si)])
        yield "every class made has the name of its original", every(z3.And(plain(d), cbase(d) < a.cnxt, cbase(d) > 0, cname(d) == cname(cbase(d)), sub(cbase(d), S.si)))
        yield "every class made links down to one made", every(z3.And(dn(b, d) >= a.cnxt, dn(b, d) < b.cnxt, up(b, dn(b, d)) == d))
        yield "the clone is at the top", every(dn(b, d) != t)
        yield "every class made is as deep as its original", every(z3.If(sub(dn(a, cbase(d)), S.bot), sub(dn(b, d), S.bot), z3.And(sub(dn(b, d), S.si), cbase(dn(b, d)) == dn(a, cbase(d)))))
        yield "every class made but the first links up to one made", every(z3.Or(d == t, z3.And(up(b, d) >= a.cnxt, sub(up(b, d), S.si), dn(b, up(b, d)) == d)))


def class_arr(e, l):
    """the classes of a list as an array"""
    if getattr(l, "carr", None) is not None: return l.carr
    if l.items is not None:
        a = z3.K(I, z3.IntVal(0))
        for i, x in enumerate(l.items): a = z3.Store(a, i, x.t)
        return a
    a = e.fresh("carr", z3.ArraySort(I, I))
    j = z3.Int("j")
    x = e.elem(l, j).t
    e.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.n), a[j] == x), patterns=[a[j]] + vc.find_patterns(x, j)))
    return a


class Custom(Contract):
    """custom_classes for a list of names; order: None, 'int' (positions) or 'str' (names)"""
    recv = None; name = "custom_classes"; frame_since = "entry"; props = ("C17",); allocs_cls = True; assume_at_calls = False
    def __init__(self, order=None):
        super().__init__(None)
        self.order = order
        self.variant = f"[{ {None: 'default order', 'int': 'order by index', 'str': 'order by name'}[order]}]"
    def setup(self, e, func):
        names = [a.arg for a in func.node.args.args]
        env = {}
        def lst(nm, srt, mk):
            n = e.fresh(nm + "_n", I); a = e.fresh(nm, z3.ArraySort(I, srt))
            e.assume(n >= 0)
            c = VCell(VLst(n, lambda j: mk(a[j]))); e.cells.append(c)
            return c, n, a
        c, self.n, self.names_ = lst("names", Lab, VL)
        p, self.pn, self.pts = lst("points", I, VI)
        o, self.on, self.ord = VNone(), self.n, self.names_
        if self.order: o, self.on, self.ord = lst("order", I if self.order == "int" else Lab, VI if self.order == "int" else VL)
        for nm, v in zip(names, (c, o, p)): env[nm] = v
        return env
    def instantiate(self, e, env, heap, mode):
        S = State(e, env, heap, mode)
        S.self = None
        S.si, S.sp, S.top, S.bot = (e.cls(x).t for x in (SI, SP, "Top", "Bottom"))
        S.n, S.nm, S.pn, S.pts, S.on, S.ord = self.n, self.names_, self.pn, self.pts, self.on, self.ord
        S.ispt = e.freshfun("is_point", I, B)     # position asked for as a point (defined in pre)
        return S
    def pre(self, S):
        j, k = qv("j"), qv("k")
        yield "at least one class", z3.And(S.n > 0, S.on > 0)
        yield "plain names", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < S.n), z3.And(z3.Not(has("Top", S.nm[j])), z3.Not(has("Bottom", S.nm[j])))), patterns=[S.nm[j]])
        w = S.e.freshfun("where", I, I)
        yield "asked for as point", z3.ForAll([j], z3.Implies(S.ispt(j), z3.And(0 <= w(j), w(j) < S.pn, S.pts[w(j)] == j)), patterns=[S.ispt(j)])
        yield "(back)", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < S.pn), S.ispt(S.pts[k])), patterns=[S.pts[k]])
        d = qv("d")
        yield "no class is of both kinds", z3.And(z3.Not(sub(S.si, S.sp)), z3.Not(sub(S.sp, S.si)))
        if self.order == "int":
            yield "positions exist", alli(S.on, S.ord, lambda j, x: z3.And(0 <= x, x < S.n))
        else:
            yield "names are different", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < S.n), S.nm[j] != S.nm[k]), patterns=[z3.MultiPattern(S.nm[j], S.nm[k])])
            if self.order == "str":
                S.at = S.e.freshfun("at", I, I)
                yield "names exist", alli(S.on, S.ord, lambda j, x: z3.And(0 <= S.at(j), S.at(j) < S.n, S.nm[S.at(j)] == x))
    def make_result(self, e, S): raise Unsupported("custom_classes at a call")
    def post(self, S):
        a, b, e = S.h0, S.h1, S.e
        if not isinstance(S.res, (VLst, VCell)):
            yield "a list", z3.BoolVal(False)
            return
        l = e.as_list(S.res)
        ix = (lambda i: i) if self.order is None else (lambda i: S.ord[i]) if self.order == "int" else (lambda i: S.at(i))
        i, j, k = qv("i"), qv("j"), qv("k")
        r = lambda t: e.elem(l, t).t
        rng = lambda t: z3.And(0 <= t, t < S.on)
        touch = e.freshfun("touch", I, B)
        def every(f): return z3.ForAll([i], z3.Implies(z3.And(rng(i), touch(ix(i))), f(i)))
        yield "as many as asked for", l.n == S.on
        yield "new classes", every(lambda i: z3.And(r(i) >= a.cnxt, r(i) < b.cnxt))
        yield "names in the order asked for", every(lambda i: cname(r(i)) == S.nm[ix(i)])
        yield "points exactly where asked for", every(lambda i: z3.And(sub(r(i), S.sp) == S.ispt(ix(i)), sub(r(i), S.si) == z3.Not(S.ispt(ix(i)))))
        up, dn = lambda x: sel(b.d[CSUP], x), lambda x: sel(b.d[CSUB], x)
        none_in = lambda lo, hi: z3.ForAll([k], z3.Implies(z3.And(lo < k, k < hi), S.ispt(k)), patterns=[S.ispt(k)])
        two = z3.And(rng(i), rng(j), touch(ix(i)), touch(ix(j)), ix(i) < ix(j), z3.Not(S.ispt(ix(i))), z3.Not(S.ispt(ix(j))), none_in(ix(i), ix(j)))
        yield "interval classes linked in the order named", z3.ForAll([i, j], z3.Implies(two, z3.And(dn(r(i)) == r(j), up(r(j)) == r(i))))
        first = lambda i: z3.And(z3.Not(S.ispt(ix(i))), none_in(z3.IntVal(-1), ix(i)))
        last = lambda i: z3.And(z3.Not(S.ispt(ix(i))), none_in(ix(i), S.n))
        yield "a new top", every(lambda i: z3.Implies(first(i), z3.And(up(r(i)) >= a.cnxt, up(r(i)) < b.cnxt, sub(up(r(i)), S.top), dn(up(r(i))) == r(i))))
        yield "a new bottom", every(lambda i: z3.Implies(last(i), z3.And(dn(r(i)) >= a.cnxt, dn(r(i)) < b.cnxt, sub(dn(r(i)), S.bot), up(dn(r(i))) == r(i))))
    def loop_candidates(self, e, hl, fields, it):
        S = self.S
        out = self.frame_candidates(e, S, hl, fields)
        a = S.h0
        over = it                    # the list the loop runs over
        while over is not None and not isinstance(over, VCell): over = getattr(over, "src", None)
        d, x = z3.Ints("dd xx")
        out.append(("classes made have no subclasses", lambda k, h, env: z3.ForAll([d, x], z3.Implies(z3.And(a.cnxt <= d, d < h.cnxt, 0 <= x, x < h.cnxt, x != d), z3.Not(sub(x, d))), patterns=[sub(x, d)])))
        for nm, v in list(e.env.items()):
            if not isinstance(v, VCell) : continue
            if v.v.items is None and not isinstance(v.v.f(z3.Int("j")), VC): continue
            if v.v.items: continue
            def get(env, nm=nm):
                l = e.as_list(env[nm])
                if l.items is None and not isinstance(e.elem(l, z3.Int("j")), VC): return l.n, None
                return l.n, class_arr(e, l)
            def cand(lbl, f, nm=nm, get=get):
                def c(k, h, env):
                    n, arr = get(env)
                    if arr is None: return z3.BoolVal(True)
                    return alli(n, arr, lambda j, x: f(k, h, j, x))
                out.append((f"{nm} {lbl}", c))
            cand("new", lambda k, h, j, x: z3.And(x >= a.cnxt, x < h.cnxt))
            if "cnxt" in fields or over is not v: cand("name", lambda k, h, j, x: cname(x) == S.nm[j])
            if "cnxt" in fields or over is not v: cand("kind", lambda k, h, j, x: z3.And(sub(x, S.sp) == S.ispt(j), sub(x, S.si) == z3.Not(S.ispt(j))))
            cand("not an edge", lambda k, h, j, x: z3.And(z3.Not(sub(x, S.top)), z3.Not(sub(x, S.bot))))
            def incr(k, h, env, get=get):
                n, arr = get(env)
                if arr is None: return z3.BoolVal(True)
                i, j = qv("i"), qv("j")
                return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), arr[i] < arr[j]), patterns=[z3.MultiPattern(arr[i], arr[j])])
            out.append((f"{nm} increasing", incr))
            if "cnxt" in fields or (over is not None and over is not v): continue
            def linked(k, h, env, get=get):
                n, arr = get(env)
                if arr is None: return z3.BoolVal(True)
                return alli(n, arr, lambda j, x: z3.Implies(z3.And(j < k, j + 1 < n), z3.And(h.csub(x) == arr[j + 1], h.csup(arr[j + 1]) == x)))
            out.append((f"{nm} linked", linked))
            def end(lbl, f, get=get, nm=nm):
                def c(k, h, env):
                    n, arr = get(env)
                    if arr is None: return z3.BoolVal(True)
                    return z3.Implies(n > 0, f(k, n, h, sel(arr, 0), sel(arr, n - 1)))
                out.append((f"{nm} {lbl}", c))
            isnew = lambda t: z3.And(t >= a.cnxt, t < hl.cnxt)
            end("top is new", lambda k, n, h, x, y: z3.Implies(k > 0, isnew(h.csup(x))))
            end("top is a Top", lambda k, n, h, x, y: z3.Implies(k > 0, sub(h.csup(x), S.top)))
            end("top links back", lambda k, n, h, x, y: z3.Implies(k > 0, h.csub(h.csup(x)) == x))
            end("bottom is new", lambda k, n, h, x, y: z3.Implies(k >= n, isnew(h.csub(y))))
            end("bottom is a Bottom", lambda k, n, h, x, y: z3.Implies(k >= n, sub(h.csub(y), S.bot)))
            end("bottom links back", lambda k, n, h, x, y: z3.Implies(k >= n, h.csup(h.csub(y)) == y))
        return out


def units():
    return [SetSuperset(), SetSubset(), MakeTop(), MakeBottom(), Clone(SI), Clone(SP), Custom(), Custom("int"), Custom("str")]
