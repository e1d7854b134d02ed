"""Builtins, list methods and the numpy functions the repository uses.

These are the assumed contracts of the language and of numpy (listed in the evidence):
each is stated here once and used for every call.  Anything else is Unsupported.
"""
import z3
from vals import *
from vc import sel, SI, SP, SL, ST, SPT, TG, PG, ATG, GRP, sub, forall_idx, exists_idx, find_patterns, RL_FORK

USED = set()
RTOL, ATOL = z3.RealVal("0.00001"), z3.RealVal("0.00000001")


def close(x, y):
    """np.isclose over the reals: |x-y| <= atol + rtol*|y|"""
    d = x - y
    ab = lambda t: z3.If(t >= 0, t, -t)
    return ab(d) <= ATOL + RTOL * ab(y)


def call(E, f, args, kw):
    nm = f.name
    key = nm.replace(".", "_")
    if nm.startswith("praatio."):
        key = nm.split(".")[-1]
    h = H.get(key)
    if h is None:
        raise Unsupported(f"builtin {nm}")
    USED.add(nm)
    return h(E, f, args, kw)


H = {}


def b(*names):
    def d(fn):
        for n in names: H[n] = fn
        return fn
    return d


def star(E, args):
    out = []
    for a in args:
        if isinstance(a, tuple):
            l = E.as_list(a[1])
            if l.items is None: raise Unsupported("star argument of unknown length")
            out += l.items
        else: out.append(a)
    return out


def is_seq(v): return isinstance(v, (VLst, VCell, VField, VTup))


@b("len")
def _len(E, f, a, kw):
    v = a[0]
    if isinstance(v, VRef):
        if not v.nonnull and not E.fork(v.t != 0, "len of None"): raise PyExc("TypeError", "len of None")
        return E.call_method(VRef(v.t, v.k, v.ek, True), "__len__", [])
    if isinstance(v, VNone): raise PyExc("TypeError", "len of None")
    if isinstance(v, VSet): return VI(card(E, v))
    if isinstance(v, VStr): return VI(len(v.s))
    if isinstance(v, (VL, VOpaque)): 
        n = E.fresh("len", I); E.assume(n >= 0); return VI(n)
    return VI(E.as_list(v).n)


def card(E, s):
    if getattr(s, "card", None) is not None: return s.card
    l = s.lst
    if l.items is not None and not l.items:
        s.card = z3.IntVal(0); return s.card
    m = E.fresh("card", I)
    E.assume(z3.And(m >= 0, m <= l.n, (m == 0) == (l.n == 0)))
    if l.items is not None:
        alleq = z3.And(*[E.equal(x, l.items[0]) for x in l.items])
    else:
        ci = E.fresh("i", I)
        alleq = forall_idx(ci, z3.Implies(z3.And(0 <= ci, ci < l.n), E.equal(E.elem(l, ci), E.elem(l, z3.IntVal(0)))))
    E.assume((m <= 1) == z3.Or(l.n == 0, alleq))
    s.card = m
    return m


def kinds_static(E, v):
    return v.k


@b("isinstance")
def _isinstance(E, f, a, kw):
    v, c = a
    if isinstance(c, VTup):
        r = [_isinstance(E, f, [v, x], kw).t for x in c.items]
        return VB(z3.Or(*r))
    if isinstance(v, VNone): return VB(False)
    if isinstance(v, VRef):
        if v.k in ("Any",): raise Unsupported("isinstance of an object of unknown class")
        if not v.nonnull and not E.fork(v.t != 0, "isinstance argument is not None"): return VB(False)
        if v.k == GRP and isinstance(c, VC) and c.static in (TG, PG, "TierGroupMixins"):
            return VB(True) if c.static == "TierGroupMixins" else VB(E.is_tg(v.t)) if c.static == TG else VB(z3.Not(E.is_tg(v.t)))
        if isinstance(c, VBuiltin):
            mro = E.prog.classes[v.k].mro
            return VB(c.name.split(".")[-1] in mro or c.name == "object")
        if not isinstance(c, VC): raise Unsupported("isinstance class")
        if c.static is not None:
            if E.prog.isa(v.k, c.static): return VB(True)
            if not E.prog.isa(c.static, v.k): 
                # classes with a common subclass are not ruled out for hierarchy classes
                if c.static in ("Top", "Bottom"): return VB(sub(sel(E.h["tag"], v.t), c.t))
                return VB(False)
        if E.fork(c.t == 0, "class argument is None"): raise PyExc("TypeError", "isinstance arg 2")
        return VB(sub(sel(E.h["tag"], v.t), c.t))
    if isinstance(v, (VTup, VLst, VCell, VField, VStr, VL, VI, VR, VB, VOptR)):
        if isinstance(c, VBuiltin):
            py = {"VTup": ("tuple", "Sequence"), "VCell": ("list", "Sequence"), "VField": ("list", "Sequence"), "VStr": ("str",), "VL": ("str",),
                  "VI": ("int",), "VR": ("float",), "VB": ("bool", "int")}
            if type(v).__name__ not in py: raise Unsupported("isinstance")
            return VB(c.name in py[type(v).__name__])
        return VB(False)
    raise Unsupported(f"isinstance of {v!r}")


@b("issubclass")
def _issubclass(E, f, a, kw):
    x, y = a
    if isinstance(x, VNone) or isinstance(y, VNone): raise PyExc("TypeError", "issubclass of None")
    if not isinstance(x, VC) or not isinstance(y, VC): raise Unsupported(f"issubclass {x!r}")
    for v in (x, y):
        if v.static is None and E.fork(v.t == 0, "issubclass of None"): raise PyExc("TypeError", "issubclass of None")
    if x.static and y.static: return VB(E.prog.isa(x.static, y.static))
    return VB(sub(x.t, y.t))


@b("cls___subclasses__")
def _subclasses(E, f, a, kw): return VOpaque("subclasses")


@b("dict")
def _dict(E, f, a, kw):
    r = VOpaque("dict")
    if a:
        if not (isinstance(a[0], VOpaque) and a[0].what == "class dict"): raise Unsupported("dict() of something else than a class dict")
        r.of = a[0].of
    return r


@b("type")
def _type(E, f, a, kw):
    if len(a) == 3:
        # a new class with one base; its attributes are those of the base (own or inherited)
        bases = a[1].items if isinstance(a[1], VTup) else []
        if len(bases) != 1 or not isinstance(bases[0], VC): raise Unsupported("type() with several bases")
        base = bases[0]
        if not (isinstance(a[2], VOpaque) and a[2].what in ("dict", "class dict")): raise Unsupported("type() with these attributes")
        of = getattr(a[2], "of", None)
        if of is not None and not E.implied(of == base.t): raise Unsupported("type() with the attributes of another class")
        t = E.h["cnxt"]
        E.set_field_arr("cnxt", z3.simplify(t + 1))
        d = z3.Int("d")
        E.assume(sub(t, t)); E.assume(sub(t, base.t))
        E.assume(z3.ForAll([d], z3.Implies(z3.And(0 < d, d < t), z3.And(sub(t, d) == sub(base.t, d), z3.Not(sub(d, t)))), patterns=[sub(t, d), sub(d, t)]))
        from vc import cname, cbase
        E.assume(cbase(t) == base.t)
        E.assume(cname(t) == E.as_lab(a[0]))
        for fl in ("c.superset_class", "c.subset_class"):
            E.upd(fl, t, sel(E.h[fl], base.t))
        return VC(t, base.ik)
    v = a[0]
    if isinstance(v, VRef): return VC(sel(E.h["tag"], v.t), v.k)
    if isinstance(v, VI): return VBuiltin("int")
    if isinstance(v, (VR,)): return VBuiltin("float")
    if isinstance(v, (VStr, VL)): return VBuiltin("str")
    if isinstance(v, (VCell, VField)): return VBuiltin("list")
    if isinstance(v, VTup): return VBuiltin("tuple")
    if isinstance(v, VNone): return VBuiltin("NoneType")
    raise Unsupported(f"type of {v!r}")


@b("hasattr")
def _hasattr(E, f, a, kw):
    if not isinstance(a[1], VStr): raise Unsupported("hasattr name")
    return VB(E.hasattr_(a[0], a[1].s))


@b("getattr")
def _getattr(E, f, a, kw):
    if not isinstance(a[1], VStr): raise Unsupported("getattr name")
    if len(a) == 3:
        if not E.fork(E.hasattr_(a[0], a[1].s), f"has {a[1].s}"): return a[2]
    return E.getattr(a[0], a[1].s)


@b("setattr")
def _setattr(E, f, a, kw):
    # group[ClassName] accessors: attributes with computed names, not modelled as state
    if isinstance(a[1], VStr): E.setattr(a[0], a[1].s, a[2])
    return VNone()


def mask_elems(E, v):
    l = E.as_list(v)
    return l


def boolt(E, v):
    if isinstance(v, VB): return v.t
    return E.truth(v)


@b("any")
def _any(E, f, a, kw):
    l = E.as_list(a[0])
    if l.items is not None:
        return VB(z3.Or(*[boolt(E, x) for x in l.items])) if l.items else VB(False)
    ci = E.fresh("i", I)
    return VB(exists_idx(ci, z3.And(0 <= ci, ci < l.n, boolt(E, E.elem(l, ci)))))


@b("all")
def _all(E, f, a, kw):
    l = E.as_list(a[0])
    if l.items is not None:
        return VB(z3.And(*[boolt(E, x) for x in l.items])) if l.items else VB(True)
    ci = E.fresh("i", I)
    return VB(forall_idx(ci, z3.Implies(z3.And(0 <= ci, ci < l.n), boolt(E, E.elem(l, ci)))))


@b("np_all")
def _npall(E, f, a, kw):
    v = f.recv if f.recv is not None else a[0]
    r = _all(E, f, [v], kw)
    if getattr(v, "adjacent", None) is not None:
        # l[:-1] <= l[1:]: adjacent order is pairwise order (induction, assumed lemma)
        base, off, n = v.adjacent
        x, y = E.fresh("x", I), E.fresh("y", I)
        ex, ey = E.el_real(base, x), E.el_real(base, y)
        px, py = find_patterns(ex, x), find_patterns(ey, y)
        body = z3.Implies(z3.And(off <= x, x <= y, y <= off + n), ex <= ey)
        if px and py:
            pw = z3.ForAll([x, y], body, patterns=[z3.MultiPattern(px[0], py[0])])
        else:
            pw = z3.ForAll([x, y], body)
        E.assume(z3.Implies(r.t, pw))
    return r


@b("np_any")
def _npany(E, f, a, kw): return _any(E, f, [f.recv if f.recv is not None else a[0]], kw)


@b("set")
def _set(E, f, a, kw):
    if not a: return VSet(VLst(0, None, items=[]))
    return VSet(E.as_list(a[0]))


@b("set_pop")
def _setpop(E, f, a, kw):
    l = f.recv.lst
    if not E.fork(l.n > 0, "set is not empty"): raise PyExc("KeyError", "pop from empty set")
    if l.items is not None and len(l.items) == 1: return l.items[0]
    w = E.fresh("w", I)
    E.assume(z3.And(0 <= w, w < l.n))
    return E.elem(l, w)


@b("iter")
def _iter(E, f, a, kw): return VIter(a[0])


@b("next")
def _next(E, f, a, kw):
    v = a[0]
    if isinstance(v, VIter) and isinstance(v.src, VSet): return _setpop(E, VBuiltin("set.pop", v.src), [], {})
    if isinstance(v, VIter): 
        l = E.as_list(v.src)
        if not E.fork(l.n > 0, "iterator is not empty"): raise PyExc("StopIteration", "")
        return E.elem(l, z3.IntVal(0))
    if isinstance(v, (VCell, VLst)):                 # generator expression
        l = E.as_list(v)
        if not E.fork(l.n > 0, "generator is not empty"):
            if len(a) > 1: return a[1]
            raise PyExc("StopIteration", "")
        return E.elem(l, z3.IntVal(0))
    raise Unsupported("next")


@b("list", "tuple")
def _list(E, f, a, kw):
    if not a:
        c = VCell(VLst(0, None, items=[])); E.cells.append(c); return c
    v = a[0]
    if f.name == "tuple" and isinstance(v, VTup): return VTup(v.items)
    l = E.as_list(v)
    if f.name == "tuple" and l.items is not None: return VTup(l.items)
    c = VCell(l); E.cells.append(c)
    return c


@b("enumerate")
def _enum(E, f, a, kw):
    st = a[1].t if len(a) > 1 else (kw["start"].t if "start" in kw else 0)
    return VEnum(a[0], st)


@b("zip")
def _zip(E, f, a, kw): return VZip(star(E, a))


@b("range")
def _range(E, f, a, kw):
    if len(a) == 1: return VRange(z3.IntVal(0), E.as_int(a[0]))
    if len(a) == 2: return VRange(E.as_int(a[0]), E.as_int(a[1]))
    raise Unsupported("range step")


@b("reversed")
def _rev(E, f, a, kw):
    l = E.as_list(a[0])
    if l.items is not None: return VLst(len(l.items), None, items=list(reversed(l.items)))
    return VLst(l.n, lambda j: E.elem(l, l.n - 1 - j))


def num(E, v):
    return E.as_real(v)


@b("min", "max")
def _minmax(E, f, a, kw):
    lo = f.name == "min"
    if len(a) > 1:
        if all(isinstance(x, VI) for x in a):
            t = a[0].t
            for x in a[1:]: t = z3.If((x.t < t) if lo else (x.t > t), x.t, t)
            return VI(t)
        t = num(E, a[0])
        for x in a[1:]:
            y = num(E, x); t = z3.If((y < t) if lo else (y > t), y, t)
        return VR(t)
    l = E.as_list(a[0])
    if not E.fork(l.n > 0, "min/max of a non-empty sequence"):
        if "default" in kw: return kw["default"]
        raise PyExc("ValueError", "min() of empty")
    return extremum(E, l, lo)


def extremum(E, l, lo):
    E.no_none(l, "sequence")
    if l.items is not None:
        t = num(E, l.items[0])
        for x in l.items[1:]:
            y = num(E, x); t = z3.If((y < t) if lo else (y > t), y, t)
        return VR(t)
    w = E.fresh("w", I)
    ci = E.fresh("i", I)
    m = E.el_real(l, w)
    E.assume(z3.And(0 <= w, w < l.n))
    e = E.el_real(l, ci)
    E.assume(forall_idx(ci, z3.Implies(z3.And(0 <= ci, ci < l.n), (m <= e) if lo else (m >= e))))
    r = VR(m)
    r.witness = w
    return r


@b("np_min", "np_max", "np_argmin", "np_argmax")
def _npmm(E, f, a, kw):
    if kw: raise Unsupported("axis argument")
    v = f.recv if f.recv is not None else a[0]
    if f.recv is not None and a: raise Unsupported("axis argument")
    l = E.as_list(v)
    if not E.fork(l.n > 0, "array is not empty"): raise PyExc("ValueError", "zero-size array")
    nm = f.name.split(".")[-1]
    lo = "min" in nm
    if "arg" in nm:
        E.no_none(l, "array")
        w = E.fresh("w", I)
        ci = E.fresh("i", I)
        E.assume(z3.And(0 <= w, w < l.n))
        m, e = E.el_real(l, w), E.el_real(l, ci)
        # numpy: the first of several extremal positions
        E.assume(forall_idx(ci, z3.Implies(z3.And(0 <= ci, ci < l.n), z3.And((m <= e) if lo else (m >= e),
                                                                            z3.Implies(ci < w, (m < e) if lo else (m > e))))))
        return VI(w)
    return extremum(E, l, lo)


@b("int", "float")
def _int(E, f, a, kw):
    v = a[0]
    if isinstance(v, VWhere) and f.name == "int":
        return where_index(E, v)
    if f.name == "int" and isinstance(v, VI): return v
    if f.name == "float" and isinstance(v, (VR, VI, VOptR)): return VR(E.as_real(v))
    raise Unsupported(f"{f.name} of {v!r}")


def where_index(E, w):
    m = w.mask
    ci, cj = E.fresh("i", I), E.fresh("i", I)
    e = E.fresh("w", I)
    # at least one was established by the size test or else the conversion raises
    some = exists_idx(ci, z3.And(0 <= ci, ci < m.n, E.elem(m, ci).t))
    if not E.fork(some, "some index selected"): raise PyExc("TypeError", "empty index array")
    E.assume(z3.And(0 <= e, e < m.n, E.elem(m, e).t))
    uniq = forall_idx(cj, z3.Implies(z3.And(0 <= cj, cj < m.n, E.elem(m, cj).t), cj == e))
    if not E.fork(uniq, "one index selected"): raise PyExc("TypeError", "several indices")
    return VI(e)


@b("where_squeeze", "where_item")
def _squeeze(E, f, a, kw):
    if f.name.endswith("item"): return where_index(E, f.recv)
    return f.recv


@b("where_flatten", "where_ravel")
def _flat(E, f, a, kw): raise Unsupported("argwhere flattening")


istr = z3.Function("istr", I, Lab)          # the numeral of a number


@b("str")
def _strint(E, f, a, kw):
    if len(a) == 1 and isinstance(a[0], VI): return VL(istr(a[0].t))
    return VOpaque("str")


@b("str_join")
def _join(E, f, a, kw):
    if isinstance(f.recv, VStr):
        try: l = E.as_list(a[0])
        except Unsupported: return VOpaque("str")
        x = (l.items[0] if l.items else None) if l.items is not None else l.f(z3.Int("j"))
        if isinstance(x, VL):
            r = VL(E.fresh("joined", Lab)); r.joined = (f.recv.s, l)
            return r
        if l.items is not None and not l.items: return VStr("")
    return VOpaque("str")


@b("map")
def _map(E, f, a, kw):
    if len(a) != 2: raise Unsupported("map of several sequences")
    l = E.as_list(a[1])
    if l.items is not None: return VLst(len(l.items), None, items=[E.call(a[0], [x], {}) for x in l.items])
    ci = E.fresh("i", I)
    val = E.pure_elem(lambda: E.call(a[0], [E.elem(l, ci)], {}), z3.And(0 <= ci, ci < l.n), [], ci)
    return VLst(l.n, lambda j: subst(val, ci, j))


@b("repr", "format", "str_format", "str_strip", "str_lower", "str_upper", "str_replace", "re_sub", "str_split", "str_startswith", "str_endswith")
def _str(E, f, a, kw): return VOpaque("str")


@b("Interval")
def _interval(E, f, a, kw):
    a = star(E, a)
    for n in ("start", "end", "label")[len(a):]:
        if n in kw: a.append(kw[n])
    if len(a) != 3: raise PyExc("TypeError", "Interval takes 3 values")
    return VTup(a, "Interval")


@b("Point")
def _point(E, f, a, kw):
    a = star(E, a)
    for n in ("time", "label")[len(a):]:
        if n in kw: a.append(kw[n])
    if len(a) != 2: raise PyExc("TypeError", "Point takes 2 values")
    return VTup(a, "Point")


@b("IntervalTier", "PointTier")
def _ptier(E, f, a, kw):
    nm = kw.get("name", a[0] if a else None)
    en = kw.get("entries", a[1] if len(a) > 1 else None)
    if nm is None or en is None: raise Unsupported("praatio tier arguments")
    r = VTup([nm, en], f.name)
    return r


# ---------------------------------------------------------------- list methods
@b("list_append")
def _lappend(E, f, a, kw):
    if isinstance(f.recv, VCell) and getattr(f.recv, "elhint", None) is None:
        f.recv.elhint = a[0]
    elif isinstance(f.recv, VCell) and isinstance(a[0], VC) and isinstance(f.recv.elhint, VC) and a[0].ik != f.recv.elhint.ik:
        f.recv.elhint = VC(a[0].t, "SequenceInterval", None, True)
    E.list_insert(f.recv, E.as_list(f.recv).n, a[0]); return VNone()


@b("list_extend")
def _lextend(E, f, a, kw): E.list_extend(f.recv, a[0]); return VNone()


@b("list_insert")
def _linsert(E, f, a, kw): E.list_insert(f.recv, E.as_int(a[0]), a[1]); return VNone()


@b("list_pop")
def _lpop(E, f, a, kw): return E.list_popat(f.recv, E.as_int(a[0]) if a else z3.IntVal(-1))


@b("list_copy")
def _lcopy(E, f, a, kw):
    c = VCell(E.as_list(f.recv)); E.cells.append(c); return c


@b("list_reverse")
def _lrev(E, f, a, kw):
    l = E.as_list(f.recv)
    E.list_set(f.recv, _rev(E, f, [l], {})); return VNone()


@b("list_clear")
def _lclear(E, f, a, kw):
    E.list_set(f.recv, VLst(0, None, items=[])); return VNone()


def find_index(E, l, x):
    if l.items is not None:
        for i, y in enumerate(l.items):
            if E.fork(E.equal(y, x), f"item {i} equals"): return VI(i)
        raise PyExc("ValueError", "not in list")
    ci, cj = E.fresh("i", I), E.fresh("i", I)
    i = E.fresh("idx", I)
    E.note(x)
    eq = lambda t: E.equal(E.elem(l, t), x)
    if not E.fork(exists_idx(ci, z3.And(0 <= ci, ci < l.n, eq(ci))), "value is in the list"):
        raise PyExc("ValueError", "not in list")
    E.assume(z3.And(0 <= i, i < l.n, eq(i)))
    E.assume(forall_idx(cj, z3.Implies(z3.And(0 <= cj, cj < i), z3.Not(eq(cj)))))
    return VI(i)


@b("list_index", "seq_index")
def _lindex(E, f, a, kw):
    if len(a) > 1: raise Unsupported("index with bounds")
    return find_index(E, E.as_list(f.recv), a[0])


@b("list_remove")
def _lremove(E, f, a, kw):
    i = find_index(E, E.as_list(f.recv), a[0])
    E.list_popat(f.recv, i.t)
    return VNone()


@b("list_count", "seq_count")
def _lcount(E, f, a, kw):
    l = E.as_list(f.recv)
    n = E.fresh("count", I)
    E.assume(z3.And(n >= 0, n <= l.n))
    ci = E.fresh("i", I)
    E.assume((n >= 1) == E.contains(l, a[0]))
    return VI(n)


# ---------------------------------------------------------------- numpy
@b("np_array", "np_asarray")
def _nparray(E, f, a, kw):
    if isinstance(a[0], (VI, VR)): return a[0]
    l = E.as_list(a[0])
    if l.items is not None:
        for x in l.items:
            if not isinstance(x, (VI, VR, VOptR, VB, VNone)): raise Unsupported("array of objects")
        return VLst(len(l.items), None, items=l.items, np=True)
    e = l.f(z3.Int("j"))
    if isinstance(e, VLst) and e.np and e.items is None and not mentions(e.n, z3.Int("j")) and isinstance(e.f(z3.Int("k")), VB):
        return VLst(l.n, l.f, np=True)          # rows of one length: a table of booleans
    if not isinstance(e, (VI, VR, VOptR, VB)): raise Unsupported("array of objects")
    return VLst(l.n, l.f, np=True)


def mentions(t, c):
    return not z3.substitute(t, (c, z3.FreshConst(c.sort()))).eq(t)


@b("np_sum", "np.sum")
def _npsum(E, f, a, kw):
    l = E.as_list(f.recv if f.recv is not None else a[0])
    e = l.items[0] if l.items else (l.f(z3.Int("j")) if l.items is None else None)
    if e is None: return VI(0)
    row = None
    if isinstance(e, VLst): row, e = e, e.f(z3.Int("k"))
    if not isinstance(e, VB): raise Unsupported("sum of an array")
    s = E.fresh("count", I)                     # how many are true: some number, not below 0
    E.assume(s >= 0)
    if row is None: E.assume(s <= l.n)
    return VI(s)


@b("np_tolist", "np_copy")
def _tolist(E, f, a, kw):
    v = f.recv if f.recv is not None else a[0]
    l = E.as_list(v)
    if f.name.endswith("copy"): return VLst(l.n, l.f, items=l.items, np=True)
    c = VCell(VLst(l.n, l.f, items=l.items)); E.cells.append(c); return c


@b("np_argsort", "np_sort_order")
def _argsort(E, f, a, kw):
    if "kind" in kw: kw.pop("kind")
    l = E.as_list(f.recv if f.recv is not None else a[0])
    E.no_none(l, "array")
    pi, inv = E.freshfun("pi", I, I), E.freshfun("inv", I, I)
    x, y = E.fresh("x", I), E.fresh("y", I)
    n = l.n
    E.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= pi(x), pi(x) < n, inv(pi(x)) == x)), patterns=[pi(x)]))
    E.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= inv(x), inv(x) < n, pi(inv(x)) == x)), patterns=[inv(x)]))
    E.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), E.el_real(l, pi(x)) <= E.el_real(l, pi(y))), patterns=[z3.MultiPattern(pi(x), pi(y))]))
    return VLst(n, lambda j: VI(pi(j)), np=True, perm=(pi, inv, l))


@b("np_allclose", "np_isclose")
def _allclose(E, f, a, kw):
    x, y = a[0], a[1]
    if len(a) > 2 or kw: raise Unsupported("allclose tolerances")
    sx, sy = is_seq(x), is_seq(y)
    if not sx and not sy:
        return VB(close(E.as_real(x), E.as_real(y)))
    if f.name.endswith("isclose"): raise Unsupported("isclose of arrays")
    lx = E.as_list(x) if sx else None
    ly = E.as_list(y) if sy else None
    if sx: E.no_none(lx, "array")
    if sy: E.no_none(ly, "array")
    if sx and sy:
        if E.fork(lx.n == ly.n, "array lengths agree"):
            n, ex, ey = lx.n, (lambda j: E.el_real(lx, j)), (lambda j: E.el_real(ly, j))
        elif E.fork(ly.n == 1, "broadcast of a single value"):
            n, ex, ey = lx.n, (lambda j: E.el_real(lx, j)), (lambda j: E.el_real(ly, z3.IntVal(0)))
        elif E.fork(lx.n == 1, "broadcast of a single value"):
            n, ex, ey = ly.n, (lambda j: E.el_real(lx, z3.IntVal(0))), (lambda j: E.el_real(ly, j))
        else:
            raise PyExc("ValueError", "shapes do not match")
    elif sx:
        n, ex, ey = lx.n, (lambda j: E.el_real(lx, j)), (lambda j, t=E.as_real(y): t)
    else:
        n, ex, ey = ly.n, (lambda j, t=E.as_real(x): t), (lambda j: E.el_real(ly, j))
    nn = z3.simplify(n)
    if z3.is_int_value(nn) and nn.as_long() <= 3:
        return VB(z3.And(*[close(ex(z3.IntVal(i)), ey(z3.IntVal(i))) for i in range(nn.as_long())]) if nn.as_long() else z3.BoolVal(True))
    ci = E.fresh("i", I)
    return VB(forall_idx(ci, z3.Implies(z3.And(0 <= ci, ci < n), close(ex(ci), ey(ci)))))


@b("np_logical_and", "np_logical_or")
def _logic(E, f, a, kw):
    fn = z3.And if f.name.endswith("and") else z3.Or
    x, y = E.as_list(a[0]), E.as_list(a[1])
    if not E.fork(x.n == y.n, "mask lengths agree"): raise PyExc("ValueError", "shapes")
    return VLst(x.n, lambda j: VB(fn(E.elem(x, j).t, E.elem(y, j).t)), np=True)


@b("np_logical_not")
def _lnot(E, f, a, kw):
    x = E.as_list(a[0])
    return VLst(x.n, lambda j: VB(z3.Not(E.elem(x, j).t)), np=True)


@b("np_argwhere", "np_flatnonzero")
def _argwhere(E, f, a, kw): return VWhere(E.as_list(a[0]))


@b("np_abs", "np_absolute", "abs")
def _abs(E, f, a, kw):
    v = a[0]
    if is_seq(v):
        l = E.as_list(v); E.no_none(l, "array")
        def g(j):
            t = E.el_real(l, j); return VR(z3.If(t >= 0, t, -t))
        return VLst(l.n, g, np=True)
    t = E.as_real(v)
    return VR(z3.If(t >= 0, t, -t))


@b("np_searchsorted")
def _searchsorted(E, f, a, kw):
    if f.recv is not None: l, t, rest = E.as_list(f.recv), a[0], a[1:]
    else: l, t, rest = E.as_list(a[0]), a[1], a[2:]
    side = kw.get("side", rest[0] if rest else VStr("left"))
    if not isinstance(side, VStr): raise Unsupported("searchsorted side")
    E.no_none(l, "array")
    v = E.as_real(t)
    r = E.fresh("pos", I)
    E.assume(z3.And(0 <= r, r <= l.n))
    x, y, j = E.fresh("x", I), E.fresh("y", I), E.fresh("j", I)
    ex, ey = E.el_real(l, x), E.el_real(l, y)
    srt = forall2(E, x, y, z3.Implies(z3.And(0 <= x, x <= y, y < l.n), ex <= ey), ex, ey)
    ej = E.el_real(l, j)
    if side.s == "left":
        facts = z3.And(z3.Implies(j < r, ej < v), z3.Implies(j >= r, ej >= v))
    else:
        facts = z3.And(z3.Implies(j < r, ej <= v), z3.Implies(j >= r, ej > v))
    E.assume(z3.Implies(srt, forall_idx(j, z3.Implies(z3.And(0 <= j, j < l.n), facts))))
    return VI(r)


def forall2(E, x, y, body, ex, ey):
    px, py = find_patterns(ex, x), find_patterns(ey, y)
    if px and py: return z3.ForAll([x, y], body, patterns=[z3.MultiPattern(px[0], py[0])])
    return z3.ForAll([x, y], body)


@b("np_isnan", "np_unique", "np_concatenate", "np_concat", "np_isin", "np_where", "sum", "sorted")
def _unsup(E, f, a, kw): raise Unsupported(f"builtin {f.name}")
