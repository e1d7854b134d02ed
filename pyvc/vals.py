"""Symbolic values."""
import z3

Lab = z3.DeclareSort("Lab")
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """A construct outside the verified subset (never a violation)."""


class V:
    np = False


class VNone(V):
    def __repr__(self): return "None"


class VB(V):
    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t
    def __repr__(self): return f"VB({self.t})"


class VI(V):
    def __init__(self, t):
        self.t = z3.IntVal(t) if isinstance(t, int) else t
    def __repr__(self): return f"VI({self.t})"


class VR(V):
    def __init__(self, t):
        self.t = t
    def __repr__(self): return f"VR({self.t})"


class VOptR(V):
    def __init__(self, none, t):
        self.none, self.t = none, t
    def __repr__(self): return f"VOptR({self.none},{self.t})"


class VOptI(V):
    """int or None (a looked-up index)"""
    def __init__(self, none, t):
        self.none, self.t = none, t
    def __repr__(self): return f"VOptI({self.none},{self.t})"


class VL(V):                      # label / string of unknown content
    def __init__(self, t):
        self.t = t
    def __repr__(self): return f"VL({self.t})"


class VStr(V):                    # literal string
    def __init__(self, s):
        self.s = s
    def __repr__(self): return f"VStr({self.s!r})"


class VOpaque(V):
    def __init__(self, what=""):
        self.what = what
    def __repr__(self): return f"VOpaque({self.what})"


class VRef(V):
    """Object reference: z3 Int (0 is None), static kind k, element kind ek for lists/tiers."""
    def __init__(self, t, k, ek=None, nonnull=False):
        self.t, self.k, self.ek, self.nonnull = t, k, ek, nonnull
    def __repr__(self): return f"VRef({self.t}:{self.k})"


class VC(V):
    """Class object: z3 Int tag (0 is None); ik = kind of its instances; static name if known."""
    def __init__(self, t, ik, static=None, mixed=False):
        self.t, self.ik, self.static, self.mixed = t, ik, static, mixed
    def __repr__(self): return f"VC({self.t}:{self.ik}:{self.static})"


class VTup(V):
    def __init__(self, items, cls="tuple"):
        self.items, self.cls = list(items), cls
    def __repr__(self): return f"VTup({self.cls},{self.items})"


class VLst(V):
    """Immutable sequence: length n (z3 Int), element function f, optional concrete items.

    perm = (pi, inv): the list is a permutation of 0..n-1.
    base/off: this is base[off:...] elementwise.
    arr: z3 array the elements are read from (refs), if any."""
    def __init__(self, n, f, items=None, np=False, perm=None, base=None, off=0, arr=None, ek=None, mask_of=None):
        self.n = z3.IntVal(n) if isinstance(n, int) else n
        self.f, self.items, self.np, self.perm = f, items, np, perm
        self.base, self.off, self.arr, self.ek = base if base is not None else self, off, arr, ek
        self.elty = None
    def __repr__(self): return f"VLst(n={self.n},items={self.items})"


class VCell(V):
    """Mutable local list."""
    def __init__(self, v):
        self.v = v
        self.frozen = False
    def __repr__(self): return f"VCell({self.v})"


class VField(V):
    """A list stored in an object field, read through the heap at time of use."""
    def __init__(self, ref, field, ver):
        self.ref, self.field, self.ver = ref, field, ver


class VSet(V):
    def __init__(self, lst):
        self.lst = lst


class VIter(V):
    def __init__(self, src):
        self.src = src


class VEnum(V):
    def __init__(self, src, start=0):
        self.src, self.start = src, start


class VZip(V):
    def __init__(self, srcs):
        self.srcs = srcs


class VRange(V):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class VFun(V):                    # bound / unbound repository function
    via = None
    def __init__(self, func, recv=None, owner=None, attr=None, recvcls=None):
        self.func, self.recv, self.owner, self.attr, self.recvcls = func, recv, owner, attr, recvcls
    def __repr__(self): return f"VFun({self.attr})"


class VBuiltin(V):
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv
    def __repr__(self): return f"VBuiltin({self.name})"


class VLambda(V):
    def __init__(self, node, env):
        self.node, self.env = node, env


class VLabFun(V):
    """Unknown function Label x Label -> Label (a caller-supplied label_fun)."""
    def __init__(self, fn):
        self.fn = fn


class VSuper(V):
    def __init__(self, recv, after):
        self.recv, self.after = recv, after


class VWhere(V):
    """np.argwhere(mask)."""
    def __init__(self, mask):
        self.mask = mask


class PyExc(Exception):
    """The interpreted program raised."""
    def __init__(self, name, msg=""):
        super().__init__(f"{name}: {msg}")
        self.name, self.msg = name, msg


class ReturnEx(Exception):
    def __init__(self, v): self.v = v


class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class PathEnd(Exception): pass


def subst(v, ci, t):
    """Substitute index constant ci by term t inside a value."""
    s = lambda x: z3.substitute(x, (ci, t))
    if isinstance(v, (VNone, VStr, VOpaque, VFun, VBuiltin, VLambda, VLabFun)):
        return v
    if isinstance(v, VB): return VB(s(v.t))
    if isinstance(v, VI): return VI(s(v.t))
    if isinstance(v, VR): return VR(s(v.t))
    if isinstance(v, VL): return VL(s(v.t))
    if isinstance(v, VOptR): return VOptR(s(v.none), s(v.t))
    if isinstance(v, VOptI): return VOptI(s(v.none), s(v.t))
    if isinstance(v, VRef): return VRef(s(v.t), v.k, v.ek, v.nonnull)
    if isinstance(v, VC): return VC(s(v.t), v.ik, v.static, v.mixed)
    if isinstance(v, VTup): return VTup([subst(x, ci, t) for x in v.items], v.cls)
    if isinstance(v, VLst) and v.items is None:
        g = v.f
        return VLst(s(v.n), lambda j: subst(g(j), ci, t), np=v.np)
    raise Unsupported(f"substitution into {v!r}")


def ite(c, a, b):
    """Merge two values."""
    if isinstance(a, VNone) and isinstance(b, VNone): return a
    if isinstance(a, VB) and isinstance(b, VB): return VB(z3.If(c, a.t, b.t))
    if isinstance(a, VI) and isinstance(b, VI): return VI(z3.If(c, a.t, b.t))
    if isinstance(a, (VR, VI)) and isinstance(b, (VR, VI)):
        x = z3.ToReal(a.t) if isinstance(a, VI) else a.t
        y = z3.ToReal(b.t) if isinstance(b, VI) else b.t
        return VR(z3.If(c, x, y))
    if isinstance(a, (VOptR, VR, VNone)) and isinstance(b, (VOptR, VR, VNone)):
        def parts(v):
            if isinstance(v, VNone): return z3.BoolVal(True), z3.RealVal(0)
            if isinstance(v, VR): return z3.BoolVal(False), v.t
            return v.none, v.t
        (n1, t1), (n2, t2) = parts(a), parts(b)
        return VOptR(z3.If(c, n1, n2), z3.If(c, t1, t2))
    if isinstance(a, (VOptI, VI, VNone)) and isinstance(b, (VOptI, VI, VNone)):
        def iparts(v):
            if isinstance(v, VNone): return z3.BoolVal(True), z3.IntVal(0)
            if isinstance(v, VI): return z3.BoolVal(False), v.t
            return v.none, v.t
        (n1, t1), (n2, t2) = iparts(a), iparts(b)
        return VOptI(z3.If(c, n1, n2), z3.If(c, t1, t2))
    if isinstance(a, VL) and isinstance(b, VL): return VL(z3.If(c, a.t, b.t))
    if isinstance(a, VRef) and isinstance(b, VRef) and a.k == b.k:
        return VRef(z3.If(c, a.t, b.t), a.k, a.ek, a.nonnull and b.nonnull)
    if isinstance(a, VRef) and isinstance(b, VNone): return VRef(z3.If(c, a.t, 0), a.k, a.ek)
    if isinstance(a, VNone) and isinstance(b, VRef): return VRef(z3.If(c, 0, b.t), b.k, b.ek)
    if isinstance(a, VC) and isinstance(b, VC):
        return VC(z3.If(c, a.t, b.t), "SequenceInterval" if "SequenceInterval" in (a.ik, b.ik) else a.ik, a.static if a.static == b.static else None, a.mixed or b.mixed or a.ik != b.ik)
    if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items):
        return VTup([ite(c, x, y) for x, y in zip(a.items, b.items)], a.cls)
    if isinstance(a, VStr) and isinstance(b, VStr) and a.s == b.s: return a
    if isinstance(a, VCell): a = a.v
    if isinstance(b, VCell): b = b.v
    if isinstance(a, VLst) and isinstance(b, VLst):
        if a.items is None and b.items is None and a.np == b.np:
            return VLst(z3.If(c, a.n, b.n), lambda j: ite(c, a.f(j), b.f(j)), np=a.np)
    if isinstance(a, VOpaque) or isinstance(b, VOpaque): return VOpaque("merge")
    raise Unsupported(f"merge of {a!r} and {b!r}")
