"""Contracts: base class, specification predicates, and the unit runner."""
import time
import z3
import ghost
from vals import *
import vc
from vc import sel
from vc import (Engine, Heap, SI, SP, SL, ST, SPT, TG, PG, ATG, HEAP_SORTS, ALLFIELDS, REF_FIELDS, sub, forall_idx, exists_idx)

HASH = "#"
OBJ_FIELDS = ("fol", "prev", "label", "_start", "_start?", "_end", "_end?", "super_instance", "_subset_list", "intier", "_within", "has_within",
              "_contains", "has_contains", "tag", "_values", "_values#", "entry_class", "tiername")
PT_FIELDS = ("fol", "prev", "label", "_time", "_time?", "intier", "_within", "has_within", "tag", "tiername", "has_contains")


class State:
    """One use of a contract: argument terms, heaps, mode ('assume' or 'prove')."""
    def __init__(self, e, env, h0, mode):
        self.e, self.env, self.h0, self.mode = e, env, h0, mode
        self.h1, self.res = None, None
        self.memo = {}

    def lit(self, s): return self.e.lit(s)

    # -- membership of a reference in a list, through an inverse function ------------------------
    def pos(self, tag, n, arr):
        """A right inverse of arr on [0,n): every listed reference has a position (conservative)."""
        if tag not in self.memo:
            f = self.e.freshfun("pos", I, I)
            j = z3.Int("j")
            ax = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= f(arr[j]), f(arr[j]) < n, arr[f(arr[j])] == arr[j])), patterns=[arr[j]])
            self.memo[tag], self.memo[("posax", tag)] = f, ax
            self.e.assume(ax)
        elif not any(x.eq(self.memo[("posax", tag)]) for x in self.e.pc):      # the state lives through several paths
            self.e.assume(self.memo[("posax", tag)])
        return self.memo[tag]

    def member(self, tag, n, arr):
        f = self.pos(tag, n, arr)
        return lambda r: z3.And(0 <= f(r), f(r) < n, arr[f(r)] == r)


_q = [0]


def qv(name="q"):
    _q[0] += 1
    return z3.Int(f"{name}.{_q[0]}")


def alli(n, arr, body, trigger=None):
    """forall j in [0,n): body(j, arr[j]), triggered by arr[j] (or by trigger(arr[j]))"""
    j = qv("j")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), body(j, arr[j])), patterns=[trigger(arr[j]) if trigger else arr[j]])


def distinct(S, n, arr, tag="d"):
    if S.mode == "assume":
        f = S.memo.get(("dpos", tag))
        if f is None:
            f = S.e.freshfun("dpos", I, I)
            S.memo[("dpos", tag)] = f
        return alli(n, arr, lambda j, x: f(x) == j)
    a, b = qv("a"), qv("b")
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), arr[a] != arr[b]), patterns=[z3.MultiPattern(arr[a], arr[b])])


SORTED = z3.Function("isSorted", z3.ArraySort(I, I), I, z3.ArraySort(I, R), B)
OPAQUE = [False]     # set per unit: time order as a defined predicate whose definition is not unfolded


def order_axiom():
    """isSorted looks at the times of the listed entries only (proved from the definition: lemma 'order of entries')."""
    a, n, s, t, j = z3.Const("a!o", z3.ArraySort(I, I)), z3.Int("n!o"), z3.Const("s!o", z3.ArraySort(I, R)), z3.Const("t!o", z3.ArraySort(I, R)), z3.Int("j!o")
    same = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), s[a[j]] == t[a[j]]), patterns=[a[j]])
    return z3.ForAll([a, n, s, t], z3.Implies(z3.And(SORTED(a, n, s), same), SORTED(a, n, t)), patterns=[z3.MultiPattern(SORTED(a, n, s), SORTED(a, n, t))])


def sorted_by(n, arr, key):
    if OPAQUE[0] and getattr(key, "array", None) is not None: return SORTED(arr, n, key.array)
    a, b = qv("a"), qv("b")
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < n), key(arr[a]) <= key(arr[b])), patterns=[z3.MultiPattern(arr[a], arr[b])])


def included(S, n0, a0, n1, a1, tag, but=None, onlyif=None):
    """every element of list 0 (except `but`) is an element of list 1"""
    cond = lambda j, x: z3.BoolVal(True)
    if but is not None: cond = lambda j, x: x != but
    if S.mode == "assume":
        f = S.memo.setdefault(("inc", tag), S.e.freshfun("inc", I, I))
        b = alli(n0, a0, lambda j, x: z3.Implies(cond(j, x), z3.And(0 <= f(j), f(j) < n1, a1[f(j)] == x)))
        return b
    i = qv("i")
    touch = S.e.freshfun("touch", I, B)      # makes x a ground term of the goal (arbitrary predicate)
    def body(j, x):
        return z3.Implies(z3.And(touch(x), cond(j, x)), z3.Exists([i], z3.And(0 <= i, i < n1, a1[i] == x), patterns=[a1[i]]))
    return alli(n0, a0, body)


def permuted(S, n, a0, a1, tag, lost="no entry lost", made="no entry invented"):
    """lists 0 and 1 (both of length n, each without repetition) have the same entries"""
    if S.mode == "assume":
        f, b = S.e.freshfun("fw", I, I), S.e.freshfun("bw", I, I)       # positions: two functions that undo each other
        yield lost, alli(n, a0, lambda j, x: z3.And(0 <= f(j), f(j) < n, a1[f(j)] == x, b(f(j)) == j))
        yield made, alli(n, a1, lambda j, x: z3.And(0 <= b(j), b(j) < n, a0[b(j)] == x, f(b(j)) == j))
    else:
        yield lost, included(S, n, a0, n, a1, tag + "fw")
        yield made, included(S, n, a1, n, a0, tag + "bw")


def isin(S, x, n, arr, tag):
    """x is one of arr[0..n)"""
    if S.mode == "assume":
        i = S.memo.get(("in", tag))
        if i is None: i = S.memo[("in", tag)] = S.e.fresh("at", I)
        S.e.at_hint(i)
        return z3.And(0 <= i, i < n, arr[i] == x)
    if S.e.hints:                 # a known position is the easier (and stronger) goal
        g = z3.Or([z3.And(0 <= i, i < n, arr[i] == x) for i in S.e.hints])
        if S.e.implied(g): return z3.BoolVal(True)
    i = qv("i")
    return z3.Exists([i], z3.And(0 <= i, i < n, arr[i] == x), patterns=[arr[i]])


def links(S, h, n, arr):
    """neighbour links mirror the list"""
    H_ = S.lit(HASH)
    out = [("fol is the next entry", alli(n, arr, lambda j, x: z3.Implies(j < n - 1, h.fol(x) == arr[j + 1]), h.fol)),
           ("prev is the entry before", alli(n, arr, lambda j, x: z3.Implies(j > 0, h.prev(x) == arr[j - 1]), h.prev)),
           ("first has a '#' before it", z3.Implies(n > 0, z3.And(h.prev(arr[0]) != 0, h.label(h.prev(arr[0])) == H_))),
           ("last has a '#' after it", z3.Implies(n > 0, z3.And(h.fol(arr[n - 1]) != 0, h.label(h.fol(arr[n - 1])) == H_)))]
    return out


def keyeq(h, x, y, kind, h2=None):
    """equal in times and label (None equals None)"""
    g = h2 or h
    def opt(f, a, b):
        na, nb = h._a(f + "?", a), g._a(f + "?", b)
        return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), h._a(f, a) == g._a(f, b)))
    if kind == SP:
        return z3.And(opt("_time", x, y), h.label(x) == g.label(y))
    return z3.And(opt("_start", x, y), opt("_end", x, y), h.label(x) == g.label(y))


class Contract:
    recv = SI
    name = ""
    props = ()
    public = True
    assume_at_calls = True
    exc = "Exception"
    atomic_raise = True
    allocs = False
    allocs_cls = False
    alloc_fields = ()
    rev_frame = ()
    result_def = None
    mutable_result = False
    opaque_order = False
    extra_fields = ()
    deep = False            # proved in the thorough tier only (slow)
    frame_since = "loop"     # or 'entry': which loop frames are worth trying
    kinds = None             # other name under which several receivers share the class
    ek = None
    budget = 300

    def __init__(self, recv=None, **kw):
        if recv is not None: self.recv = recv
        for k, v in kw.items(): setattr(self, k, v)

    @property
    def id(self): return f"{self.recv or 'function'}.{self.name}{self.variant}"
    variant = ""

    # ---- locating the real function
    def locate(self, prog):
        if self.recv is None: return prog.funcs.get(self.name)
        if self.name.endswith("=") and not self.name.startswith("__"):
            f = prog.setter("WithinMixins" if self.recv == "Node" else self.recv, self.name[:-1])
            return f if f not in (None, "readonly") else None
        recv = self.recv
        if recv == "Node": recv = "WithinMixins"
        if recv == "class": recv = SI
        r = prog.lookup(recv, self.name)
        if r is None and self.name.startswith("__") and not self.name.endswith("__"):
            r = prog.lookup(recv, self.name)
        if r is None or r[0] == "attr": return None
        return r[1]

    # ---- symbolic arguments for verification
    def setup(self, e, func):
        env = {}
        names = [a.arg for a in func.node.args.args]
        env[names[0]] = e_ref(e, "self", self.recv, self.ek)
        vals = self.args(e)
        for n, v in zip(names[1:], vals): env[n] = v
        left = names[1 + len(vals):]
        dn = names[len(names) - len(func.node.args.defaults):]
        for n in left:
            if n not in dn: raise Unsupported(f"parameter {n} of {func.qual} has no value in the contract")
            e.frames.append(vc.Frame(func, {}, None))
            try: env[n] = e.eval(func.node.args.defaults[dn.index(n)])
            finally: e.frames.pop()
        for a, d in zip(func.node.args.kwonlyargs, func.node.args.kw_defaults):
            e.frames.append(vc.Frame(func, {}, None))
            try: env[a.arg] = e.eval(d)
            finally: e.frames.pop()
        self.setup_more(e, env, func)
        return env

    def setup_more(self, e, env, func): pass
    def args(self, e): return []

    # ---- instantiation
    def instantiate(self, e, env, heap, mode):
        S = State(e, env, heap, mode)
        vals = list(env.values())
        S.self = vals[0].t if vals and isinstance(vals[0], (VRef, VC)) else None
        S.a = vals[1:]
        return S if self.bind(S) is not False else None

    def bind(self, S): pass
    def allocating(self, S): return self.allocs      # may new objects come into being?
    def pre(self, S): return []
    def raises(self, S): return None
    def modifies(self, S): return {}
    def raise_mods(self, S): return {}       # what a refused call may have changed
    def make_result(self, e, S): return VNone()
    def post(self, S): return []
    def loop_candidates(self, e, hl, fields, it): return []

    def frame_candidates(self, e, S, hl, fields):
        """Loop invariants that repeat the contract's frame, relative to the state at the loop's start."""
        out = []
        mods = self.modifies(S)
        for f in sorted(fields):
            if f == "nxt" or f not in HEAP_SORTS: continue
            foot = mods.get(f)
            if foot is True: continue
            lim = "cnxt" if f.startswith("c.") else "nxt"
            def inv(k, h, env, f=f, foot=foot, base=hl, lim=lim):
                r = qv("r")
                cond = z3.And(0 <= r, r < base.d[lim])
                if isinstance(foot, list): cond = z3.And(cond, *[r != x for x in foot])
                elif callable(foot): cond = z3.And(cond, z3.Not(foot(r)))
                return z3.ForAll([r], z3.Implies(cond, h.d[f][r] == base.d[f][r]), patterns=[h.d[f][r]])
            if self.frame_since != "entry": out.append((f"frame {f}", inv))
            if self.frame_since == "entry" or not hl.d[lim].eq(S.h0.d[lim]):
                out.append((f"frame {f} since entry", lambda k, h, env, inv=inv: inv(k, h, env, base=S.h0)))
            if isinstance(foot, list):
                for i, x in enumerate(foot):
                    out.append((f"{f} of {i} stays", lambda k, h, env, f=f, x=x: h.d[f][x] == hl.d[f][x]))
        return out


class Lemma(Contract):
    """A fact about specification functions alone, proved by the given (induction) steps."""
    recv = None; assume_at_calls = False
    def __init__(self, name, props, steps):
        self.name, self.props, self.steps = "lemma " + name, props, steps
    @property
    def id(self): return self.name
    def run(self):
        res = Result(self)
        res.func, res.where = self.name, "ghost"
        t0 = time.time()
        for lbl, hyps, goal in self.steps():
            s = vc.mk_solver(vc.RL_PROVE)
            s.add(*hyps); s.add(z3.Not(goal))
            ok = s.check() == z3.unsat
            res.obls.append(vc.Obl(f"{self.name}: {lbl}", "proved" if ok else "failed", "", 0.0))
        res.secs = res.solver = time.time() - t0
        res.status = "proved" if all(o.status == "proved" for o in res.obls) else "failed"
        return res


def e_ref(e, name, kind, ek=None):
    t = e.fresh(name, I)
    e.assume(z3.And(0 < t, t < e.h["nxt"]))
    if ek is None and kind in (ST,): ek = SI
    if ek is None and kind in (SPT,): ek = SP
    return VRef(t, kind, ek, True)


class Result:
    def __init__(self, unit):
        self.unit, self.status, self.obls, self.reason = unit, "?", [], ""
        self.inlined, self.used = set(), set()
        self.secs, self.solver, self.paths = 0.0, 0.0, 0


def class_axioms(e):
    x, y, z = z3.Ints("x y z")
    e.axioms.append(z3.ForAll([x], sub(x, x), patterns=[sub(x, x)]))
    e.axioms.append(z3.ForAll([x], z3.Implies(x != 0, z3.Not(sub(0, x))), patterns=[sub(0, x)]))
    e.axioms.append(z3.ForAll([x, y, z], z3.Implies(z3.And(sub(x, y), sub(y, z)), sub(x, z)), patterns=[z3.MultiPattern(sub(x, y), sub(y, z))]))
    e.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(sub(x, y), sub(y, x)), x == y), patterns=[z3.MultiPattern(sub(x, y), sub(y, x))]))


def verify(prog, contracts, unit, debug=False, budget=None):
    """Generate and discharge every obligation of one function against one contract."""
    if isinstance(unit, Lemma): return unit.run()
    OPAQUE[0] = unit.opaque_order
    res = Result(unit)
    t0 = time.time()
    e = Engine(prog, contracts, unit, debug)
    e.budget_end = t0 + (budget or unit.budget)
    func = unit.locate(prog)
    if func is None:
        res.status, res.reason = "missing", f"{unit.id} not found in the source"
        return res
    res.func = func.qual
    res.where = f"{func.module}:{func.node.lineno}"
    try:
        e.h = e.new_heap()
        e.pc = []
        e.names = {}
        e.lit(HASH); e.lit(""); e.lit(None)
        class_axioms(e)
        e.axioms += ghost.axioms()
        if OPAQUE[0]: e.axioms.append(order_axiom())
        e.assume(e.h["nxt"] > 10)
        e.assume(e.h["cnxt"] > 1000)
        e.assume(e.h["tag"][0] == 0)
        for x in e.wf(e.h): e.assume(x)
        env = unit.setup(e, func)
        S = unit.instantiate(e, env, e.heap(), "assume")
        if S is None: raise Unsupported("contract does not fit its own arguments")
        unit.S = S
        for lbl, f in unit.pre(S): e.assume(f)
        rc = unit.raises(S)
        mods = unit.modifies(S)
        if unit.result_def is not None: rdef = unit.result_def(S)
        st, _ = e.check_unsat([], vc.RL_FORK)
        if st == "unsat":
            res.status, res.reason = "vacuous", "precondition is unsatisfiable"
            return res
        h0 = Heap(e.h)
        nxt0 = h0.nxt
        cnxt0 = h0.cnxt
        npaths = [0, 0]

        def frame(what, m):
            for f in e.allfields:
                if e.h[f].eq(h0.d[f]): continue
                foot = m.get(f)
                if foot is True: continue
                r = qv("r")
                cond = z3.And(0 <= r, r < (cnxt0 if f.startswith("c.") else nxt0))
                if isinstance(foot, list): cond = z3.And(cond, *[r != x for x in foot])
                elif callable(foot): cond = z3.And(cond, z3.Not(foot(r)))
                a1, a0 = e.h[f], h0.d[f]
                e.oblige(f"{unit.id}: {what} {f}", z3.ForAll([r], z3.Implies(cond, a1[r] == a0[r])))

        def run():
            env2 = dict(env)
            try:
                v = e.run_body(func, env2, unit.recv)
            except PyExc as x:
                if e.check_unsat([], vc.RL_FORK)[0] == "unsat": raise PathEnd()
                npaths[1] += 1
                S.mode = "prove"
                e.oblige(f"{unit.id}: raises {x.name} only when the contract says so", rc if rc is not None else z3.BoolVal(False))
                if unit.atomic_raise and rc is not None:
                    frame("unchanged when it raises:", unit.raise_mods(S))
                return None
            if e.check_unsat([], vc.RL_FORK)[0] == "unsat": raise PathEnd()     # infeasible end: proves nothing
            npaths[0] += 1
            if rc is not None:
                e.oblige(f"{unit.id}: raises when the contract says so", z3.Not(rc))
            S.mode = "prove"
            S.h1 = e.heap()
            S.res = v
            if unit.result_def is not None:
                same = unit.same_result(e, S, v, rdef)
                e.oblige(f"{unit.id}: result", same)
            for lbl, f in unit.post(S):
                e.oblige(f"{unit.id}: {lbl}", f)
            frame("frame", mods)
            if not unit.allocating(S) and not e.h["nxt"].eq(nxt0):
                e.oblige(f"{unit.id}: no new object comes into being", e.h["nxt"] == nxt0)
            if not unit.allocs_cls and not e.h["cnxt"].eq(cnxt0):
                e.oblige(f"{unit.id}: no new class comes into being", e.h["cnxt"] == cnxt0)
            return None
        e.explore(run)
        res.paths = npaths
        if not npaths[0] and not npaths[1]:
            res.status, res.reason = "vacuous", "no feasible path"
        elif not npaths[0] and not getattr(unit, "may_only_raise", False):
            res.status, res.reason = "vacuous", "no normal path"
        else:
            bad = [o for o in e.obls if o.status != "proved"]
            fl = [o for o in bad if o.status == "failed"]
            res.status = "failed" if fl else ("limit" if bad else "proved")
    except Unsupported as x:
        res.status, res.reason = "unsupported", str(x)
    except PyExc as x:
        res.status, res.reason = "unsupported", f"set-up raised {x}"
    except (z3.Z3Exception, RecursionError, AttributeError, KeyError, TypeError, IndexError) as x:
        if debug: raise
        res.status, res.reason = "unsupported", f"{type(x).__name__}: {x}"
    finally:
        res.obls = e.obls
        res.inlined = e.inlined
        res.used = e.used_contracts
        res.secs = time.time() - t0
        res.solver = e.solver_time
        res.nq = e.nq
    return res
