"""Verification-condition generation by symbolic execution of the parsed source.

Every function is executed symbolically over all inputs that satisfy its contract's
precondition.  Calls of functions under contract use the contract only; other repository
functions are inlined.  Loops use invariants (candidates, kept by the Houdini rule when
they hold on entry and are preserved).  Obligations go to z3 (E-matching, no MBQI).
"""
import ast, re, time, builtins
import z3
from vals import *
from src import Program, mangle, unmangle, Func, Cls

SI, SP, SL, ST, SPT = "SequenceInterval", "SequencePoint", "SequenceList", "SequenceTier", "SequencePointTier"
TG, PG, ATG = "TierGroup", "PointsGroup", "AlignedTextGrid"
TIER_OF = {SI: ST, SP: SPT}

# field typing: kind -> field -> type.  ('ref',kind,ek) ('lab',) ('optr',) ('list',ek) ('cls',ik) ('opaque',)
FIELDS = {
    SI: {"fol": ("ref", SI, None), "prev": ("ref", SI, None), "label": ("lab",), "_start": ("optr",), "_end": ("optr",),
         "super_instance": ("ref", SI, None), "_subset_list": ("ref", SL, SI), "intier": ("ref", ST, SI),
         "tiername": ("lab",), "_within": ("ref", "Any", None), "_contains": ("ref", SL, SI), "_seq_type": ("const", SI)},
    SP: {"fol": ("ref", SP, None), "prev": ("ref", SP, None), "label": ("lab",), "_time": ("optr",),
         "intier": ("ref", SPT, SP), "tiername": ("lab",), "_within": ("ref", "Any", None), "pointspool": ("opaque",),
         "_contains": ("ref", SL, SP), "_seq_type": ("const", SP)},
    SL: {"_values": ("list", None), "entry_class": ("cls", None)},
    ST: {"_sequence_list": ("ref", SL, SI), "name": ("lab",), "entry_class": ("cls", SI), "superset_class": ("cls", SI),
         "subset_class": ("cls", SI), "_within": ("ref", TG, SI), "_contains": ("ref", SL, SI), "entry_list": ("opaque",)},
    SPT: {"_sequence_list": ("ref", SL, SP), "sequence_list": ("ref", SL, SP), "name": ("lab",), "entry_class": ("cls", SP),
          "_within": ("ref", PG, SP), "_contains": ("ref", SL, SP), "entry_list": ("opaque",)},
    TG: {"tier_list": ("list", ST), "_within": ("ref", ATG, None), "_contains": ("list", ST), "_name": ("lab",)},
    PG: {"tier_list": ("list", SPT), "_within": ("ref", ATG, None), "_contains": ("list", SPT), "_name": ("lab",)},
    ATG: {"_tier_groups": ("list", "Grp"), "_contains": ("list", "Grp")},
    "Node": {"_within": ("ref", "Node", None), "_contains": ("list", "Node")},
}
GRP = "Grp"           # a TierGroup or a PointsGroup, by its class
LV, TP, PGRID = "Levels", "TurningPoints", "PolarGrid"
FIELDS[LV] = dict(FIELDS[SP], intier=("ref", SPT, LV), turning_point=("ref", TP, None), ranges_tier=("ref", ST, SI), range_interval=("ref", SI, None))
FIELDS[TP] = dict(FIELDS[SP], intier=("ref", SPT, TP), level=("ref", LV, None))
FIELDS[PGRID] = dict(FIELDS[ATG], Levels=("ref", SPT, LV), TurningPoints=("ref", SPT, TP), Ranges=("ref", ST, SI))
POLAR_FIELDS = ("turning_point", "level", "ranges_tier", "range_interval", "Levels", "TurningPoints", "Ranges")    # in units that ask for them
FLAGGED = {"_within", "_contains"}
REF_FIELDS = {"fol", "prev", "super_instance", "_subset_list", "intier", "_within", "_contains", "_sequence_list", "sequence_list"} | set(POLAR_FIELDS)
MATH_SEQ = {SL, ST, SPT, TG, PG, ATG}

HEAP_SORTS = {}
for f in REF_FIELDS:
    HEAP_SORTS[f] = z3.ArraySort(I, I)
for f in ("label", "tiername", "name", "_name"):
    HEAP_SORTS[f] = z3.ArraySort(I, Lab)
for f in ("_start", "_end", "_time"):
    HEAP_SORTS[f] = z3.ArraySort(I, R)
    HEAP_SORTS[f + "?"] = z3.ArraySort(I, B)            # True = None
for f in ("_within", "_contains"):
    HEAP_SORTS["has" + f] = z3.ArraySort(I, B)
for f in ("_values", "tier_list", "_tier_groups", "_containsL"):
    HEAP_SORTS[f] = z3.ArraySort(I, z3.ArraySort(I, I))
    HEAP_SORTS[f + "#"] = z3.ArraySort(I, I)
HEAP_SORTS["tag"] = z3.ArraySort(I, I)
HEAP_SORTS["entry_class"] = z3.ArraySort(I, I)
HEAP_SORTS["t.superset_class"] = z3.ArraySort(I, I)
HEAP_SORTS["t.subset_class"] = z3.ArraySort(I, I)
HEAP_SORTS["c.superset_class"] = z3.ArraySort(I, I)
HEAP_SORTS["c.subset_class"] = z3.ArraySort(I, I)
ALLFIELDS = [f for f in HEAP_SORTS if f not in POLAR_FIELDS]
CLASS_FIELDS = ("tag", "entry_class", "t.superset_class", "t.subset_class", "c.superset_class", "c.subset_class")

sub = z3.Function("issubclass", I, I, B)
cname = z3.Function("cname", I, Lab)
cbase = z3.Function("cbase", I, I)        # the base a class was made from

RL_PROVE = 40_000_000
RL_FORK = 3_000_000
PORTFOLIO = [(), (("smt.relevancy", 0),), (("smt.random_seed", 99), ("smt.arith.solver", 2)), (("smt.random_seed", 3),),
             (("smt.qi.eager_threshold", 100.0), ("smt.qi.lazy_threshold", 1000.0), ("smt.random_seed", 5))]


def mk_solver(rl):
    s = z3.SimpleSolver()
    s.set("smt.auto_config", False)
    s.set("smt.mbqi", False)
    s.set("smt.random_seed", 7)
    s.set("rlimit", rl)
    return s


def find_patterns(body, var):
    """Smallest select/uninterpreted applications whose argument list mentions var directly."""
    seen, pats = set(), []
    def mentions(t):
        return any(z3.eq(x, var) for x in subterms(t))
    def walk(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return
        if z3.is_app(t):
            k = t.decl().kind()
            direct = any(z3.eq(c, var) for c in t.children())
            if direct and (k == z3.Z3_OP_SELECT or (k == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0)):
                if not any(z3.eq(p, t) for p in pats):
                    pats.append(t)
            for c in t.children(): walk(c)
    walk(body)
    return pats


def terms_of(v):
    """z3 terms inside a value"""
    if isinstance(v, VTup): return [t for x in v.items for t in terms_of(x)]
    if isinstance(v, VLst):
        if v.items is not None: return [t for x in v.items for t in terms_of(x)]
        return [v.n] + terms_of(v.f(z3.Int("j!probe")))
    if isinstance(v, VCell): return terms_of(v.v)
    return [t for t in (getattr(v, "t", None), getattr(v, "none", None)) if z3.is_expr(t)]


def subterms(t):
    out, todo = [], [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x)
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo.extend(x.children())
    return out


def forall_idx(ci, body, extra=()):
    pats = find_patterns(body, ci)
    ps = list(pats) + list(extra)
    if ps:
        return z3.ForAll([ci], body, patterns=ps)
    return z3.ForAll([ci], body)


def exists_idx(ci, body):
    pats = find_patterns(body, ci)
    if pats:
        return z3.Exists([ci], body, patterns=pats)
    return z3.Exists([ci], body)


def sel(arr, idx):
    """Select with local simplification over stores at equal / provably different indices."""
    if isinstance(idx, int): idx = z3.IntVal(idx)
    while z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE:
        i = arr.arg(1)
        if z3.eq(i, idx): return arr.arg(2)
        d = z3.simplify(i - idx)
        if z3.is_int_value(d):
            if d.as_long() == 0: return arr.arg(2)
            arr = arr.arg(0)
            continue
        break
    return z3.Select(arr, idx)


class Heap:
    """Read-only view used by contracts."""
    def __init__(self, d):
        self.d = dict(d)
    @property
    def nxt(self): return self.d["nxt"]
    @property
    def cnxt(self): return self.d["cnxt"]
    def _a(self, f, x): return sel(self.d[f], x)
    def fol(self, x): return self._a("fol", x)
    def prev(self, x): return self._a("prev", x)
    def label(self, x): return self._a("label", x)
    def start(self, x): return self._a("_start", x)
    def end(self, x): return self._a("_end", x)
    def time(self, x): return self._a("_time", x)
    def sup(self, x): return self._a("super_instance", x)
    def sub(self, x): return self._a("_subset_list", x)
    def seq(self, x): return self._a("_sequence_list", x)
    def tag(self, x): return self._a("tag", x)
    def intier(self, x): return self._a("intier", x)
    def within(self, x): return self._a("_within", x)
    def haswithin(self, x): return self._a("has_within", x)
    def contains(self, x): return self._a("_contains", x)
    def n(self, l, f="_values"): return self._a(f + "#", l)
    def arr(self, l, f="_values"): return self._a(f, l)
    def at(self, l, i, f="_values"): return sel(self.arr(l, f), i)
    def ec(self, l): return self._a("entry_class", l)
    def csup(self, c): return self._a("c.superset_class", c)
    def csub(self, c): return self._a("c.subset_class", c)
    def timed(self, x, kind=SI):
        if kind == SP:
            return z3.Not(self._a("_time?", x))
        return z3.And(z3.Not(self._a("_start?", x)), z3.Not(self._a("_end?", x)))
    def key0(self, x, kind=SI):
        return self.time(x) if kind == SP else self.start(x)
    def key1(self, x, kind=SI):
        return self.time(x) if kind == SP else self.end(x)


class Frame:
    def __init__(self, func, env, recv_kind):
        self.func, self.env, self.recv_kind = func, env, recv_kind


class Obl:
    def __init__(self, name, status, detail, secs, sexpr=None):
        self.name, self.status, self.detail, self.secs, self.sexpr = name, status, detail, secs, sexpr


def pairwise(f):
    return z3.is_quantifier(f) and f.is_forall() and f.num_vars() > 1


def alike(a, b):
    """the same formula up to the numbering of bound variables and fresh constants"""
    if a.eq(b): return True
    def canon(t):
        seen = {}
        t = re.sub(r"[.!]\d+", lambda m: m.group(0)[0] + str(seen.setdefault(m.group(0), len(seen))), t.sexpr())
        return " ".join(t.replace("(", " ( ").replace(")", " ) ").split())
    return canon(a) == canon(b)


class Engine:
    def __init__(self, prog, contracts, unit=None, debug=False):
        self.prog, self.contracts, self.unit, self.debug = prog, contracts, unit, debug
        self.allfields = ALLFIELDS + list(getattr(unit, "extra_fields", ()))
        self.lits = {}
        self.axioms = []
        self.obls = []
        self.done = {}
        self.cnt = 0
        self.hints = []
        self.trail, self.pos = [], 0
        self.frames = []
        self.cells = []
        self.quiet = 0          # >0: obligations are assumed (nested exploration)
        self.touched = None     # set of heap fields written (dry run)
        self.hcache = {}
        self.used_contracts = set()
        self.inlined = set()
        self.solver_time = 0.0
        self.nq = 0
        self.clsid = {}
        self.depth = 0
        self.fver = {}
        self.budget_end = None
        self.pc, self.h, self.names, self.base_trail = [], {}, {}, []

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort):
        self.cnt += 1
        return z3.Const(f"{name}!{self.cnt}", sort)

    def freshfun(self, name, *sorts):
        self.cnt += 1
        return z3.Function(f"{name}!{self.cnt}", *sorts)

    def lit(self, s):
        if s not in self.lits:
            c = z3.Const("lit_" + repr(s), Lab)
            for o in self.lits.values():
                self.axioms.append(o != c)
            self.lits[s] = c
        return self.lits[s]

    def cls(self, name):
        """Static class constant."""
        if name not in self.clsid:
            i = len(self.clsid) + 1
            self.clsid[name] = i
        c = self.prog.classes.get(name)
        ik = SI
        if c is not None:
            for k in (SP, ST, SPT, SL, TG, PG, ATG):
                if k in c.mro:
                    ik = k
        t = z3.IntVal(self.clsid[name])
        self.axioms.append(sub(t, t))
        for o, j in self.clsid.items():
            if o == name: continue
            if o in self.prog.classes and name in self.prog.classes:
                self.axioms.append(sub(z3.IntVal(j), t) == z3.BoolVal(self.prog.isa(o, name)))
                self.axioms.append(sub(t, z3.IntVal(j)) == z3.BoolVal(self.prog.isa(name, o)))
        return VC(t, ik, name)

    def assume(self, f):
        if f is None or z3.is_true(f): return
        self.pc.append(f)

    def heap(self):
        return Heap(self.h)

    def new_heap(self):
        d = {f: z3.Const(f"h_{f}", HEAP_SORTS[f]) for f in self.allfields}
        d["nxt"] = z3.Const("nxt", I)
        d["cnxt"] = z3.Const("cnxt", I)
        return d

    def wf(self, d, fields=None):
        """Well-formedness of fresh heap arrays: references are allocated, lengths non-negative."""
        out = []
        r, i = z3.Ints("r i")
        for f in (fields or self.allfields):
            if f in REF_FIELDS:
                a = d[f]
                out.append(z3.ForAll([r], z3.And(0 <= a[r], a[r] < d["nxt"]), patterns=[a[r]]))
            elif f.endswith("#"):
                a = d[f]
                out.append(z3.ForAll([r], a[r] >= 0, patterns=[a[r]]))
            elif f in ("_values", "tier_list", "_tier_groups", "_containsL"):
                a, n = d[f], d[f + "#"]
                out.append(z3.ForAll([r, i], z3.Implies(z3.And(0 < r, r < d["nxt"], 0 <= i, i < n[r]), z3.And(0 < a[r][i], a[r][i] < d["nxt"])),
                                     patterns=[a[r][i]]))
            elif f in ("tag", "entry_class", "t.superset_class", "t.subset_class", "c.superset_class", "c.subset_class"):
                a = d[f]
                out.append(z3.ForAll([r], z3.And(a[r] >= 0, a[r] < d["cnxt"]), patterns=[a[r]]))
                if f == "tag":
                    out.append(z3.ForAll([r], z3.Implies(z3.And(0 < r, r < d["nxt"]), a[r] > 0), patterns=[a[r]]))
        return out

    # ------------------------------------------------------------ solver
    def check_unsat(self, fs, rl, tries=1):
        """tries > 1: when E-matching gives up, other solver settings get a turn (any 'unsat' is a proof)"""
        out = None
        for opts in PORTFOLIO[:tries]:
            r = self.check_once(fs, rl, opts)
            if r[0] in ("unsat", "sat"): return r
            out = out or r
        return out

    def check_once(self, fs, rl, opts):
        t0 = time.time()
        s = mk_solver(rl)
        for k, v in opts: s.set(k, v)
        s.add(*self.axioms)
        s.add(*self.pc)
        s.add(*fs)
        r = s.check()
        self.solver_time += time.time() - t0
        self.nq += 1
        if r == z3.unsat:
            return "unsat", ""
        if r == z3.sat:
            return "sat", ""
        why = s.reason_unknown()
        return ("limit" if ("resource" in why or "cancel" in why or "timeout" in why) else "incomplete"), why

    def at_hint(self, i):
        """Remember a position at which an object is known to be (stale ones only cost time)."""
        if not any(z3.eq(i, j) for j in self.hints): self.hints = (self.hints + [i])[-6:]
        return i

    def implied(self, f):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return self.check_unsat([z3.Not(f)], RL_FORK)[0] == "unsat"

    def oblige(self, name, goal):
        """Prove goal under the path condition, then assume it."""
        if self.quiet:
            self.assume(goal)
            return True
        key = (tuple(self.trail_choices()), name, self.pos_count(name), self.cnt)
        if key not in self.done:
            g = z3.simplify(goal)
            if z3.is_true(g):
                self.done[key] = True
                self.obls.append(Obl(name, "proved", "trivial", 0.0))
            else:
                t0 = time.time()
                st, why = self.check_unsat([z3.Not(goal)], RL_PROVE, 5)
                ok = st == "unsat"
                self.done[key] = ok
                sx = None
                if not ok:
                    sx = {"goal": str(goal)[:3000], "path": [self.trail_desc()], "hyps": len(self.pc)}
                self.obls.append(Obl(name, "proved" if ok else ("limit" if st == "limit" else "failed"), f"{st} {why}", time.time() - t0, sx))
                if self.debug and not ok:
                    print("   OBLIGATION NOT PROVED:", name, st, why, self.trail_desc())
        if self.done[key] and not pairwise(goal):     # pairwise facts are proved but not used again: too many instances
            self.assume(goal)
        return self.done[key]

    def pos_count(self, name):
        self.names[name] = self.names.get(name, 0) + 1
        return self.names[name]

    # ------------------------------------------------------------ forking
    def trail_choices(self):
        return [t[0] for t in self.base_trail + self.trail[:self.pos]]

    def trail_desc(self):
        return " & ".join(str(d) + ("" if c else " [no]") for c, _, d, _ in self.base_trail + self.trail[:self.pos])

    def fork(self, cond, desc=""):
        """Decide a symbolic condition: returns a Python bool, adds it to the path condition."""
        cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
            if not alike(self.trail[self.pos][3], cond): raise Unsupported(f"a path does not repeat: {desc}")
        else:
            q = cond.arg(0) if z3.is_not(cond) else cond
            if z3.is_quantifier(q) and q.is_exists() and q.num_vars() == 1 and self.hints and self.implied(
                    z3.Or([z3.substitute_vars(q.body(), i) for i in self.hints])):      # a position that is known will do
                rt = "known" if q is cond else "unsat"
            else: rt, _ = self.check_unsat([cond], RL_FORK)
            if rt == "known":
                self.trail.append([True, False, desc, cond])
                c = True
            elif rt == "unsat":
                self.trail.append([False, False, desc, cond])
                c = False
            else:
                rf, _ = self.check_unsat([z3.Not(cond)], RL_FORK)
                if rf == "unsat":
                    self.trail.append([True, False, desc, cond])
                    c = True
                else:
                    self.trail.append([True, True, desc, cond])
                    c = True
        self.pos += 1
        self.assume(cond if c else z3.Not(cond))
        return c

    def snapshot(self):
        return (list(self.pc), dict(self.h), [dict(f.env) for f in self.frames], list(self.frames),
                [(c, c.v, c.frozen) for c in self.cells], self.cnt, dict(self.names), self.depth, dict(self.fver))

    def restore(self, s):
        self.pc, self.h = list(s[0]), dict(s[1])
        self.frames = list(s[3])
        for f, e in zip(self.frames, s[2]):
            f.env.clear(); f.env.update(e)
        self.cells = [c for c, _, _ in s[4]]
        for c, v, fr in s[4]:
            c.v, c.frozen = v, fr
        self.cnt = s[5]
        self.names = dict(s[6])
        self.depth = s[7]
        self.fver = dict(s[8])

    def explore(self, fn, limit=400):
        """Run fn over all paths from the current state; list of (outcome, value, pc_suffix, heap, cnt)."""
        s = self.snapshot()
        saved = (self.trail, self.pos, self.base_trail)
        self.base_trail = self.base_trail + self.trail[:self.pos]
        base = len(self.pc)
        trail = []
        out = []
        npaths = 0
        maxcnt = self.cnt
        try:
            while True:
                self.restore(s)
                self.trail, self.pos = trail, 0
                npaths += 1
                if npaths > limit:
                    raise Unsupported("too many paths")
                if self.budget_end and time.time() > self.budget_end:
                    raise Unsupported("time budget")
                try:
                    v = fn()
                    out.append(("ret", v, self.pc[base:], dict(self.h), [t[0] for t in trail]))
                except PathEnd:
                    pass
                except PyExc as e:
                    out.append(("exc", e, self.pc[base:], dict(self.h), [t[0] for t in trail]))
                maxcnt = max(maxcnt, self.cnt)
                while trail and not trail[-1][1]:
                    trail.pop()
                if not trail:
                    break
                trail[-1] = [False, False] + trail[-1][2:]
        finally:
            self.restore(s)
            self.trail, self.pos, self.base_trail = saved
        self.cnt = maxcnt
        return out

    # ------------------------------------------------------------ heap access
    def set_field_arr(self, f, arr):
        self.h[f] = arr
        if self.touched is not None:
            self.touched.add(f)

    def upd(self, f, ref, val):
        self.set_field_arr(f, z3.Store(self.h[f], ref, val))

    def alloc(self, kind, tag=None, ek=None):
        r = self.h["nxt"]
        self.set_field_arr("nxt", z3.simplify(self.h["nxt"] + 1))
        for f in FLAGGED:
            self.upd("has" + f, r, z3.BoolVal(False))
        if tag is not None:
            self.upd("tag", r, tag)
        return VRef(r, kind, ek, nonnull=True)

    def is_tg(self, t):
        return sub(sel(self.h["tag"], t), self.cls(TG).t)

    def resolve(self, v):
        """dynamic dispatch on a group of either kind"""
        return VRef(v.t, TG if self.fork(self.is_tg(v.t), "it is a TierGroup") else PG, None, v.nonnull)

    def field_type(self, ref, attr):
        return FIELDS.get(ref.k, {}).get(attr)

    def listfield(self, kind, attr):
        """heap array name of a list-valued field"""
        if attr == "_contains":
            return "_containsL"
        return attr

    def read_field(self, ref, attr):
        ft = self.field_type(ref, attr)
        if ft is None:
            raise Unsupported(f"field {attr} of {ref.k}")
        k = ft[0]
        if k == "ref":
            kind, ek = ft[1], ft[2]
            if ek in (SI, SP) and ref.ek is not None and ref.k in (ST, SPT, SL): ek = ref.ek
            return VRef(sel(self.h[attr], ref.t), kind, ek)
        if k == "lab":
            return VL(sel(self.h[attr], ref.t))
        if k == "optr":
            return VOptR(sel(self.h[attr + "?"], ref.t), sel(self.h[attr], ref.t))
        if k == "list":
            return VField(ref, attr, self.fver.get((attr, str(ref.t)), 0))
        if k == "cls":
            ik = ft[1] or ref.ek
            f = attr if attr == "entry_class" else "t." + attr
            return VC(sel(self.h[f], ref.t), ik)
        if k == "const":
            return self.cls(ft[1])
        return VOpaque(attr)

    def write_field(self, ref, attr, v):
        ft = self.field_type(ref, attr)
        if ft is None:
            raise Unsupported(f"write of field {attr} of {ref.k}")
        k = ft[0]
        if attr in FLAGGED:
            self.upd("has" + attr, ref.t, z3.BoolVal(True))
        if k == "ref":
            if isinstance(v, VNone):
                self.upd(attr, ref.t, z3.IntVal(0))
            elif isinstance(v, VRef):
                if ft[1] != "Any" and v.k != ft[1]:
                    raise Unsupported(f"type of field {attr}: {v.k} into {ft[1]}")
                self.upd(attr, ref.t, v.t)
            else:
                raise Unsupported(f"write {v!r} into {attr}")
        elif k == "lab":
            self.upd(attr, ref.t, self.as_lab(v))
        elif k == "optr":
            if isinstance(v, VNone):
                self.upd(attr + "?", ref.t, z3.BoolVal(True))
            elif isinstance(v, VOptR):
                self.upd(attr + "?", ref.t, v.none); self.upd(attr, ref.t, v.t)
            else:
                self.upd(attr + "?", ref.t, z3.BoolVal(False)); self.upd(attr, ref.t, self.as_real(v))
        elif k == "list":
            f = self.listfield(ref.k, attr)
            lst = self.as_list(v)
            n, a = self.materialize(lst)
            self.upd(f, ref.t, a); self.upd(f + "#", ref.t, n)
            self.fver[(attr, str(ref.t))] = self.fver.get((attr, str(ref.t)), 0) + 1
            if isinstance(v, VCell):
                v.frozen = True
        elif k == "cls":
            f = attr if attr == "entry_class" else "t." + attr
            if isinstance(v, VNone): self.upd(f, ref.t, z3.IntVal(0))
            elif isinstance(v, VC): self.upd(f, ref.t, v.t)
            else: raise Unsupported(f"write {v!r} into {attr}")
        # const/opaque: dropped

    def materialize(self, lst):
        """(n, array) holding the references of a VLst."""
        if lst.arr is not None:
            return lst.n, lst.arr
        if lst.items is not None:
            a = self.fresh("la", z3.ArraySort(I, I))
            for j, x in enumerate(lst.items):
                if not isinstance(x, VRef): raise Unsupported("list of non-objects stored")
                a = z3.Store(a, j, x.t)
            return z3.IntVal(len(lst.items)), a
        a = self.fresh("la", z3.ArraySort(I, I))
        j = z3.Int("j")
        e = lst.f(j)
        if not isinstance(e, VRef): raise Unsupported("list of non-objects stored")
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lst.n), a[j] == e.t), patterns=[a[j]]))
        for rev in getattr(lst, "rev", []):
            self.assume(rev(a))
        return lst.n, a

    def from_arr(self, n, arr, ek, np=False):
        return VLst(n, lambda j: VRef(sel(arr, j), ek, None, True), arr=arr, ek=ek, np=np)

    # ------------------------------------------------------------ coercions
    def as_lab(self, v):
        if isinstance(v, VL): return v.t
        if isinstance(v, VStr): return self.lit(v.s)
        if isinstance(v, VNone): return self.lit(None)
        if isinstance(v, VOpaque): return self.fresh("lab", Lab)
        raise Unsupported(f"label from {v!r}")

    def as_real(self, v):
        if isinstance(v, VR): return v.t
        if isinstance(v, VI): return z3.ToReal(v.t)
        if isinstance(v, VOptR):
            if not self.fork(z3.Not(v.none), "time is not None"):
                raise PyExc("TypeError", "arithmetic on None")
            return v.t
        if isinstance(v, VNone):
            raise PyExc("TypeError", "arithmetic on None")
        if isinstance(v, VOptI): return z3.ToReal(self.as_int(v))
        raise Unsupported(f"number from {v!r}")

    def as_int(self, v):
        if isinstance(v, VI): return v.t
        if isinstance(v, VB): return z3.If(v.t, 1, 0)
        if isinstance(v, VOptI):
            if not self.fork(z3.Not(v.none), "index is not None"): raise PyExc("TypeError", "None as an index")
            return v.t
        raise Unsupported(f"int from {v!r}")

    def as_list(self, v):
        """Immutable snapshot of a sequence-like value."""
        if isinstance(v, VLst): return v
        if isinstance(v, VCell): return v.v
        if isinstance(v, VTup): return VLst(len(v.items), None, items=list(v.items))
        if isinstance(v, VField):
            f = self.listfield(v.ref.k, v.field)
            if self.fver.get((v.field, str(v.ref.t)), 0) != v.ver:
                raise Unsupported("list field reassigned while aliased")
            ft = self.field_type(v.ref, v.field)
            ek = ft[1] or v.ref.ek
            if ek is None: raise Unsupported("element kind unknown")
            return self.from_arr(sel(self.h[f + "#"], v.ref.t), sel(self.h[f], v.ref.t), ek)
        if isinstance(v, VRef):
            if v.k == SL:
                return self.as_list(VField(v, "_values", self.fver.get(("_values", str(v.t)), 0)))
            if v.k in (ST, SPT):
                return self.as_list(self.getattr(v, "sequence_list"))
            if v.k in (TG, PG):
                return self.as_list(self.read_field(v, "tier_list"))
            if v.k == SI:
                return self.as_list(self.getattr(v, "subset_list"))
            if v.k == GRP: return self.as_list(self.resolve(v))
            if v.k in (ATG, PGRID): return self.as_list(self.getattr(v, "tier_groups"))
        if isinstance(v, VRange):
            lo = v.lo
            n = z3.simplify(z3.If(v.hi > lo, v.hi - lo, 0))
            return VLst(n, lambda j: VI(lo + j))
        if isinstance(v, VEnum):
            l = self.as_list(v.src)
            if l.items is not None:
                return VLst(len(l.items), None, items=[VTup([VI(i + v.start), x]) for i, x in enumerate(l.items)])
            return VLst(l.n, lambda j: VTup([VI(j + v.start), self.elem(l, j)]))
        if isinstance(v, VZip):
            ls = [self.as_list(s) for s in v.srcs]
            if all(l.items is not None for l in ls):
                return VLst(min(len(l.items) for l in ls), None, items=[VTup(list(t)) for t in zip(*[l.items for l in ls])])
            n = ls[0].n
            for l in ls[1:]:
                n = z3.If(l.n < n, l.n, n)
            return VLst(z3.simplify(n), lambda j: VTup([self.elem(l, j) for l in ls]))
        if isinstance(v, VIter): return self.as_list(v.src)
        raise Unsupported(f"sequence from {v!r}")

    def elem(self, l, j):
        if l.items is not None:
            jj = z3.simplify(j) if z3.is_expr(j) else j
            if isinstance(jj, int): return l.items[jj]
            if z3.is_int_value(jj): return l.items[jj.as_long()]
            out = l.items[-1]
            for i in range(len(l.items) - 2, -1, -1):
                out = ite(j == i, l.items[i], out)
            return out
        return l.f(j)

    def truth(self, v):
        """Formula for bool(v)."""
        if isinstance(v, VB): return v.t
        if isinstance(v, VNone): return z3.BoolVal(False)
        if isinstance(v, VI): return v.t != 0
        if isinstance(v, VR): return v.t != 0
        if isinstance(v, (VOptR, VOptI)): return z3.And(z3.Not(v.none), v.t != 0)
        if isinstance(v, VStr): return z3.BoolVal(bool(v.s))
        if isinstance(v, VL): return z3.And(v.t != self.lit(""), v.t != self.lit(None))
        if isinstance(v, VTup): return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, VC): return v.t != 0
        if isinstance(v, (VLst, VCell, VField)):
            if getattr(v, "np", False): raise Unsupported("truth of an array")
            return self.as_list(v).n > 0
        if isinstance(v, VRef):
            look = self.prog.lookup(v.k, "__len__") or self.prog.lookup(v.k, "__bool__")
            if look is None or v.k == "Any":
                if v.k == "Any": raise Unsupported("truth of an object of unknown class")
                return v.t != 0
            if not self.fork(v.t != 0, "not None"):
                return z3.BoolVal(False)
            n = self.call_method(VRef(v.t, v.k, v.ek, True), "__len__" if self.prog.lookup(v.k, "__bool__") is None else "__bool__", [])
            return self.truth(n)
        if isinstance(v, (VFun, VBuiltin, VLambda, VLabFun)): return z3.BoolVal(True)
        raise Unsupported(f"truth of {v!r}")

    # ------------------------------------------------------------ running a function
    def run_body(self, func, env, recv_kind):
        fr = Frame(func, env, recv_kind)
        self.frames.append(fr)
        self.depth += 1
        if self.depth > 14:
            self.depth = 0
            raise Unsupported("inlining depth")
        nf = len(self.frames)
        try:
            self.block(func.node.body)
            r = VNone()
        except ReturnEx as e:
            r = e.v
        finally:
            del self.frames[nf - 1:]
            self.depth -= 1
        return r

    @property
    def env(self): return self.frames[-1].env

    def bind(self, func, args, kwargs, recv=None):
        a = func.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = ([recv] if recv is not None else []) + list(args)
        defaults = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
        star = [v for v in vals if isinstance(v, tuple) and v[0] == "*"]
        vals2 = []
        for v in vals:
            if isinstance(v, tuple) and v[0] == "*":
                l = self.as_list(v[1])
                if l.items is not None:
                    vals2 += l.items
                elif a.vararg and len(vals2) >= len(names):
                    env[a.vararg.arg] = l
                else:
                    raise Unsupported("star argument into positional parameters")
            else:
                vals2.append(v)
        for n, d in zip(names, defaults):
            if vals2:
                env[n] = vals2.pop(0)
            elif n in kwargs:
                env[n] = kwargs.pop(n)
            elif d is not None:
                env[n] = ("default", d)
            else:
                raise PyExc("TypeError", f"missing argument {n}")
        if vals2:
            if a.vararg is None:
                raise PyExc("TypeError", "too many arguments")
            if a.vararg.arg in env: raise Unsupported("mixed star arguments")
            env[a.vararg.arg] = VTup(vals2)
        elif a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = VTup([])
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg in kwargs: env[n.arg] = kwargs.pop(n.arg)
            elif d is not None: env[n.arg] = ("default", d)
            else: raise PyExc("TypeError", f"missing argument {n.arg}")
        if kwargs:
            if a.kwarg is not None:
                raise Unsupported("**kwargs")
            raise PyExc("TypeError", f"unexpected argument {list(kwargs)}")
        if a.kwarg is not None:
            env[a.kwarg.arg] = VOpaque("kwargs")
        env = {n: env[n] for n in sorted(env, key=lambda n: names.index(n) if n in names else len(names))}
        for n, v in list(env.items()):
            if isinstance(v, tuple) and v[0] == "default":
                # defaults are evaluated in the defining scope: literals, lambdas, names only
                self.frames.append(Frame(func, {}, None))
                try:
                    env[n] = self.eval(v[1])
                finally:
                    self.frames.pop()
        return env

    def call_func(self, func, args, kwargs, recv=None, attr=None, via=None):
        """Call a repository function: contract if there is one, else inline."""
        c = None
        if via is not None:               # through super(): the contract of the class that defines it
            c = self.contracts.get((via, attr or func.name))
        elif isinstance(recv, VRef):
            c = self.contracts.get((recv.k, attr or func.name)) or self.contracts.get((recv.k, func.name))
        elif recv is None:
            c = self.contracts.get((None, func.name))
        elif isinstance(recv, VC):
            c = self.contracts.get(("class", attr or func.name))
        if c is not None and c.assume_at_calls:
            return self.apply_contract(c, func, args, dict(kwargs), recv)
        self.inlined.add(func.qual)
        env = self.bind(func, args, dict(kwargs), recv)
        return self.run_body(func, env, recv.k if isinstance(recv, VRef) else None)

    def call_method(self, ref, name, args, kwargs=None):
        m = self.getattr(ref, name)
        return self.call(m, args, kwargs or {})

    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(self, c, func, args, kwargs, recv):
        self.used_contracts.add((c.recv, c.name))
        env = self.bind(func, args, kwargs, recv)
        S = c.instantiate(self, env, self.heap(), mode="prove")
        if S is None:                       # arguments outside the shape of the contract: inline
            self.inlined.add(func.qual)
            return self.run_body(func, env, recv.k if isinstance(recv, VRef) else None)
        loc = f"call {c.recv}.{c.name}"
        if getattr(c, "CASES", None): S.case = c.choose(self, S)
        for lbl, f in c.pre(S):
            self.oblige(f"{loc}: pre {lbl}", f)
        rc = c.raises(S)
        if rc is not None:
            if self.fork(rc, f"{c.name} raises"):
                if not c.atomic_raise:
                    raise Unsupported(f"exception of {c.name} with unspecified state")
                raise PyExc(c.exc, f"from {c.name}")
        h0 = self.heap()
        S.mode = "assume"
        S.h0 = h0
        mods = c.modifies(S)
        allocs = c.allocating(S)
        if c.result_def is not None and not mods and not allocs and not c.allocs_cls:
            r = c.result_def(S)
            if c.mutable_result:
                r = VCell(r); self.cells.append(r)
            return r
        nxt0 = self.h["nxt"]
        if allocs:
            n2 = self.fresh("nxt", I)
            self.assume(n2 >= nxt0)
            self.set_field_arr("nxt", n2)
        cnxt0 = self.h["cnxt"]
        if c.allocs_cls:
            n2 = self.fresh("cnxt", I)
            self.assume(n2 >= cnxt0)
            self.set_field_arr("cnxt", n2)
        changed = []
        r = z3.Int("r")
        allf = set(mods)
        if allocs:
            allf |= set(c.alloc_fields)
        if c.allocs_cls:
            allf |= {"c.superset_class", "c.subset_class"}
        for f in sorted(allf):
            foot = mods.get(f)
            if foot is True:
                na = self.fresh("h_" + f, HEAP_SORTS[f])
                self.set_field_arr(f, na); changed.append(f)
                continue
            if isinstance(foot, list) and f not in (c.alloc_fields if allocs else ()) and not (c.allocs_cls and f.startswith("c.")):
                # finite footprint: stores of fresh values
                na = self.h[f]
                rng = HEAP_SORTS[f].range()
                for x in foot:
                    v = self.fresh("v_" + f, rng)
                    if f in REF_FIELDS: self.assume(z3.And(0 <= v, v < self.h["nxt"]))
                    elif f in CLASS_FIELDS: self.assume(z3.And(v >= 0, v < self.h["cnxt"]))
                    elif f.endswith("#") or rng == I: self.assume(v >= 0)
                    na = z3.Store(na, x, v)
                self.set_field_arr(f, na)
                if f in ("_values", "tier_list", "_tier_groups", "_containsL"):
                    changed.append(f)
                continue
            old = self.h[f]
            na = self.fresh("h_" + f, HEAP_SORTS[f])
            cond = r < (cnxt0 if f.startswith("c.") else nxt0)
            if foot is None: pass
            elif isinstance(foot, list): cond = z3.And(cond, *[r != x for x in foot])
            else: cond = z3.And(cond, z3.Not(foot(r)))
            self.assume(z3.ForAll([r], z3.Implies(cond, na[r] == old[r]), patterns=[na[r]] + ([old[r]] if c.rev_frame and f in c.rev_frame else [])))
            self.set_field_arr(f, na); changed.append(f)
            if f in FIELDS.get(SL, {}):
                pass
        for x in self.wf(self.h, changed):
            self.assume(x)
        for f in mods:
            if f in ("_values", "tier_list", "_tier_groups"):
                for k in list(self.fver):
                    if k[0] == f: self.fver[k] += 1
        res = c.make_result(self, S)
        S.h1 = self.heap()
        S.res = res
        for lbl, f in c.post(S):
            self.assume(f)
        return res

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s)

    def s_Pass(self, s): pass
    def s_Import(self, s): pass
    def s_ImportFrom(self, s): pass
    def s_Global(self, s): raise Unsupported("global")
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.eval(s.value)
    def s_Return(self, s):
        raise ReturnEx(self.eval(s.value) if s.value is not None else VNone())
    def s_Break(self, s): raise BreakEx()
    def s_Continue(self, s): raise ContinueEx()
    def s_Raise(self, s):
        n = "Exception"
        e = s.exc
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name): n = e.func.id
        elif isinstance(e, ast.Name): n = e.id
        raise PyExc(n, "raise")
    def s_Assert(self, s):
        if not self.fork(self.truth(self.eval(s.test)), ast.unparse(s.test)[:60]):
            raise PyExc("AssertionError", "assert")
    def s_If(self, s):
        if self.fork(self.truth(self.eval(s.test)), ast.unparse(s.test)[:60]):
            self.block(s.body)
        else:
            self.block(s.orelse)
    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
    def s_AugAssign(self, s):
        op = ast.BinOp(left=None, op=s.op, right=s.value)
        if isinstance(s.target, ast.Name):
            cur = self.eval(ast.Name(id=s.target.id, ctx=ast.Load()))
            rhs = self.eval(s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, VCell):
                self.list_extend(cur, rhs); return
            self.assign(s.target, self.binop(s.op, cur, rhs))
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value)
            at = mangle(self.frames[-1].func.cls, s.target.attr)
            cur = self.getattr(obj, at)
            rhs = self.eval(s.value)
            if isinstance(s.op, ast.Add) and isinstance(cur, VField):
                self.list_extend(cur, rhs); return
            self.setattr(obj, at, self.binop(s.op, cur, rhs))
        else:
            raise Unsupported("augmented assignment target")
    def s_With(self, s):
        for it in s.items:
            self.eval(it.context_expr)
        self.block(s.body)
    def s_Try(self, s):
        try:
            self.block(s.body)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or (isinstance(h.type, ast.Name) and (h.type.id in (e.name, "Exception") or (h.type.id == "LookupError" and e.name in ("IndexError", "KeyError")))):
                    self.block(h.body)
                    break
            else:
                self.block(s.finalbody)
                raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)
    def s_Delete(self, s): raise Unsupported("del")
    def s_FunctionDef(self, s):
        self.env[s.name] = VLambda(s, dict(self.env))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            l = self.as_list(v) if not isinstance(v, VTup) else None
            items = v.items if isinstance(v, VTup) else l.items
            if items is None:
                if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported("starred target")
                if not self.fork(l.n == len(t.elts), "unpack length"):
                    raise PyExc("ValueError", "unpack")
                items = [self.elem(l, z3.IntVal(i)) for i in range(len(t.elts))]
            if len(items) != len(t.elts):
                raise PyExc("ValueError", "unpack")
            for a, b in zip(t.elts, items):
                self.assign(a, b)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), mangle(self.frames[-1].func.cls, t.attr), v)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def setattr(self, obj, attr, v):
        if isinstance(obj, VRef):
            if not obj.nonnull and not self.fork(obj.t != 0, f"object of .{attr}= is not None"):
                raise PyExc("AttributeError", f"None has no {attr}")
            if attr == "__class__":
                if not isinstance(v, VC): raise Unsupported("__class__ assignment")
                self.upd("tag", obj.t, v.t)
                return
            if obj.k == "Any": raise Unsupported("write to object of unknown class")
            kk = "WithinMixins" if obj.k == "Node" else obj.k
            st = self.prog.setter(kk, attr) if kk in self.prog.classes else None
            if isinstance(st, Func):
                self.call_func(st, [v], {}, recv=obj, attr=attr + "=")
                return
            if st == "readonly":
                raise PyExc("AttributeError", f"no setter for {attr}")
            if self.field_type(obj, attr) is None:
                raise Unsupported(f"write of unknown field {obj.k}.{attr}")
            self.write_field(obj, attr, v)
            return
        if isinstance(obj, VC):
            f = "c." + attr
            if f not in HEAP_SORTS: raise Unsupported(f"class attribute {attr}")
            val = z3.IntVal(0) if isinstance(v, VNone) else v.t
            if not obj.static and self.implied(obj.t == 0): raise PyExc("AttributeError", "None")
            old = self.h[f]
            na = self.fresh("h_" + f, HEAP_SORTS[f])
            d = z3.Int("d")
            # subclasses that inherit the attribute see the new value; others keep theirs
            self.assume(na[obj.t] == val)
            self.assume(z3.ForAll([d], z3.Implies(z3.And(d != obj.t, z3.Not(sub(d, obj.t))), na[d] == old[d]), patterns=[na[d]]))
            self.set_field_arr(f, na)
            return
        if isinstance(obj, VNone):
            raise PyExc("AttributeError", f"None has no {attr}")
        raise Unsupported(f"setattr on {obj!r}")

    # ------------------------------------------------------------ loops
    def iter_proto(self, v):
        """(has(), get()) evaluated live at ghost index k."""
        if isinstance(v, VEnum):
            h, g = self.iter_proto(v.src)
            return h, (lambda k: VTup([VI(k + v.start), g(k)]))
        if isinstance(v, VZip):
            ps = [self.iter_proto(x) for x in v.srcs]
            return (lambda k: z3.And(*[p[0](k) for p in ps])), (lambda k: VTup([p[1](k) for p in ps]))
        if isinstance(v, (VField, VCell, VRef)):
            if isinstance(v, VRef) and v.k not in (SL, ST, SPT, TG, PG, SI, ATG, GRP):
                raise Unsupported(f"iteration over {v.k}")
            if isinstance(v, VRef) and v.k == GRP: v = self.resolve(v)
            if isinstance(v, VRef) and v.k == ATG:
                v = self.getattr(v, "tier_groups")
                if not isinstance(v, VField): v = self.as_list(v)
                else: return self.iter_proto(v)
                return (lambda k: k < v.n), (lambda k: self.elem(v, k))
            return (lambda k: k < self.as_list(v).n), (lambda k: self.elem(self.as_list(v), k))
        l = self.as_list(v)
        return (lambda k: k < l.n), (lambda k: self.elem(l, k))

    def s_For(self, s):
        it = self.eval(s.iter)
        if isinstance(it, VRef) and not it.nonnull:
            if not self.fork(it.t != 0, "iterable is not None"):
                raise PyExc("TypeError", "None is not iterable")
            it = VRef(it.t, it.k, it.ek, True)
        if isinstance(it, VRef) and it.k == ATG:     # __iter__ gives the tier groups
            it = self.getattr(it, "tier_groups")
        try:
            items = None
            l = self.as_list(it) if not isinstance(it, VRef) else None
            if l is not None and l.items is not None: items = l.items
            elif l is not None and z3.is_int_value(z3.simplify(l.n)) and z3.simplify(l.n).as_long() <= 3:
                items = [self.elem(l, z3.IntVal(i)) for i in range(z3.simplify(l.n).as_long())]
        except Unsupported:
            raise
        if items is not None:
            try:
                for x in items:
                    self.assign(s.target, x)
                    try:
                        self.block(s.body)
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.block(s.orelse)
            return
        has, get = self.iter_proto(it)

        def body(k):
            self.assign(s.target, get(k))
            try:
                self.block(s.body)
            except ContinueEx:
                pass
        self.loop(s, lambda k: has(k), body, s.orelse, it)

    def s_While(self, s):
        def body(k):
            try:
                self.block(s.body)
            except ContinueEx:
                pass
        self.loop(s, lambda k: self.truth(self.eval(s.test)), body, s.orelse, None)

    def assigned_names(self, s):
        out = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        return out

    def havoc_val(self, v, name):
        if isinstance(v, VI): return VI(self.fresh(name, I))
        if isinstance(v, VR): return VR(self.fresh(name, R))
        if isinstance(v, VB): return VB(self.fresh(name, B))
        if isinstance(v, VOptR): return VOptR(self.fresh(name + "?", B), self.fresh(name, R))
        if isinstance(v, VL) or isinstance(v, VStr): return VL(self.fresh(name, Lab))
        if isinstance(v, VRef):
            t = self.fresh(name, I)
            self.assume(z3.And(0 <= t, t < self.h["nxt"]))
            return VRef(t, v.k, v.ek)
        if isinstance(v, VC): return VC(self.fresh(name, I), v.ik)
        return None

    def havoc_cell(self, c):
        l = c.v
        ek = l.ek
        ex = None
        if l.items is not None and l.items: ex = l.items[0]
        elif l.items is None: ex = l.f(z3.Int("j"))
        if ex is None:
            ex = getattr(c, "elhint", None)
        n = self.fresh("cn", I)
        self.assume(n >= 0)
        if isinstance(ex, VRef):
            a = self.fresh("ca", z3.ArraySort(I, I))
            c.v = self.from_arr(n, a, ex.k)
        elif isinstance(ex, VI):
            a = self.fresh("ca", z3.ArraySort(I, I)); c.v = VLst(n, lambda j: VI(a[j]))
        elif isinstance(ex, VC):
            a = self.fresh("ca", z3.ArraySort(I, I)); c.v = VLst(n, lambda j: VC(sel(a, j), ex.ik, None, ex.mixed)); c.v.carr = a
        elif isinstance(ex, VR):
            a = self.fresh("ca", z3.ArraySort(I, R)); c.v = VLst(n, lambda j: VR(a[j]))
        elif isinstance(ex, (VL, VStr)):
            a = self.fresh("ca", z3.ArraySort(I, Lab)); c.v = VLst(n, lambda j: VL(a[j]))
        else:
            c.v = VLst(n, lambda j: VOpaque("elem"))

    def loop(self, node, has, body, orelse, it):
        """Invariant-based treatment of a loop with ghost iteration counter k."""
        key = (id(node), tuple(self.trail_choices()), self.quiet, self.cnt)
        hl = self.heap()
        env0 = dict(self.env)
        names = self.assigned_names(node)
        cells0 = [(c, c.v) for c in self.cells]

        def havoc(fields, cells):
            pre_nxt = self.h["nxt"]
            if "nxt" in fields:
                n2 = self.fresh("nxt", I); self.assume(n2 >= pre_nxt); self.h["nxt"] = n2
            if "cnxt" in fields:
                n2 = self.fresh("cnxt", I); self.assume(n2 >= self.h["cnxt"]); self.h["cnxt"] = n2
            ch = []
            for f in sorted(fields):
                if f in ("nxt", "cnxt"): continue
                self.set_field_arr(f, self.fresh("h_" + f, HEAP_SORTS[f])); ch.append(f)
            for x in self.wf(self.h, ch): self.assume(x)
            for k2 in list(self.fver):
                if k2[0] in fields: self.fver[k2] += 1
            for n in names:
                if n in env0:
                    v = env0[n]
                    if isinstance(v, VCell): continue
                    hv = self.havoc_val(v, n)
                    if hv is None: self.env.pop(n, None)
                    else: self.env[n] = hv
                else:
                    self.env.pop(n, None)
            for c in cells: self.havoc_cell(c)

        if key not in self.hcache:
            # Least sets of fields and cells the body can change, and greatest set of candidate
            # invariants, found together: (fields, cells, alive) is final when from any state that
            # satisfies alive and differs from the loop's entry only in fields and cells, the body
            # re-establishes alive and changes nothing else.
            saved_t = self.touched
            fields, cells = set(), []
            alive, dead = {}, set()
            def candidates():
                fixed = {f"len cell{j}=init+k" for j, (c, _) in enumerate(cells0) if not any(c is d for d in cells)}
                for lbl, f in self.loop_candidates(node, it, hl, env0, fields, cells0, has):
                    if lbl in alive or lbl in dead or lbl in fixed: continue
                    try:
                        g = f(z3.IntVal(0), self.heap(), self.env)
                    except Unsupported:
                        continue
                    except Exception as e:
                        if self.debug: print("   candidate error", lbl, type(e).__name__, e)
                        continue
                    if g is None: continue
                    if self.implied(g): alive[lbl] = f
                    else:
                        dead.add(lbl)
                        if self.debug: print("   candidate not initial:", lbl)
            def grown():
                new = acc - fields
                fields.update(new)
                more = [c for c in mutated if not any(c is d for d in cells)]
                cells.extend(more)
                return bool(new or more)
            def body_from(check):
                self.touched = None
                havoc(fields, cells)
                k = self.fresh("k", I); self.assume(k >= 0)
                for lbl, f in alive.items():
                    self.assume(f(k, self.heap(), self.env))
                self.assume(has(k))
                vs = [(c, c.v) for c, _ in cells0]
                n0 = self.h["nxt"], self.h["cnxt"]
                self.touched = acc
                try:
                    try:
                        body(k)
                    except (BreakEx, ReturnEx):
                        return
                finally:
                    for c, v in vs:
                        if c.v is not v and not any(c is d for d in mutated): mutated.append(c)
                    if self.h["nxt"] is not n0[0] and not self.h["nxt"].eq(n0[0]): acc.add("nxt")
                    if self.h["cnxt"] is not n0[1] and not self.h["cnxt"].eq(n0[1]): acc.add("cnxt")
                if not check or acc - fields: return
                for lbl, f in alive.items():
                    if lbl in bad: continue
                    try:
                        g = f(k + 1, self.heap(), self.env)
                    except (Unsupported, KeyError, AttributeError):
                        bad.add(lbl); continue
                    if self.check_unsat([z3.Not(g)], RL_PROVE // 2, 2)[0] != "unsat":
                        bad.add(lbl)
                        if self.debug: print("   candidate not preserved:", lbl, self.trail_desc())
            def run(check):
                self.quiet += 1
                try:
                    self.explore(lambda: body_from(check))
                finally:
                    self.quiet -= 1
                    self.touched = saved_t
            candidates()
            for rnd in range(40):
                acc, mutated, bad = set(), [], set()
                run(rnd > 0)
                for l in bad: alive.pop(l, None)
                dead |= bad
                if grown(): candidates()
                elif not bad and rnd: break
            else:
                raise Unsupported("loop analysis does not settle")
            self.hcache[key] = (fields, cells, list(alive), self.cnt)
            if self.debug: print("   loop invariants kept:", list(alive), "fields:", sorted(fields))
        fields, cells, lbls, self.cnt = self.hcache[key]
        cands = dict(self.loop_candidates(node, it, hl, env0, fields, cells0, has))
        if self.touched is not None: self.touched |= fields
        # cells are recreated on re-execution: match by position
        cidx = getattr(self, "_cellpos", {}).get(key)
        if cidx is None:
            pos = [i for i, (c, _) in enumerate(cells0) if any(c is d for d in self.hcache[key][1])]
            if not hasattr(self, "_cellpos"): self._cellpos = {}
            pos = [(i, getattr(cells0[i][0], "elhint", None)) for i in pos]
            self._cellpos[key] = cidx = pos
        cells = [cells0[i][0] for i, _ in cidx]
        for i, hint in cidx:
            if hint is not None and getattr(cells0[i][0], "elhint", None) is None: cells0[i][0].elhint = hint
        havoc(fields, cells)
        k = self.fresh("k", I); self.assume(k >= 0)
        for lbl in lbls:
            self.assume(cands[lbl](k, self.heap(), self.env))
        if self.fork(has(k), f"loop at line {node.lineno} continues"):
            try:
                body(k)
            except BreakEx:
                return
            raise PathEnd()          # preservation was established by the Houdini rounds
        self.env["$k"] = VI(k)
        self.block(orelse)

    def loop_candidates(self, node, it, hl, env0, fields, cells0, has):
        out = []
        if it is not None:
            out.append(("k within", lambda k, h, env: z3.Or(k == 0, has(k - 1))))
        un = self.unit
        if un is not None:
            out += un.loop_candidates(self, hl, fields, it)
        # counters advance by one
        for n, v in env0.items():
            if isinstance(v, VI) and n in self.assigned_names(node):
                out.append((f"{n}=init+k", lambda k, h, env, n=n, v=v: env[n].t == v.t + k))
        for j, (c, v) in enumerate(cells0):
            out.append((f"len cell{j}=init+k", lambda k, h, env, c=c, v=v: c.v.n == v.n + k))
        if "nxt" in fields:
            out.append(("nxt grows", lambda k, h, env: h.nxt >= hl.nxt))
        if "cnxt" in fields:
            out.append(("cnxt grows", lambda k, h, env: h.cnxt >= hl.cnxt))
        return out

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None: return VNone()
        if isinstance(v, bool): return VB(v)
        if isinstance(v, int): return VI(v)
        if isinstance(v, float): return VR(z3.RealVal(repr(v)))
        if isinstance(v, str): return VStr(v)
        raise Unsupported(f"constant {v!r}")

    def e_Dict(self, e):
        for k in e.keys:
            if not isinstance(k, ast.Constant) or k.value in ("superset_class", "subset_class", "_seq_type"): raise Unsupported("dict display")
        return VOpaque("dict")

    def e_JoinedStr(self, e):
        """Text with numbers in it is a label of its own; other f-strings are not modelled."""
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant): parts.append(x.value)
            else:
                try: v = self.eval(x.value) if isinstance(x.value, ast.Name) else VOpaque("")
                except Unsupported: v = VOpaque("")
                if not isinstance(v, VI): return VOpaque("fstring")
                parts.append(v)
        t = self.fresh("fstr", Lab)
        v = VL(t)
        v.fparts = parts
        for w in ("Top", "Bottom"):
            self.assume(z3.Function("substr_" + w, Lab, B)(t) == z3.BoolVal(any(isinstance(q, str) and w in q for q in parts)))
        return v

    def e_Name(self, e):
        n = e.id
        for fr in (self.frames[-1],):
            if n in fr.env: return fr.env[n]
        if n in self.prog.classes: return self.cls(n)
        if n in self.prog.funcs: return VFun(self.prog.funcs[n], None, None, n)
        if n == "np" or n in ("warnings", "praatio", "sys", "re"): return VBuiltin(n)
        if hasattr(builtins, n) or n in ("Interval", "Point", "IntervalTier", "PointTier", "Textgrid", "Sequence", "reduce", "copy"):
            return VBuiltin(n)
        raise Unsupported(f"name {n}")

    def e_Tuple(self, e): return VTup([self.eval(x) for x in e.elts])
    def e_List(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred): raise Unsupported("starred list")
            items.append(self.eval(x))
        c = VCell(VLst(len(items), None, items=items)); self.cells.append(c)
        return c
    def e_Set(self, e):
        return VSet(VLst(len(e.elts), None, items=[self.eval(x) for x in e.elts]))
    def e_Lambda(self, e): return VLambda(e, dict(self.env))

    def e_IfExp(self, e):
        if self.fork(self.truth(self.eval(e.test)), ast.unparse(e.test)[:50]):
            return self.eval(e.body)
        return self.eval(e.orelse)

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1: return v
            c = self.fork(self.truth(v), ast.unparse(x)[:50])
            if is_and and not c: return v if not isinstance(v, VB) else VB(False)
            if not is_and and c: return v if not isinstance(v, VB) else VB(True)
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not): return VB(z3.Not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, VI): return VI(z3.simplify(-v.t))
            return VR(-self.as_real(v))
        if isinstance(e.op, ast.Invert):
            if isinstance(v, VLst) and v.np:
                return VLst(v.n, lambda j: VB(z3.Not(self.elem(v, j).t)), np=True)
        raise Unsupported(f"unary {type(e.op).__name__}")

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        isl = lambda v: isinstance(v, (VLst, VCell, VField, VTup))
        if isinstance(a, VRef) and a.k == SL or isinstance(a, VRef) and a.k in (SI, ST, SPT, TG, PG):
            if isinstance(op, ast.Add):
                return self.call_method(a, "__add__", [b])
            raise Unsupported("operator on object")
        if (isinstance(a, VLst) and a.np) or (isinstance(b, VLst) and b.np):
            return self.np_binop(op, a, b)
        if isl(a) and isl(b) and isinstance(op, ast.Add):
            return self.list_cat(self.as_list(a), self.as_list(b))
        if isinstance(a, (VStr, VL, VOpaque)) or isinstance(b, (VStr, VL, VOpaque)):
            if isinstance(op, (ast.Add, ast.Mod)): return VOpaque("str")
            raise Unsupported("string operator")
        if isinstance(a, VOptI) and isinstance(b, (VI, VOptI)): a = VI(self.as_int(a))
        if isinstance(b, VOptI) and isinstance(a, VI): b = VI(self.as_int(b))
        if isinstance(a, VI) and isinstance(b, VI):
            if isinstance(op, ast.Add): return VI(z3.simplify(a.t + b.t))
            if isinstance(op, ast.Sub): return VI(z3.simplify(a.t - b.t))
            if isinstance(op, ast.Mult): return VI(z3.simplify(a.t * b.t))
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if not (z3.is_int_value(b.t) and b.t.as_long() > 0): raise Unsupported("integer division")
                return VI(a.t / b.t if isinstance(op, ast.FloorDiv) else a.t % b.t)
        if isinstance(a, VB) and isinstance(b, VB):
            if isinstance(op, ast.BitAnd): return VB(z3.And(a.t, b.t))
            if isinstance(op, ast.BitOr): return VB(z3.Or(a.t, b.t))
        x, y = self.as_real(a), self.as_real(b)
        return VR(self.arith(op, x, y))

    def arith(self, op, x, y):
        if isinstance(op, ast.Add): return x + y
        if isinstance(op, ast.Sub): return x - y
        if isinstance(op, ast.Mult): return x * y
        if isinstance(op, ast.Div): return x / y
        raise Unsupported("arithmetic operator")

    def el_real(self, l, j, why="array of times"):
        v = self.elem(l, j)
        if isinstance(v, VR): return v.t
        if isinstance(v, VI): return z3.ToReal(v.t)
        if isinstance(v, VOptR): return v.t
        raise Unsupported(f"number from array element {v!r}")

    def no_none(self, l, what):
        """Arrays of times are numeric: no element is None (else TypeError)."""
        if l.items is not None:
            fs = [z3.Not(x.none) for x in l.items if isinstance(x, VOptR)]
            g = z3.And(*fs) if fs else None
        else:
            ci = self.fresh("i", I)
            v = self.elem(l, ci)
            if not isinstance(v, VOptR): return
            nn = z3.simplify(v.none)
            if z3.is_false(nn): return
            g = forall_idx(ci, z3.Implies(z3.And(0 <= ci, ci < l.n), z3.Not(v.none)))
        if g is None: return
        if not self.fork(g, f"no None in {what}"):
            raise PyExc("TypeError", "None in array arithmetic")

    def np_binop(self, op, a, b):
        la = self.as_list(a) if isinstance(a, (VLst, VCell)) else None
        lb = self.as_list(b) if isinstance(b, (VLst, VCell)) else None
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            f = z3.And if isinstance(op, ast.BitAnd) else z3.Or
            if la is None or lb is None: raise Unsupported("array and scalar")
            def both(x, y):
                if isinstance(x, VB) and isinstance(y, VB): return VB(f(x.t, y.t))
                if isinstance(x, VLst) and isinstance(y, VLst) and z3.eq(z3.simplify(x.n), z3.simplify(y.n)):
                    return VLst(x.n, lambda k: both(self.elem(x, k), self.elem(y, k)), np=True)
                raise Unsupported("elementwise and/or")
            if not self.fork(la.n == lb.n, "array lengths agree"):
                raise PyExc("ValueError", "operands could not be broadcast")
            if la.items is None and isinstance(la.f(z3.Int("j")), VLst) and not self.fork(la.n > 0, "the table has rows"):
                raise PyExc("TypeError", "an empty array is an array of numbers")
            return VLst(la.n, lambda j: both(self.elem(la, j), self.elem(lb, j)), np=True)
        if la is not None: self.no_none(la, "array")
        if lb is not None: self.no_none(lb, "array")
        if la is not None and lb is not None:
            if not self.fork(la.n == lb.n, "array lengths agree"):
                raise PyExc("ValueError", "operands could not be broadcast")
            return VLst(la.n, lambda j: VR(self.arith(op, self.el_real(la, j), self.el_real(lb, j))), np=True)
        if la is not None:
            y = self.as_real(b)
            return VLst(la.n, lambda j: VR(self.arith(op, self.el_real(la, j), y)), np=True)
        x = self.as_real(a)
        return VLst(lb.n, lambda j: VR(self.arith(op, x, self.el_real(lb, j))), np=True)

    def list_cat(self, a, b):
        if a.items is not None and b.items is not None:
            c = VCell(VLst(len(a.items) + len(b.items), None, items=a.items + b.items))
        else:
            na = a.n
            n = z3.simplify(a.n + b.n)
            v = VLst(n, None)
            def f(j):
                if b.items is not None and len(b.items) == 0: return self.elem(a, j)
                if a.items is not None and len(a.items) == 0: return self.elem(b, j)
                return ite(j < na, self.elem(a, j), self.elem(b, j - na))
            v.f = f
            ra, rb = a, b
            # reverse direction: every element of a and of b is an element of the result
            revs = []
            j = z3.Int("j")
            if a.items is None:
                ea = self.elem(a, j)
                if isinstance(ea, VRef) and a.arr is not None:
                    revs.append(lambda arr, a=a: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.n), arr[j] == a.arr[j]), patterns=[a.arr[j]]))
            if b.items is None:
                if b.arr is not None:
                    revs.append(lambda arr, b=b, na=na: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < b.n), arr[na + j] == b.arr[j]), patterns=[b.arr[j]]))
            else:
                for q, x in enumerate(b.items):
                    if isinstance(x, VRef):
                        revs.append(lambda arr, x=x, q=q, na=na: arr[na + q] == x.t)
            v.rev = revs
            ex = None
            try:
                ex = f(j)
            except Unsupported:
                pass
            if isinstance(ex, VRef):
                n2, arr = self.materialize(v)
                v = self.from_arr(n, arr, ex.k)
            c = VCell(v)
        self.cells.append(c)
        return c

    def list_extend(self, tgt, src):
        cur = self.as_list(tgt)
        new = self.list_cat(cur, self.as_list(src)).v
        self.list_set(tgt, new)

    def list_set(self, tgt, lst):
        if isinstance(tgt, VCell):
            if tgt.frozen: raise Unsupported("mutation of an aliased list")
            tgt.v = lst
        elif isinstance(tgt, VField):
            f = self.listfield(tgt.ref.k, tgt.field)
            n, a = self.materialize(lst)
            self.upd(f, tgt.ref.t, a); self.upd(f + "#", tgt.ref.t, n)
        else:
            raise Unsupported("list mutation")

    def list_insert(self, tgt, idx, x):
        cur = self.as_list(tgt)
        n = cur.n
        if cur.items is not None and z3.is_int_value(z3.simplify(idx)):
            it = list(cur.items); it.insert(z3.simplify(idx).as_long(), x)
            self.list_set(tgt, VLst(len(it), None, items=it)); return
        if not isinstance(x, VRef):
            # general values: closure
            if not z3.eq(z3.simplify(idx), z3.simplify(n)): raise Unsupported("insert of a value")
            if cur.items is not None:
                self.list_set(tgt, VLst(len(cur.items) + 1, None, items=cur.items + [x])); return
            self.list_set(tgt, VLst(z3.simplify(n + 1), lambda j: ite(j < n, self.elem(cur, j), x)))
            return
        nn, arr = self.materialize(cur)
        i0 = z3.If(idx < 0, z3.If(idx + n < 0, 0, idx + n), z3.If(idx > n, n, idx))
        i0 = z3.simplify(i0)
        if self.implied(z3.And(idx >= 0, idx <= n)): i0 = idx
        b = self.fresh("ins", z3.ArraySort(I, I))
        for f in self.spliced(n, arr, b, i0): self.assume(f)
        self.assume(b[i0] == x.t)
        self.at_hint(i0)
        self.list_set(tgt, self.from_arr(z3.simplify(n + 1), b, x.k))

    def spliced(self, n, a, b, i):
        """b is a (of length n) with one more entry at position i.

        The positions are related by two functions that undo each other, so that instantiation ends."""
        f, g = self.freshfun("up", I, I), self.freshfun("down", I, I)
        j = z3.Int("j")
        yield z3.ForAll([j], z3.And(f(j) == z3.If(j < i, j, j + 1), g(f(j)) == j), patterns=[f(j)])
        yield z3.ForAll([j], z3.Implies(j != i, z3.And(g(j) == z3.If(j < i, j, j - 1), f(g(j)) == j)), patterns=[g(j)])
        yield z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(b[f(j)] == a[j], g(f(j)) == j)), patterns=[a[j]])
        yield z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n, j != i), z3.And(a[g(j)] == b[j], f(g(j)) == j)), patterns=[b[j]])

    def list_popat(self, tgt, idx):
        cur = self.as_list(tgt)
        n = cur.n
        if not self.fork(z3.And(idx < n, idx >= -n), "pop index in range"):
            raise PyExc("IndexError", "pop index out of range")
        i0 = idx if self.implied(idx >= 0) else z3.If(idx < 0, idx + n, idx)
        if cur.items is not None and z3.is_int_value(z3.simplify(i0)):
            it = list(cur.items); x = it.pop(z3.simplify(i0).as_long())
            self.list_set(tgt, VLst(len(it), None, items=it)); return x
        ex = self.elem(cur, i0)
        if not isinstance(ex, VRef): raise Unsupported("pop of a value list")
        nn, arr = self.materialize(cur)
        b = self.fresh("rem", z3.ArraySort(I, I))
        for f in self.spliced(n - 1, b, arr, i0): self.assume(f)
        self.list_set(tgt, self.from_arr(z3.simplify(n - 1), b, ex.k))
        return ex

    # ------------------------------------------------------------ comparisons
    def e_Compare(self, e):
        left = self.eval(e.left)
        out = None
        for op, rn in zip(e.ops, e.comparators):
            right = self.eval(rn)
            r = self.compare(op, left, right)
            if out is None: out = r
            else:
                if isinstance(r, VB) and isinstance(out, VB): out = VB(z3.And(out.t, r.t))
                else: raise Unsupported("chained array comparison")
            left = right
        return out

    def same(self, a, b):
        """`is`"""
        if isinstance(a, VNone) and isinstance(b, VNone): return z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VNone):
                if isinstance(y, (VRef, VC)): return y.t == 0
                if isinstance(y, (VOptR, VOptI)): return y.none
                if isinstance(y, VL): return y.t == self.lit(None)
                if isinstance(y, VOpaque): raise Unsupported("None test of opaque value")
                return z3.BoolVal(False)
        if isinstance(a, VRef) and isinstance(b, VRef): return a.t == b.t
        if isinstance(a, VC) and isinstance(b, VC): return a.t == b.t
        if isinstance(a, VB) and isinstance(b, VB): return a.t == b.t
        if isinstance(a, VBuiltin) and isinstance(b, VBuiltin): return z3.BoolVal(a.name == b.name)
        if isinstance(a, VC) and isinstance(b, VBuiltin) or isinstance(b, VC) and isinstance(a, VBuiltin): return z3.BoolVal(False)
        if isinstance(a, VCell) and isinstance(b, VCell): return z3.BoolVal(a is b)
        raise Unsupported(f"`is` of {a!r} and {b!r}")

    def equal(self, a, b):
        if isinstance(a, VNone) or isinstance(b, VNone): return self.same(a, b)
        if isinstance(a, (VL, VStr)) and isinstance(b, (VL, VStr)):
            if isinstance(a, VStr) and isinstance(b, VStr): return z3.BoolVal(a.s == b.s)
            return self.as_lab(a) == self.as_lab(b)
        if isinstance(a, VTup) and isinstance(b, VTup):
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            return z3.And(*[self.equal(x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        if isinstance(a, VOptR) and isinstance(b, VOptR):
            return z3.Or(z3.And(a.none, b.none), z3.And(z3.Not(a.none), z3.Not(b.none), a.t == b.t))
        if isinstance(a, VOptI) and isinstance(b, VOptI):
            return z3.Or(z3.And(a.none, b.none), z3.And(z3.Not(a.none), z3.Not(b.none), a.t == b.t))
        if isinstance(a, VOptI) and isinstance(b, VI): return z3.And(z3.Not(a.none), a.t == b.t)
        if isinstance(b, VOptI) and isinstance(a, VI): return z3.And(z3.Not(b.none), a.t == b.t)
        if isinstance(a, (VI, VR, VOptR)) and isinstance(b, (VI, VR, VOptR)):
            if isinstance(a, VI) and isinstance(b, VI): return a.t == b.t
            c = [z3.Not(x.none) for x in (a, b) if isinstance(x, VOptR)]
            rr = lambda v: z3.ToReal(v.t) if isinstance(v, VI) else v.t
            return z3.And(*c, rr(a) == rr(b))
        if isinstance(a, (VRef, VC, VB)) and isinstance(b, (VRef, VC, VB)):
            if isinstance(a, VRef) and isinstance(b, VRef):
                if self.prog.lookup(a.k, "__eq__") is not None: raise Unsupported("__eq__")
            return self.same(a, b)
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.same(a, b)
            return VB(f if isinstance(op, ast.Is) else z3.Not(f))
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(b, a)
            return VB(f if isinstance(op, ast.In) else z3.Not(f))
        anp = isinstance(a, VLst) and a.np or isinstance(b, VLst) and b.np
        if anp:
            return self.np_compare(op, a, b)
        if isinstance(op, ast.Eq): return VB(self.equal(a, b))
        if isinstance(op, ast.NotEq): return VB(z3.Not(self.equal(a, b)))
        if isinstance(a, VI) and isinstance(b, VI): x, y = a.t, b.t
        else: x, y = self.as_real(a), self.as_real(b)
        return VB({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]())

    def np_compare(self, op, a, b):
        fn = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y,
              ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y}[type(op)]
        la = a if isinstance(a, VLst) else None
        lb = b if isinstance(b, VLst) else None
        if la is not None: self.no_none(la, "array")
        if lb is not None: self.no_none(lb, "array")
        if la is not None and lb is not None:
            if not self.fork(la.n == lb.n, "array lengths agree"):
                raise PyExc("ValueError", "operands could not be broadcast")
            r = VLst(la.n, lambda j: VB(fn(self.el_real(la, j), self.el_real(lb, j))), np=True)
            if lb.off == la.off + 1 and isinstance(op, ast.LtE) and self.same_base(la.base, lb.base):
                r.adjacent = (la.base, la.off, la.n)
            return r
        if la is not None:
            y = self.as_real(b)
            return VLst(la.n, lambda j: VB(fn(self.el_real(la, j), y)), np=True)
        x = self.as_real(a)
        return VLst(lb.n, lambda j: VB(fn(x, self.el_real(lb, j))), np=True)

    def same_base(self, a, b):
        """Two sequence values are the same function of the index."""
        if a is b: return True
        if a.items is not None or b.items is not None: return False
        j = z3.Int("j!probe")
        x, y = a.f(j), b.f(j)
        if type(x) is not type(y) or not hasattr(x, "t"): return False
        return z3.eq(z3.simplify(a.n), z3.simplify(b.n)) and z3.eq(x.t, y.t)

    def note(self, x):
        """Make the terms of a value known to the instantiation engine (a predicate that is true everywhere)."""
        for t in terms_of(x):
            if not z3.is_const(t) and not z3.is_bool(t): self.assume(z3.Function("noted_" + str(t.sort()), t.sort(), B)(t))

    def contains(self, cont, x):
        """Formula for `x in cont`."""
        if isinstance(cont, VStr):
            if isinstance(x, VStr): return z3.BoolVal(x.s in cont.s)
            raise Unsupported("substring of unknown")
        if isinstance(cont, VL):
            if isinstance(x, VStr):
                f = z3.Function("substr_" + x.s, Lab, B)
                return f(cont.t)
            raise Unsupported("substring")
        if isinstance(cont, VRef):
            k = cont.k
            look = self.prog.lookup(k, "__contains__")
            if look is not None:
                r = self.call_method(cont, "__contains__", [x])
                return self.truth(r)
            if "Sequence" in self.prog.classes[k].mro:
                return self.contains(self.as_list(cont), x)
            raise Unsupported(f"`in` on {k}")
        if isinstance(cont, VSet): return self.contains(cont.lst, x)
        l = self.as_list(cont)
        if l.items is not None:
            return z3.Or(*[self.equal(y, x) for y in l.items]) if l.items else z3.BoolVal(False)
        ci = self.fresh("i", I)
        return exists_idx(ci, z3.And(0 <= ci, ci < l.n, self.equal(self.elem(l, ci), x)))

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, e):
        v = self.eval(e.value)
        if isinstance(v, VRef) and v.k in self.prog.classes:
            if isinstance(e.slice, ast.Slice):
                raise Unsupported("slice of object")
            if not v.nonnull and not self.fork(v.t != 0, "subscripted object is not None"):
                raise PyExc("TypeError", "None is not subscriptable")
            return self.call_method(v, "__getitem__", [self.eval(e.slice)])
        if isinstance(v, VOpaque): return VOpaque("item")
        if isinstance(e.slice, ast.Slice):
            return self.slice_(v, e.slice)
        i = self.eval(e.slice)
        return self.index(v, i)

    def slice_(self, v, s):
        l = self.as_list(v)
        if s.step is not None: raise Unsupported("slice step")
        lo = self.eval(s.lower).t if s.lower is not None else z3.IntVal(0)
        hi = self.eval(s.upper).t if s.upper is not None else l.n
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        n = l.n
        def norm(x):
            if z3.is_int_value(x):
                c = x.as_long()
                if c == 0: return z3.IntVal(0)
                if c < 0: return z3.If(n + c < 0, 0, n + c)
                return z3.If(n < c, n, c)
            return z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x))
        lo2 = norm(lo)
        hi2 = n if z3.eq(hi, n) else norm(hi)
        m = z3.simplify(z3.If(hi2 > lo2, hi2 - lo2, 0))
        lo2 = z3.simplify(lo2)
        off = lo.as_long() if z3.is_int_value(lo) and lo.as_long() >= 0 else None
        # with a constant non-negative lower bound the slice starts there whenever it is non-empty
        st = z3.IntVal(off) if off is not None else lo2
        r = VLst(m, lambda j: self.elem(l, st + j), np=l.np)
        if off is not None:
            r.base, r.off = l.base, l.off + off
        return r

    def index(self, v, i):
        if isinstance(v, VTup):
            if isinstance(i, VI) and z3.is_int_value(z3.simplify(i.t)):
                j = z3.simplify(i.t).as_long()
                if not -len(v.items) <= j < len(v.items): raise PyExc("IndexError", "tuple index")
                return v.items[j]
        l = self.as_list(v)
        if isinstance(i, VLst):
            if i.np and isinstance(self.elem(i, z3.IntVal(0)) if i.items else i.f(z3.Int("j")), VB):
                raise Unsupported("boolean mask")
            raise Unsupported("index with an array")
        if isinstance(i, VOptI): i = VI(self.as_int(i))
        if isinstance(i, VNone): raise PyExc("TypeError", "list indices must be integers")
        if not isinstance(i, VI): raise Unsupported(f"index {i!r}")
        t = z3.simplify(i.t)
        if l.items is not None and z3.is_int_value(t):
            j = t.as_long()
            if not -len(l.items) <= j < len(l.items): raise PyExc("IndexError", "list index")
            return l.items[j]
        if z3.is_int_value(t):
            ok = (l.n > t.as_long()) if t.as_long() >= 0 else (l.n >= -t.as_long())
        else:
            ok = z3.And(t < l.n, t >= -l.n)
        if not self.fork(ok, f"index in range"):
            raise PyExc("IndexError", "list index out of range")
        if z3.is_int_value(t):
            j = t if t.as_long() >= 0 else z3.simplify(l.n + t)
        elif self.implied(t >= 0):
            j = t
        else:
            if self.fork(t >= 0, "index is non-negative"): j = t
            else: j = t + l.n
        return self.elem(l, j)

    # ------------------------------------------------------------ comprehensions
    def e_GeneratorExp(self, e): return self.e_ListComp(e)
    def e_SetComp(self, e): return VSet(self.as_list(self.e_ListComp(e)))

    def e_ListComp(self, e):
        if len(e.generators) != 1: 
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        src = self.eval(g.iter)
        l = self.as_list(src)
        if l.items is not None:
            saved = dict(self.env)
            out = []
            for x in l.items:
                self.assign(g.target, x)
                keep = True
                for c in g.ifs:
                    if not self.fork(self.truth(self.eval(c)), ast.unparse(c)[:40]): keep = False; break
                if keep: out.append(self.eval(e.elt))
            self.env.clear(); self.env.update(saved)
            c = VCell(VLst(len(out), None, items=out)); self.cells.append(c)
            return c
        lst = l
        if g.ifs:
            lst = self.filter(lst, g)
        if isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
            res = lst if lst.items is None else lst
            c = VCell(VLst(res.n, res.f, arr=res.arr, ek=res.ek, perm=res.perm)); self.cells.append(c)
            if getattr(res, "rev", None): c.v.rev = res.rev
            return c
        ci = self.fresh("i", I)
        rng = z3.And(0 <= ci, ci < lst.n)
        val = self.pure_elem(lambda: (self.assign(g.target, self.elem(lst, ci)), self.eval(e.elt))[1], rng, [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)], ci)
        el = self.elem(lst, ci)
        if isinstance(val, VRef) and isinstance(el, VRef) and val.k == el.k and z3.eq(val.t, el.t):
            # every entry stays itself: the same list
            c = VCell(VLst(lst.n, lst.f, arr=lst.arr, ek=lst.ek, perm=lst.perm)); self.cells.append(c)
            if getattr(lst, "rev", None): c.v.rev = lst.rev
            return c
        r = VLst(lst.n, lambda j: subst(val, ci, j))
        if lst.perm is not None and isinstance(val, VRef):
            pi, inv, tgt = lst.perm
            # val(i) = base[pi(i)] : remember the reverse direction
            ej = z3.Int("j")
            def rev(arr):
                # for every original index j: arr[inv(j)] is the value at pi = j
                v2 = z3.substitute(val.t, (ci, inv(ej)))
                v3 = z3.substitute(v2, (pi(inv(ej)), ej))
                pats = find_patterns(v3, ej)
                pats = [p for p in pats if not z3.eq(p, inv(ej))]
                b = z3.Implies(z3.And(0 <= ej, ej < lst.n), arr[inv(ej)] == v3)
                return z3.ForAll([ej], b, patterns=pats or [inv(ej)])
            r.rev = [rev]
        if isinstance(val, VRef):
            n2, arr = self.materialize(r)
            r = self.from_arr(r.n, arr, val.k)
        c = VCell(r); self.cells.append(c)
        return c

    def pure_elem(self, thunk, rng, names, ci=None):
        """Value of an element expression at a symbolic index; must not change the heap."""
        saved = {n: self.env.get(n) for n in names}
        h0 = dict(self.h)
        def run():
            self.assume(rng)
            v = thunk()
            return v
        cnt0 = self.cnt
        outs = self.explore(run, limit=40)
        vals = []
        skolem = None
        for kind, v, pcs, h, tr in outs:
            if kind == "ret" and any(self.is_new(t, cnt0) for t in pcs[1:] + terms_of(v)):
                if ci is None or sum(1 for o in outs if o[0] == "ret") > 1:
                    raise Unsupported("comprehension element depends on a choice made per element")
                skolem = self.new_consts(pcs[1:] + terms_of(v), cnt0)
        for kind, v, pcs, h, tr in outs:
            for f in h0:
                if not h[f].eq(h0[f]):
                    raise Unsupported("comprehension with side effects")
            if kind == "exc":
                # must be infeasible
                n = len(self.pc)
                self.pc += pcs
                ok, _ = self.check_unsat([], RL_PROVE)
                del self.pc[n:]
                if ok != "unsat":
                    if self.fork(z3.BoolVal(True) if False else self.fresh("exc", B), f"element raises {v.name}"):
                        raise PyExc(v.name, "in comprehension")
                continue
            vals.append((pcs[1:], v))
        for n, v in saved.items():
            if v is None: self.env.pop(n, None)
            else: self.env[n] = v
        if not vals: raise Unsupported("comprehension element has no normal path")
        if skolem:
            # one normal path with choices (such as the index of a value): they are functions of the position
            pairs = [(c, self.freshfun("choice", I, c.sort())(ci)) for c in skolem]
            pcs, v = vals[0]
            body = z3.Implies(rng, z3.substitute(z3.And(*pcs) if pcs else z3.BoolVal(True), *pairs))
            self.assume(z3.ForAll([ci], body, patterns=[f for _, f in pairs]))
            for c, f in pairs: v = subst(v, c, f)
            vals = [([], v)]
        out = vals[-1][1]
        for pcs, v in reversed(vals[:-1]):
            out = ite(z3.And(*pcs) if pcs else z3.BoolVal(True), v, out)
        return out

    def new_consts(self, ts, cnt0):
        out = {}
        for t in ts:
            for x in subterms(t):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
                    k = x.decl().name().rsplit("!", 1)[1]
                    if k.isdigit() and int(k) > cnt0:
                        if x.num_args(): raise Unsupported("comprehension element depends on a choice made per element")
                        out[x.decl().name()] = x
        return list(out.values())

    def is_new(self, t, cnt0):
        """t mentions a symbol introduced after cnt0 (it would have to be a function of the index)"""
        for x in subterms(t):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if "!" in n:
                    k = n.rsplit("!", 1)[1]
                    if k.isdigit() and int(k) > cnt0: return True
        return False

    def filter(self, lst, g):
        ci = self.fresh("i", I)
        rng = z3.And(0 <= ci, ci < lst.n)
        def cond():
            self.assign(g.target, self.elem(lst, ci))
            t = z3.BoolVal(True)
            for c in g.ifs:
                t = z3.And(t, self.truth(self.eval(c)))
            return VB(z3.simplify(t))
        cv = self.pure_elem(cond, rng, [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)])
        ct = cv.t
        # a filter that provably keeps everything / nothing
        if self.implied(forall_idx(ci, z3.Implies(rng, ct))):
            return lst
        m = self.fresh("m", I)
        ix = self.freshfun("ix", I, I)      # position in the source
        rk = self.freshfun("rk", I, I)      # rank in the result
        a, b = z3.Ints("a b")
        cat = lambda t: z3.substitute(ct, (ci, t))
        self.assume(z3.And(m >= 0, m <= lst.n))
        self.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m), z3.And(0 <= ix(a), ix(a) < lst.n, rk(ix(a)) == a, cat(ix(a)))), patterns=[ix(a)]))
        self.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m), ix(a) < ix(b)), patterns=[z3.MultiPattern(ix(a), ix(b))]))
        body = z3.Implies(z3.And(0 <= ci, ci < lst.n, ct), z3.And(0 <= rk(ci), rk(ci) < m, ix(rk(ci)) == ci))
        pats = find_patterns(ct, ci) or []
        e0 = self.elem(lst, ci)
        if isinstance(e0, VRef):
            pats = find_patterns(e0.t, ci) or pats
        self.assume(z3.ForAll([ci], body, patterns=[rk(ci)] + pats))
        r = VLst(m, lambda j: self.elem(lst, ix(j)))
        if isinstance(e0, VRef):
            n2, arr = self.materialize(r)
            j = z3.Int("j")
            e1 = self.elem(lst, j)
            p1 = find_patterns(e1.t, j)
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < lst.n, cat(j)), arr[rk(j)] == e1.t), patterns=[rk(j)] + p1))
            r = self.from_arr(m, arr, e0.k)
        return r

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e):
        v = self.eval(e.value)
        return self.getattr(v, mangle(self.frames[-1].func.cls, e.attr))

    def getattr(self, v, attr):
        if isinstance(v, VNone):
            raise PyExc("AttributeError", f"None has no {attr}")
        if isinstance(v, VRef):
            if not v.nonnull:
                if not self.fork(v.t != 0, f"object of .{attr} is not None"):
                    raise PyExc("AttributeError", f"None has no {attr}")
                v = VRef(v.t, v.k, v.ek, True)
            if attr == "__class__": return VC(sel(self.h["tag"], v.t), v.k)
            if attr == "__dict__": raise Unsupported("__dict__")
            if v.k == GRP: v = self.resolve(v)
            ft = self.field_type(v, attr)
            if v.k not in self.prog.classes and v.k != "Node":
                raise Unsupported(f"attribute {attr} of object of unknown class")
            kk = v.k if v.k != "Node" else "WithinMixins"
            look = self.prog.lookup(kk, attr)
            um = unmangle(attr, self.prog.classes)
            if look is None and um is not None:
                look = self.prog.lookup(um[0], um[1])
            if look is not None and look[0] == "property":
                return self.call_func(look[1], [], {}, recv=v, attr=attr)
            if look is not None and look[0] in ("method", "classmethod", "staticmethod"):
                if ft is not None and False: pass
                if look[0] == "classmethod":
                    return VFun(look[1], VC(sel(self.h["tag"], v.t), v.k), look[2], attr)
                return VFun(look[1], v, look[2], um[1] if um else attr)
            if ft is not None:
                if attr in FLAGGED:
                    if not self.fork(sel(self.h["has" + attr], v.t), f"has {attr}"):
                        raise PyExc("AttributeError", attr)
                return self.read_field(v, attr)
            if look is not None and look[0] == "attr":
                if "c." + attr in HEAP_SORTS:
                    return VC(sel(self.h["c." + attr], sel(self.h["tag"], v.t)), v.k)
            if attr in ("index", "count", "__iter__", "__contains__") and (v.k in self.prog.classes and "Sequence" in self.prog.classes[v.k].mro):
                return VBuiltin("seq." + attr, v)
            if self.known_attr(v.k, attr):
                return VOpaque(attr)
            raise PyExc("AttributeError", f"{v.k} has no {attr}")
        if isinstance(v, VC):
            if attr == "__name__":
                if v.static: return VStr(v.static)
                return VL(cname(v.t))
            if "c." + attr in HEAP_SORTS:
                return VC(sel(self.h["c." + attr], v.t), v.ik)
            if attr == "_seq_type" and not v.mixed: return self.cls(v.ik)
            if attr == "__dict__":
                r = VOpaque("class dict"); r.of = v.t
                return r
            if attr == "__subclasses__": return VBuiltin("cls.__subclasses__", v)
            if v.mixed and not self.implied(sub(v.t, self.cls(v.ik).t)): raise Unsupported(f"attribute {attr} of a class of unknown kind")
            look = self.prog.lookup(v.static or v.ik, attr)
            if look is not None and look[0] == "classmethod":
                return VFun(look[1], v, look[2], attr)
            if look is not None and look[0] == "method":
                return VFun(look[1], None, look[2], attr, recvcls=v)
            raise Unsupported(f"class attribute {attr}")
        if isinstance(v, VTup):
            names = {"Interval": ("start", "end", "label"), "Point": ("time", "label")}.get(v.cls, ())
            if attr in names: return v.items[names.index(attr)]
            if attr in ("index", "count"): return VBuiltin("list." + attr, v)
            raise PyExc("AttributeError", attr)
        if isinstance(v, VSuper):
            look = self.prog.lookup(v.recv.k, attr, after=v.after)
            if look is None: raise Unsupported(f"super().{attr}")
            r = VFun(look[1], v.recv, look[2], attr)
            r.via = look[2].name
            return r
        if isinstance(v, (VLst, VCell, VField)):
            if isinstance(v, VLst) and v.np or attr in ("min", "max", "sum", "argmin", "argmax", "searchsorted", "size", "any", "all"):
                if attr == "size": return VI(self.as_list(v).n)
                return VBuiltin("np." + attr, v)
            return VBuiltin("list." + attr, v)
        if isinstance(v, VWhere):
            if attr == "size":
                m = v.mask
                ci = self.fresh("i", I)
                some = exists_idx(ci, z3.And(0 <= ci, ci < m.n, self.elem(m, ci).t))
                s = self.fresh("size", I)
                self.assume(z3.And(s >= 0, (s >= 1) == some))
                v.size = s
                return VI(s)
            return VBuiltin("where." + attr, v)
        if isinstance(v, VBuiltin):
            return VBuiltin(v.name + "." + attr)
        if isinstance(v, VSet):
            return VBuiltin("set." + attr, v)
        if isinstance(v, (VStr, VL)):
            return VBuiltin("str." + attr, v)
        if isinstance(v, VOpaque):
            return VOpaque(attr)
        raise Unsupported(f"attribute {attr} of {v!r}")

    def known_attr(self, kind, attr):
        return False

    def hasattr_(self, v, name):
        if isinstance(v, VRef):
            if not v.nonnull and not self.fork(v.t != 0, "hasattr object is not None"):
                return z3.BoolVal(False)
            kk = v.k if v.k in self.prog.classes else "WithinMixins"
            if name in FLAGGED and (name in FIELDS.get(v.k, {})): return sel(self.h["has" + name], v.t)
            if v.k == "Any": raise Unsupported("hasattr of unknown class")
            if name in FIELDS.get(v.k, {}): return z3.BoolVal(True)
            return z3.BoolVal(self.prog.lookup(kk, name) is not None)
        if isinstance(v, VNone): return z3.BoolVal(False)
        if isinstance(v, VTup):
            names = {"Interval": ("start", "end", "label"), "Point": ("time", "label")}.get(v.cls, ())
            return z3.BoolVal(name in names)
        raise Unsupported(f"hasattr of {v!r}")

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id not in self.env:
            if fn.id == "super" and not e.args:
                return VSuper(self.env[self.frames[-1].func.node.args.args[0].arg], self.frames[-1].func.cls.name)
            if fn.id in ("print",):
                return VNone()
        # warnings are not modelled
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == "warnings":
            return VNone()
        f = self.eval(fn)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred): args.append(("*", self.eval(a.value)))
            else: args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None: raise Unsupported("**kwargs call")
            kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node=None):
        if isinstance(f, VFun):
            if f.recv is None and f.recvcls is not None:
                recv, args = args[0], args[1:]
                return self.call_func(f.func, args, kw, recv=recv, attr=f.attr)
            if f.func.kind == "classmethod" or f.recv is not None:
                return self.call_func(f.func, args, kw, recv=f.recv, attr=f.attr, via=f.via)
            return self.call_func(f.func, args, kw)
        if isinstance(f, VC): return self.construct(f, args, kw)
        if isinstance(f, VLambda):
            names = [a.arg for a in f.node.args.args]
            env = dict(f.env); env.update(zip(names, args))
            self.frames.append(Frame(self.frames[-1].func, env, None))
            n = len(self.frames)
            try:
                if isinstance(f.node, ast.Lambda): return self.eval(f.node.body)
                try:
                    self.block(f.node.body); return VNone()
                except ReturnEx as r:
                    return r.v
            finally:
                del self.frames[n - 1:]
        if isinstance(f, VLabFun):
            return VL(f.fn(self.as_lab(args[0]), self.as_lab(args[1])))
        if isinstance(f, VBuiltin): return self.builtin(f, args, kw)
        if isinstance(f, VOpaque): return VOpaque("call")
        raise Unsupported(f"call of {f!r}")

    def construct(self, c, args, kw):
        kind = c.ik
        if c.static in ("Top", "Bottom"): raise Unsupported("Top()")
        ek = None
        if kind == SL:
            ek = self.guess_ek(args)
        if kind in (ST, SPT): ek = SI if kind == ST else SP
        ref = self.alloc(kind, c.t, ek)
        look = self.prog.lookup(kind, "__init__")
        self.call_func(look[1], args, kw, recv=ref, attr="__init__")
        return ref

    def guess_ek(self, args):
        for a in args:
            if isinstance(a, tuple): 
                l = self.as_list(a[1])
                if l.ek: return l.ek
                if l.items: return l.items[0].k
                if l.items is None:
                    x = l.f(z3.Int("j"))
                    if isinstance(x, VRef): return x.k
            elif isinstance(a, VRef): return a.k
        return self.unit.ek if self.unit is not None and getattr(self.unit, "ek", None) else SI

    # ------------------------------------------------------------ builtins
    def builtin(self, f, args, kw):
        import npx
        return npx.call(self, f, args, kw)
