"""Symbolic models of leaves and of assumed dependencies (each is an assumed contract).

SymCut            an arbitrary element of the closed set of cuts of a total order
SymSortedDict     sortedcontainers.SortedDict (assumed contract: keys strictly increasing; bisect_*,
                  irange, indexing, insertion, deletion per its documentation), any size
SymSetView        immutableset(...) of symbolically many elements
"""
from .core import z3

from . import core as C
from . import symbuiltins as SB
from .core import I, Infeasible, Sym, SymBool, SymInt, SymOrd, SymVal, Unsupported, mkbool, mkint
from .symbuiltins import SymComp, SymSeq, add_forall, effect, index_term, subst

INT = z3.IntSort()
BOOL = z3.BoolSort()


# ------------------------------------------------------------------------------- cuts
class CutT:
    """A cut of a total order, as one integer position p.

    Encoding: the value v of the order is an Int term; Below(v) is at 2v, Above(v) at 2v+1, the
    infinite cuts at NEG and POS (NEG < 2v and 2v+1 < POS for every value in scope).  The order of
    positions is exactly the lexicographic order of cuts.  Using integers for the elements of an
    arbitrary total order loses nothing: the formulas are quantifier free and use only < and = on
    elements, so a counterexample in any total order uses finitely many elements and embeds in Z.
    """

    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    @property
    def inf(self):
        return z3.If(self.p == NEG, z3.IntVal(-1), z3.If(self.p == POS, z3.IntVal(1), z3.IntVal(0)))

    @property
    def e(self):
        return self.p / 2

    @property
    def side(self):
        return self.p % 2 == 1

    def sub(self, k, i):
        return CutT(z3.substitute(self.p, (k, i)))


NEG = z3.Int("NEG")
POS = z3.Int("POS")


def below_v(e):
    return CutT(z3.simplify(2 * e))


def above_v(e):
    return CutT(z3.simplify(2 * e + 1))


def value_axiom(e):
    """every value lies strictly between the infinite cuts"""
    C.cur().axiom(z3.And(NEG < 2 * e, 2 * e + 1 < POS))


def cut_lt(a, b):
    return a.p < b.p


def cut_eq(a, b):
    return a.p == b.p


def cut_le(a, b):
    return a.p <= b.p


def val_above(c, x):
    """c < x : the value x (Int term) lies above the cut."""
    return c.p <= 2 * x


def in_range_t(lo, hi, x):
    return z3.And(val_above(lo, x), z3.Not(val_above(hi, x)))


def ite_cut(g, a, b):
    return CutT(z3.If(g, a.p, b.p))


def simp_cut(c):
    return CutT(z3.simplify(c.p))


RM = None  # the loaded vistautils.range module (set by after_load)


def _rng_after_load(mod):
    global RM
    if mod.__name__ != "vistautils.range":
        return
    RM = mod
    mod.immutableset = sym_immutableset
    mod.ImmutableSet = ImmutableSetShim()
    _SUMMARIES.clear()


_SUMMARIES = {}


def real_cut_kinds(c):
    """Concretise a SymCut on the current path (forks on the four kinds); returns a real cut."""
    p = C.cur()
    t = c.c
    if p.decide(t.p == NEG):
        return RM._BELOW_ALL
    if p.decide(t.p == POS):
        return RM._ABOVE_ALL
    e = p.const("endp", INT)
    value_axiom(e)
    # defines e (as a function of the loop indices in scope) wherever the cut is finite
    p.axiom(z3.Or(t.p == NEG, t.p == POS, t.p == 2 * e, t.p == 2 * e + 1))
    if p.decide(t.p == 2 * e + 1):
        return RM._AboveValue(SymOrd(e))
    return RM._BelowValue(SymOrd(e))


def ord_term(e):
    if isinstance(e, (SymOrd, SymInt)):
        return e.t
    if isinstance(e, int):
        return z3.IntVal(e)
    raise Unsupported("endpoint %r" % type(e))


def cut_terms(c):
    """Position of a SymCut or of a real cut object created by the code."""
    if isinstance(c, SymCut):
        return c.c
    if c is RM._BELOW_ALL:
        return CutT(NEG)
    if c is RM._ABOVE_ALL:
        return CutT(POS)
    if isinstance(c, (RM._BelowValue, RM._AboveValue)):
        t = ord_term(c._endpoint)
        value_axiom(t)
        return above_v(t) if isinstance(c, RM._AboveValue) else below_v(t)
    raise Unsupported("not a cut: %r" % type(c))


# contracts of the cut methods, in terms of positions; each is *proved* of the real methods for all
# pairs of kinds before it is used (see cut_method) and dropped in favour of the raw strongest
# postcondition when the proof fails
CUT_CONTRACTS = {
    ("__lt__", "c"): lambda a, b: a < b,
    ("__le__", "c"): lambda a, b: a <= b,
    ("__gt__", "c"): lambda a, b: a > b,
    ("__ge__", "c"): lambda a, b: a >= b,
    ("__eq__", "c"): lambda a, b: a == b,
    ("__ne__", "c"): lambda a, b: a != b,
    ("compare_to", "c"): lambda a, b: z3.If(a < b, z3.IntVal(-1), z3.If(a == b, z3.IntVal(0), z3.IntVal(1))),
    ("is_less_than", "o"): lambda a, x: a <= 2 * x,
}
PROVED_CUT_CONTRACTS = {}


def cut_method(name, c, args):
    """Call method `name` of the real cut classes on the symbolic cut(s).

    The strongest postcondition of the real method is computed once, for generic cuts of any kind,
    by exploring its real code; if it implies the contract in CUT_CONTRACTS the contract is used at
    the call (modular reasoning), otherwise the postcondition itself is."""
    shape = []
    for a in args:
        if isinstance(a, SymCut) or (RM is not None and isinstance(a, RM._Cut)):
            shape.append("c")
        elif isinstance(a, (SymOrd, SymInt)):
            shape.append("o")
        else:
            shape = None
            break
    if shape is None:
        r = real_cut_kinds(c)
        return getattr(r, name)(*args)
    key = (name, tuple(shape))
    if key not in _SUMMARIES:
        _SUMMARIES[key] = _cut_summary(name, shape)
    gens, outs, contract = _SUMMARIES[key]
    actual = [c.c.p]
    for a, s in zip(args, shape):
        if s == "c":
            actual.append(cut_terms(a).p)
        else:
            value_axiom(a.t)
            actual.append(a.t)
    if contract is not None:
        t = contract(*actual)
        return mkint(t) if z3.is_int(t) else mkbool(t)
    pairs = list(zip(gens, actual))
    inst = []
    for o in outs:
        v = o.value
        if isinstance(v, (SymBool, SymInt, SymOrd)):
            t = z3.substitute(v.t, *pairs)
            v = mkbool(t) if isinstance(v, SymBool) else mkint(t) if isinstance(v, SymInt) else SymOrd(t)
        inst.append(C.Outcome(z3.simplify(z3.substitute(o.guard, *pairs)), o.kind, v))
    inst = [o for o in inst if not z3.is_false(o.guard)]
    return C.apply_outcomes(inst)


def _cut_summary(name, shape):
    g0 = z3.Int("gc_s")
    gens = [g0]
    gargs = []
    base = [NEG < POS, NEG <= g0, g0 <= POS]
    for i, s in enumerate(shape):
        t = z3.Int("gc_a%d" % i)
        gens.append(t)
        if s == "c":
            base += [NEG <= t, t <= POS]
            gargs.append(SymCut(CutT(t)))
        else:
            base += [NEG < 2 * t, 2 * t + 1 < POS]
            gargs.append(SymOrd(t))

    def thunk():
        real = _kind_of(g0)
        ra = [_kind_of(a.c.p) if isinstance(a, SymCut) else a for a in gargs]
        return getattr(real, name)(*ra)

    saved = C.CUR
    C.CUR = None
    try:
        ex = C.Explorer(deadline=saved.ex.deadline if saved else None)
        outs = _summ_fresh(ex, thunk, base)
    finally:
        C.CUR = saved
    con = CUT_CONTRACTS.get((name, "".join(shape)))
    if con is not None:
        want = con(*gens)
        ok = all(
            o.kind == "return" and isinstance(o.value, (bool, SymBool, int, SymInt)) for o in outs
        )
        if ok:
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(*base)
            got = []
            for o in outs:
                v = I(o.value) if z3.is_int(want) else C.B(o.value)
                got.append(z3.And(o.guard, v != want))
            s.add(z3.Or(*got))
            ok = s.check() == z3.unsat
        PROVED_CUT_CONTRACTS["%s(%s)" % (name, "".join(shape))] = ok
        if not ok:
            con = None
    return gens, outs, con


def _kind_of(p):
    """fork on the kind of the cut at position p, the endpoint being a function of p (p div 2)"""
    q = C.cur()
    if q.decide(p == NEG):
        return RM._BELOW_ALL
    if q.decide(p == POS):
        return RM._ABOVE_ALL
    e = SymOrd(p / 2)
    q.axiom(z3.And(NEG < 2 * e.t, 2 * e.t + 1 < POS))
    if q.decide(p % 2 == 1):
        return RM._AboveValue(e)
    return RM._BelowValue(e)


def _summ_fresh(ex, thunk, base):
    outs = []

    def body(p):
        p.pc = list(base)
        p.prefix = "sum."
        n0 = len(p.pc)
        try:
            v = thunk()
            kind = "return"
        except C.Control:
            raise
        except Exception as e:
            v, kind = e, "raise"
        g = [c for i, c in enumerate(p.pc) if i >= n0 and i not in p.axpos]
        outs.append(C.Outcome(z3.And(*g) if g else z3.BoolVal(True), kind, v))

    ex.run(body)
    return outs


class SymCut(Sym):
    """Arbitrary cut. Behaviour = the behaviour of the real cut classes on its kind."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __hash__(self):
        return 0

    def __pyvc_is__(self, o):
        if isinstance(o, SymCut):
            # identity of infinite cuts is kind equality; value cuts are never compared by identity
            return mkbool(z3.And(self.c.p == o.c.p, z3.Or(self.c.p == NEG, self.c.p == POS)))
        if o is RM._BELOW_ALL:
            return mkbool(self.c.p == NEG)
        if o is RM._ABOVE_ALL:
            return mkbool(self.c.p == POS)
        return False

    def __pyvc_isinstance__(self, cls):
        if cls is RM._Cut or cls is object:
            return True
        t = self.c.p
        if cls is RM._AboveValue:
            return mkbool(z3.And(t != NEG, t != POS, t % 2 == 1))
        if cls is RM._BelowValue:
            return mkbool(z3.And(t != NEG, t != POS, t % 2 == 0))
        if cls is RM._BelowAll:
            return mkbool(t == NEG)
        if cls is RM._AboveAll:
            return mkbool(t == POS)
        return False

    def __pyvc_subst__(self, k, i):
        return SymCut(self.c.sub(k, i))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        d = None
        for kls in (RM._BelowValue, RM._BelowAll, RM._Cut):
            for m in kls.__mro__:
                if name in m.__dict__:
                    d = m.__dict__[name]
                    break
            if d is not None:
                break
        if d is None or isinstance(d, property) or not callable(d):
            return getattr(real_cut_kinds(self), name)
        return lambda *a: cut_method(name, self, a)

    def __lt__(self, o):
        return cut_method("__lt__", self, (o,))

    def __le__(self, o):
        return cut_method("__le__", self, (o,))

    def __gt__(self, o):
        return cut_method("__gt__", self, (o,))

    def __ge__(self, o):
        return cut_method("__ge__", self, (o,))

    def __eq__(self, o):
        if not (isinstance(o, SymCut) or isinstance(o, RM._Cut)):
            return False
        return cut_method("__eq__", self, (o,))

    def __ne__(self, o):
        if not (isinstance(o, SymCut) or isinstance(o, RM._Cut)):
            return True
        return cut_method("__ne__", self, (o,))

    def __repr__(self):
        return "<cut>"

    __str__ = __repr__


def mkrange(lo, hi):
    """A Range object of the real class with the given (already valid) bounds, without re-running
    the constructor's checks: used for stored ranges, whose validity is part of the assumed
    representation invariant."""
    r = object.__new__(RM.Range)
    object.__setattr__(r, "_lower_bound", lo if not isinstance(lo, CutT) else SymCut(lo))
    object.__setattr__(r, "_upper_bound", hi if not isinstance(hi, CutT) else SymCut(hi))
    return r


def range_terms(r):
    return cut_terms(r._lower_bound), cut_terms(r._upper_bound)


def _subst_range(r, k, i):
    lo, hi = range_terms(r)
    return mkrange(lo.sub(k, i), hi.sub(k, i))


SB.SUBST_HOOKS["Range"] = _subst_range


def _subst_span(s, k, i):
    r = object.__new__(type(s))
    object.__setattr__(r, "start", SB.subst(s.start, k, i))
    object.__setattr__(r, "end", SB.subst(s.end, k, i))
    return r


SB.SUBST_HOOKS["Span"] = _subst_span


# ------------------------------------------------------------------------------- SortedDict
class BaseSeq:
    """Uninterpreted strictly sorted sequence of nonempty unconnected ranges, any length n >= 0."""

    def __init__(self, name, payload=None):
        p = C.cur()
        self.name = name
        self.n = z3.Int(name + "_n")
        self.flo = z3.Function(name + "_lo", INT, INT)
        self.fhi = z3.Function(name + "_hi", INT, INT)
        p.axiom(self.n >= 0)
        p.axiom(NEG < POS)
        p.store["base_" + name] = _Seen()
        p.store.setdefault("bases", _BaseList()).items.append(self)
        # facts are instantiated for every index at which the sequence is read, and for every
        # registered index term
        add_forall(p, self._register)

    def lo(self, i):
        self._read(i)
        return CutT(self.flo(i))

    def hi(self, i):
        self._read(i)
        return CutT(self.fhi(i))

    def _read(self, i):
        if SB.INSTANTIATING[0]:
            return  # facts about this index are added on demand (lazy_check)
        p = C.cur()
        f = self._register(i)
        if f is not None:
            p.axiom(f)

    def _register(self, t):
        seen = C.cur().store["base_" + self.name]
        if t.get_id() in seen.ids:
            return z3.BoolVal(True)
        facts = [self.fact(t)]
        for u in seen.terms:
            for a, b in ((u, t), (t, u)):
                f = self.pair_fact(a, b)
                if f is not None:
                    facts.append(f)
        seen.add(t)
        return z3.And(*facts)

    def fact(self, t):
        return z3.Implies(
            z3.And(t >= 0, t < self.n),
            z3.And(NEG <= self.flo(t), self.flo(t) < self.fhi(t), self.fhi(t) <= POS),
        )

    def pair_fact(self, a, b):
        d = z3.simplify(b - a)
        if z3.is_int_value(d) and d.as_long() <= 0:
            return None
        return z3.Implies(z3.And(a >= 0, a < b, b < self.n), self.fhi(a) < self.flo(b))


def lazy_check(p, goal, rounds=150, max_terms=60, time_limit=40):
    """Decide pc => goal, instantiating base-sequence facts and quantified hypotheses lazily: at the
    indices at which a base sequence is read in pc or goal, and only the instances which the current
    candidate model violates.  Returns 'unsat' (goal follows), 'sat' (no instance in scope excludes
    the model) or 'unknown'."""
    import time

    bases = p.store.get("bases")
    decls = {}
    for b in bases.items:
        decls[b.flo.get_id()] = b
        decls[b.fhi.get_id()] = b
        if isinstance(b, SpanSeq):
            decls[b.fs.get_id()] = decls[b.fe.get_id()] = b
    extra = []
    cands = []
    scanned = set()
    ixs = {b.name: [] for b in bases.items}
    known = {b.name: set() for b in bases.items}
    nquant = 0
    qterms = list(SB.quant(p).terms)
    qids = {t.get_id() for t in qterms}
    keep = []

    def scan(exprs):
        found = []
        todo = list(exprs)
        while todo:
            x = todo.pop()
            if x.get_id() in scanned:
                continue
            scanned.add(x.get_id())
            keep.append(x)
            if z3.is_app(x) and x.num_args() == 1:
                b = decls.get(x.decl().get_id())
                if b is not None and x.arg(0).get_id() not in known[b.name]:
                    known[b.name].add(x.arg(0).get_id())
                    found.append((b, x.arg(0)))
            todo.extend(x.children())
        return found

    t0 = time.monotonic()
    pending = scan(list(p.pc) + [goal])
    # the facts of base sequences are handled below, by evaluating them in the candidate model
    insts = [f for f in SB.quant(p).insts if not isinstance(getattr(f, "__self__", None), BaseSeq)]
    todo_terms = []
    for r in range(rounds):
        while pending:
            for b, t in pending:
                ixs[b.name].append(t)
                if t.get_id() not in qids:
                    qids.add(t.get_id())
                    todo_terms.append(t)
            pending = []
        res = p.ex.solver.check(list(p.pc) + extra, z3.Not(goal))
        if res != "sat":
            return res
        if time.monotonic() - t0 > time_limit:
            return "unknown"
        m = p.ex.solver.model()

        def val(e):
            return m.eval(e, model_completion=True).as_long()

        new = []
        neg, pos = val(NEG), val(POS)
        for b in bases.items:
            n = val(b.n)
            rows = {}
            for t in ixs[b.name]:
                i = val(t)
                if 0 <= i < n and i not in rows:
                    rows[i] = (i, val(b.flo(t)), val(b.fhi(t)), t)
            rows = [rows[i] for i in sorted(rows)]
            for i, lo, hi, t in rows:
                if not (neg <= lo < hi <= pos) or (
                    isinstance(b, SpanSeq) and not z3.is_true(m.eval(b.fact(t), model_completion=True))
                ):
                    new.append(b.fact(t))
            for (i, lo, hi, t), (j, lo2, hi2, u) in zip(rows, rows[1:]):
                if not hi < lo2:
                    f = b.pair_fact(t, u)
                    if f is None:
                        return "unknown"
                    new.append(f)
        if not new:
            new = [c for c in cands if z3.is_false(m.eval(c, model_completion=True))]
            ids = {c.get_id() for c in new}
            cands = [c for c in cands if c.get_id() not in ids]
        if not new:
            # widen: instantiate the quantified hypotheses at indices not considered so far
            if not todo_terms:
                return "sat"
            batch, todo_terms = todo_terms[:12], todo_terms[12:]
            if len(qterms) > max_terms:
                return "unknown"
            for t in batch:
                qterms.append(t)
                n0 = len(p.pc)
                for inst in insts:
                    f = z3.simplify(SB.instance(inst, t))
                    if not z3.is_true(f):
                        cands.append(f)
                        pending += scan([f])
                extra.extend(p.pc[n0:])
            continue
        extra.extend(new)
        pending += scan(new)
    return "unknown"


class _BaseList:
    def __init__(self, items=()):
        self.items = list(items)

    def fork(self):
        return _BaseList(self.items)


class _Seen:
    def __init__(self, terms=()):
        self.terms = list(terms)
        self.ids = {t.get_id() for t in self.terms}

    def add(self, t):
        self.terms.append(t)
        self.ids.add(t.get_id())

    def fork(self):
        return _Seen(self.terms)


class SymSortedDict(Sym):
    """sortedcontainers.SortedDict with cut keys, any length.

    State: n (Int term), lo(i) -> key cut terms, hi(i) -> upper-bound cut of the stored range.
    The stored value at key lo(i) is the Range (lo(i), hi(i)) (part of the representation
    invariant; __setitem__ checks that it is preserved, see `coherent`)."""

    def __init__(self, n, lo, hi, name="sd"):
        self.n, self.lo, self.hi = n, lo, hi
        self.name = name
        self.version = 0
        self.coherent = []  # z3 facts to be proved: key equals lower bound of value
        self.prov = {}

    # helpers
    def _ix(self, t):
        index_term(C.cur(), t)
        return t

    def key(self, i):
        c = SymCut(simp_cut(self.lo(i)))
        return c

    def value(self, i):
        return mkrange(simp_cut(self.lo(i)), simp_cut(self.hi(i)))

    def __pyvc_len__(self):
        return mkint(self.n)

    def __bool__(self):
        return C.cur().decide(self.n > 0)

    def __pyvc_isinstance__(self, cls):
        import collections.abc as abc

        return getattr(cls, "__name__", "") in ("SortedDict", "dict") or cls in (
            abc.Mapping,
            object,
        )

    def _bisect(self, key, right):
        """contract of bisect_left / bisect_right on a strictly sorted key sequence"""
        p = C.cur()
        k = cut_terms(key)
        cache = p.store.setdefault("bisect", _Cache())
        ck = (self.name, self.version, right, k.p.get_id())
        if ck in cache.d:
            return cache.d[ck][0]
        j = self._own_key(k)
        if j is not None:
            # the key sequence is strictly increasing: key(j) is found at j
            b = z3.simplify(j + 1) if right else j
            self._ix(j)
            cache.d[ck] = (b, k)
            return b
        b = p.const("bis", INT)
        self._ix(b)
        self._ix(z3.simplify(b - 1))
        lo = self.lo
        below = (lambda a: cut_le(a, k)) if right else (lambda a: cut_lt(a, k))
        p.axiom(z3.And(b >= 0, b <= self.n))
        p.axiom(z3.Implies(b > 0, below(lo(z3.simplify(b - 1)))))
        p.axiom(z3.Implies(b < self.n, z3.Not(below(lo(b)))))
        cache.d[ck] = (b, k)
        return b

    def _own_key(self, k):
        """j, if the cut is (syntactically) the key at a valid position j of an unmodified base"""
        base = getattr(self.lo, "__self__", None)
        if not isinstance(base, BaseSeq) or not (z3.is_app(k.p) and k.p.num_args() == 1):
            return None
        if not k.p.decl().eq(base.flo) or self.n is not base.n:
            return None
        j = k.p.arg(0)
        p = C.cur()
        if p.ex.solver.check(p.pc, z3.Not(z3.And(j >= 0, j < self.n))) != "unsat":
            return None
        return j

    def bisect_left(self, key):
        return mkint(self._bisect(key, False))

    def bisect_right(self, key):
        return mkint(self._bisect(key, True))

    bisect = bisect_right

    def _find(self, key):
        """(index term, z3 'present')"""
        if isinstance(key, SymCut):
            k = key.c
        else:
            k = cut_terms(key)
        b = self._bisect(SymCut(k), False)
        pres = z3.And(b < self.n, cut_eq(self.lo(b), k))
        return b, pres

    def __contains__(self, key):
        b, pres = self._find(key)
        return bool(mkbool(pres))

    def __getitem__(self, key):
        b, pres = self._find(key)
        if not C.cur().decide(pres):
            raise KeyError(key)
        return self.value(b)

    def get(self, key, default=None):
        b, pres = self._find(key)
        if not C.cur().decide(pres):
            return default
        return self.value(b)

    def index(self, key, *a):
        if a:
            raise Unsupported("SortedDict.index with bounds")
        b, pres = self._find(key)
        if not C.cur().decide(pres):
            raise ValueError("not in list")
        return mkint(b)

    def keys(self):
        return _SDView(self, self.key)

    def values(self):
        return _SDView(self, self.value)

    def items(self):
        return _SDView(self, lambda i: (self.key(i), self.value(i)))

    def peekitem(self, index=-1):
        return self.items()[index]

    def __iter__(self):
        return SB.SymSeqIter(self.keys().__pyvc_seq__())

    def __pyvc_seq__(self):
        return self.keys().__pyvc_seq__()

    def __reversed__(self):
        raise Unsupported("reversed SortedDict")

    def _slice_bounds(self, lo, hi, inclusive):
        a = z3.IntVal(0) if lo is None else self._bisect(lo, not inclusive[0])
        b = self.n if hi is None else self._bisect(hi, inclusive[1])
        return a, b

    def irange(self, minimum=None, maximum=None, inclusive=(True, True), reverse=False):
        if reverse:
            raise Unsupported("reverse irange")
        a, b = self._slice_bounds(minimum, maximum, inclusive)
        m = z3.simplify(z3.If(b - a < 0, z3.IntVal(0), b - a))
        key = self.key
        s = SymSeq(m, lambda i: key(z3.simplify(a + i)), off=a)
        s.prov = ("keys", self, self.version, a, b)
        return s

    def islice(self, start=None, stop=None, reverse=False):
        if reverse:
            raise Unsupported("reverse islice")
        return self.keys()[slice(start, stop)]

    def copy(self):
        r = SymSortedDict(self.n, self.lo, self.hi, self.name)
        r.version = self.version
        return r

    __copy__ = copy

    def _bump(self):
        p = C.cur()
        c = p.store.setdefault("sdver", _Counter())
        c.n += 1
        self.version = c.n

    # mutation ----------------------------------------------------------
    def clear(self):
        if effect(self, "clear"):
            return
        self.n = z3.IntVal(0)
        self._bump()

    def __delitem__(self, key):
        if effect(self, "del", key):
            return
        b, pres = self._find(key)
        if not C.cur().decide(pres):
            raise KeyError(key)
        self._remove_slice(b, z3.simplify(b + 1))

    def pop(self, key, *d):
        b, pres = self._find(key)
        if not C.cur().decide(pres):
            if d:
                return d[0]
            raise KeyError(key)
        v = self.value(b)
        if effect(self, "del", key):
            return v
        self._remove_slice(b, z3.simplify(b + 1))
        return v

    def _remove_slice(self, a, b):
        """delete positions a <= i < b (a <= b)"""
        w = z3.simplify(b - a)
        lo, hi = self.lo, self.hi

        def sh(i):
            return z3.simplify(z3.If(i < a, i, i + w))

        self.lo = lambda i: lo(sh(i))
        self.hi = lambda i: hi(sh(i))
        self.n = z3.simplify(self.n - w)
        self._bump()

    def __setitem__(self, key, value):
        if effect(self, "set", key, value):
            return
        if not isinstance(value, RM.Range):
            raise Unsupported("stored value is not a Range")
        k = cut_terms(key)
        vlo, vhi = range_terms(value)
        self.coherent.append(cut_eq(k, vlo))
        b, pres = self._find(key)
        lo, hi, n = self.lo, self.hi, self.n
        if C.cur().decide(pres):
            self.lo = lambda i: ite_cut(i == b, k, lo(i))
            self.hi = lambda i: ite_cut(i == b, vhi, hi(i))
        else:

            def sh(i):
                return z3.simplify(z3.If(i < b, i, i - 1))

            self.lo = lambda i: ite_cut(i == b, k, lo(sh(i)))
            self.hi = lambda i: ite_cut(i == b, vhi, hi(sh(i)))
            self.n = z3.simplify(n + 1)
        self._bump()

    def setdefault(self, *a):
        raise Unsupported("SortedDict.setdefault")

    def update(self, *a, **k):
        raise Unsupported("SortedDict.update")

    def __pyvc_effect__(self, op, args):
        if op == "del":
            self.__delitem__(*args)
        elif op == "set":
            self.__setitem__(*args)
        elif op == "clear":
            self.clear()

    def __pyvc_forall_effects__(self, loop, hi, lst):
        """for all indices i of the loop: delete key(i) -- supported when the loop runs over a
        snapshot of a contiguous slice of this dict's own keys and deletes each element."""
        prov = getattr(loop.seq, "prov", None)
        if (
            len(lst) == 1
            and lst[0][1] == "del"
            and prov
            and prov[0] == "keys"
            and prov[1] is self
            and prov[2] == self.version
            and hi is loop.seq.n
        ):
            g, _, (key,) = lst[0]
            p = C.cur()
            # the deleted key must be the element, unconditionally
            el = loop.seq.at(loop.k)
            dom = loop.seq.domain(loop.k)
            ok = z3.And(g, cut_eq(cut_terms(key), el.c))
            if p.ex.solver.check(p.pc + [dom], z3.Not(ok)) == "unsat":
                a, b = prov[3], prov[4]
                b2 = z3.simplify(z3.If(b < a, a, b))
                self._remove_slice(a, b2)
                return
        raise Unsupported("mutation pattern of the sorted dict in a loop")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("SortedDict.%s" % name)


class _Counter:
    def __init__(self, n=0):
        self.n = n

    def fork(self):
        # nested explorations must not reuse versions of each other: keep counting from here
        return _Counter(self.n + 1000)


class _Cache:
    def __init__(self, d=None):
        self.d = d or {}

    def fork(self):
        return _Cache(dict(self.d))


class _SDView(Sym):
    def __init__(self, sd, get):
        self.sd, self.get = sd, get
        n, lo, hi = sd.n, sd.lo, sd.hi
        self.ver = sd.version

    def __pyvc_len__(self):
        return mkint(self.sd.n)

    def __pyvc_isinstance__(self, cls):
        import collections.abc as abc
        import typing

        return cls in (
            abc.Sequence,
            abc.Iterable,
            abc.Collection,
            abc.Sized,
            object,
            typing.Iterable,
            typing.Sequence,
        )

    def __bool__(self):
        return C.cur().decide(self.sd.n > 0)

    def __pyvc_seq__(self):
        sd = self.sd
        snap = SymSortedDict(sd.n, sd.lo, sd.hi, sd.name)
        get = self.get
        s = SymSeq(sd.n, lambda i: get(self._reg(i)))
        if get == sd.key:
            s.prov = ("keys", sd, sd.version, z3.IntVal(0), sd.n)
        return s

    def _reg(self, i):
        return i

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.__pyvc_seq__()[k]
        p = C.cur()
        i = I(k)
        n = self.sd.n
        if p.decide(i < 0):
            i = i + n
        i = z3.simplify(i)
        if not p.decide(z3.And(i >= 0, i < n)):
            raise IndexError("list index out of range")
        index_term(p, i)
        return self.get(i)

    def __iter__(self):
        return SB.SymSeqIter(self.__pyvc_seq__())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("SortedDict view .%s" % name)


class SymRangeDict(Sym):
    """An immutable mapping whose keys are exactly the ranges of a base sequence; any size."""

    def __init__(self, base, name):
        self.base = base
        self.sd = SymSortedDict(base.n, base.lo, base.hi, base.name)
        self.f = z3.Function(name + "_val", INT, C.VAL)
        self.name = name

    def val(self, i):
        return SymVal(self.f(i), self.name)

    def __pyvc_len__(self):
        return mkint(self.base.n)

    def __pyvc_isinstance__(self, cls):
        import collections.abc as abc

        return getattr(cls, "__name__", "") in ("ImmutableDict", "dict") or cls in (abc.Mapping, object)

    def _find(self, key):
        if not isinstance(key, RM.Range):
            raise Unsupported("key of a range map is not a Range")
        lo, hi = range_terms(key)
        b, pres = self.sd._find(SymCut(lo))
        return b, z3.And(pres, cut_eq(self.sd.hi(b), hi))

    def __getitem__(self, key):
        b, pres = self._find(key)
        if not C.cur().decide(pres):
            raise KeyError(key)
        return self.val(b)

    def get(self, key, default=None):
        b, pres = self._find(key)
        if not C.cur().decide(pres):
            return default
        return self.val(b)

    def __contains__(self, key):
        return bool(mkbool(self._find(key)[1]))

    def __bool__(self):
        return C.cur().decide(self.base.n > 0)

    def keys(self):
        return self.sd.values()

    def __pyvc_seq__(self):
        return self.sd.values().__pyvc_seq__()

    def items(self):
        sd = self.sd
        return SymSeq(sd.n, lambda i: (sd.value(i), self.val(i)))

    def values(self):
        return SymSeq(self.sd.n, self.val)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("mapping.%s" % name)


class SpanSeq(BaseSeq):
    """Base sequence whose ranges are the closed integer ranges of nonempty disjoint spans."""

    def __init__(self, name):
        self.fs = z3.Function(name + "_start", INT, INT)
        self.fe = z3.Function(name + "_end", INT, INT)
        BaseSeq.__init__(self, name)

    def fact(self, t):
        return z3.And(
            BaseSeq.fact(self, t),
            z3.Implies(
                z3.And(t >= 0, t < self.n),
                z3.And(
                    self.flo(t) == 2 * self.start(t), self.fhi(t) == 2 * self.end(t) - 1,
                    NEG < self.flo(t), self.fhi(t) < POS,
                ),
            ),
        )

    def start(self, t):
        return self.fs(t)

    def end(self, t):
        return self.fe(t)


class SpanContent:
    """entries (span, item) of a disjoint span index, by index"""

    def __init__(self, base, d, mkspan):
        self.base, self.d, self.mkspan = base, d, mkspan

    def entry(self, i):
        b = self.base
        b.lo(i)
        return self.mkspan(SymInt(b.start(i)), SymInt(b.end(i))), self.d.val(i)

    def domain(self, i):
        return z3.And(i >= 0, i < self.base.n)

    def fresh(self, p):
        i = p.const("any", INT)
        index_term(p, i)
        return i

    def terms(self, p):
        return list(SB.quant(p).terms)


class SymSpanMultiDict(Sym):
    """immutablecollections.ImmutableSetMultiDict from spans to items (assumed contract): iteration
    gives the distinct keys, lookup gives the nonempty set of the items of a key, or the empty set."""

    def __init__(self, name, mkspan):
        p = C.cur()
        self.name = name
        self.mkspan = mkspan
        self.n = z3.Int(name + "_n")
        self.fs = z3.Function(name + "_start", INT, INT)
        self.fe = z3.Function(name + "_end", INT, INT)
        self.gn = z3.Function(name + "_size", INT, INT)
        self.f = z3.Function(name + "_item", INT, INT, C.VAL)
        p.axiom(self.n >= 0)
        add_forall(
            p,
            lambda i: z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.fs(i) < self.fe(i), self.gn(i) >= 1)),
        )

    def key(self, i):
        return self.mkspan(SymInt(self.fs(i)), SymInt(self.fe(i)))

    def group(self, i):
        f = self.f
        seq = SymSeq(self.gn(i), lambda j: SymVal(f(i, j), self.name))
        k = C.cur().const("g", INT)
        return SymSetView([SymComp(seq, k, [(z3.BoolVal(True), [seq.at(k)])], "list")])

    def __getitem__(self, key):
        if type(key).__name__ != "Span":
            raise Unsupported("key of a span index")
        p = C.cur()
        s, e = I(key.start), I(key.end)
        if z3.is_app(s) and s.num_args() == 1 and s.decl().eq(self.fs) and e.eq(self.fe(s.arg(0))):
            i = s.arg(0)  # keys are distinct: the key at i is found at i
            if p.ex.solver.check(p.pc, z3.Not(z3.And(i >= 0, i < self.n))) == "unsat":
                return self.group(i)
        b = p.const("at", INT)
        index_term(p, b)
        hit = lambda i: z3.And(i >= 0, i < self.n, self.fs(i) == s, self.fe(i) == e)  # noqa: E731
        add_forall(p, lambda i: z3.Implies(hit(i), z3.And(hit(b), i == b)))
        if p.decide(hit(b)):
            f, gn = self.f, self.gn
            k = p.const("g", INT)
            dom = lambda m: z3.And(SB.FST(m) == b, SB.SND(m) >= 0, SB.SND(m) < gn(b))  # noqa: E731
            return SymSetView([SymComp(SB.PairSeq(dom), k, [(z3.BoolVal(True), [SymVal(f(b, SB.SND(k)), self.name)])], "list")])
        return sym_immutableset([])

    get = None

    def keys(self):
        return SymSeq(self.n, self.key)

    def __pyvc_seq__(self):
        return self.keys()

    def __pyvc_isinstance__(self, cls):
        return getattr(cls, "__name__", "") in ("ImmutableSetMultiDict", "ImmutableMultiDict", "object")

    def items(self):
        raise Unsupported("items of a multi-dictionary")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("multi-dictionary.%s" % name)

    # content: entries (span, item) by pair index
    def entry(self, m):
        i, j = SB.FST(m), SB.SND(m)
        return self.key(i), SymVal(self.f(i, j), self.name)

    def domain(self, m):
        i, j = SB.FST(m), SB.SND(m)
        return z3.And(i >= 0, i < self.n, j >= 0, j < self.gn(i))

    def fresh(self, p):
        i, j = p.const("anykey", INT), p.const("anyitem", INT)
        index_term(p, i)
        index_term(p, j)
        return SB.pair_term(p, i, j)

    def terms(self, p):
        return list(SB.quant(p).terms)


def _span_after_load(mod):
    if mod.__name__ == "vistautils.span":
        mod.immutableset = sym_immutableset


# ------------------------------------------------------------------------------- immutable sets
def sym_immutableset(it=None, **kw):
    import immutablecollections as ic

    h = getattr(it, "__pyvc_comp__", None)
    if h is not None and h() is not None:
        it = h()
    if isinstance(it, SymComp):
        return SymSetView([it])
    if isinstance(it, SymSeq) or (it is not None and SB.symiter(it)):
        s = SB.as_symseq(it)
        k = C.cur().const("k", INT)
        index_term(C.cur(), k)
        return SymSetView([SymComp(s, k, [(z3.BoolVal(True), [s.at(k)])], "list")])
    return ic.immutableset(it, **kw)


def same_range_t(a, b):
    if isinstance(a, RM.Range) and isinstance(b, RM.Range):
        (alo, ahi), (blo, bhi) = range_terms(a), range_terms(b)
        return z3.And(alo.p == blo.p, ahi.p == bhi.p)
    raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))


SB.SAME_HOOK[0] = same_range_t


class SymSetView(Sym):
    """An ImmutableSet whose elements are given by symbolic comprehensions and single elements."""

    def __init__(self, chunks):
        self.chunks = chunks

    def _seq(self):
        if len(self.chunks) == 1 and isinstance(self.chunks[0], SymComp):
            return self.chunks[0].__pyvc_seq__()
        raise Unsupported("comparison of a filtered symbolic set")

    def __hash__(self):
        raise Unsupported("hash of a symbolic set")

    def __eq__(self, o):
        """contract of set equality: each element of one is equal to an element of the other"""
        if not isinstance(o, SymSetView):
            raise Unsupported("symbolic set compared with %s" % type(o).__name__)
        a, b = self._seq(), o._seq()
        p = C.cur()
        k = p.choose([True, "left", "right"], "set==")
        if k is True:
            for x, y in ((a, b), (b, a)):
                f = z3.Function(p.fresh("ix"), INT, INT)
                add_forall(
                    p,
                    lambda i, x=x, y=y, f=f: z3.Implies(
                        x.domain(i), z3.And(y.domain(f(i)), same_range_t(x.at(i), y.at(f(i))))
                    ),
                )
            return True
        x, y = (a, b) if k == "left" else (b, a)
        w = p.const("odd", INT)
        index_term(p, w)
        p.add(x.domain(w))
        add_forall(
            p, lambda i: z3.Implies(y.domain(i), z3.Not(same_range_t(x.at(w), y.at(i))))
        )
        if p.ex.solver.check(p.pc) == "unsat":
            raise Infeasible()
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __pyvc_isinstance__(self, cls):
        return getattr(cls, "__name__", "") in (
            "ImmutableSet",
            "Set",
            "AbstractSet",
            "Iterable",
            "Collection",
            "object",
        )

    def __iter__(self):
        raise Unsupported("C-level iteration over a symbolic set")

    def __pyvc_issym__(self):
        return True

    def __pyvc_comp__(self):
        if len(self.chunks) == 1 and isinstance(self.chunks[0], SymComp):
            return self.chunks[0]
        if not any(isinstance(c, SymComp) for c in self.chunks):
            return None
        raise Unsupported("loop over a set built from several pieces")

    def __pyvc_seq__(self):
        """elements of a set given by one unfiltered comprehension (its elements are distinct)"""
        return self._seq()


class ImmutableSetShim:
    """Name `ImmutableSet` as seen by the code: builder() returns an effect-aware builder."""

    def builder(self, *a, **k):
        return EBuilder(*a, **k)

    def of(self, it, *a, **k):
        import immutablecollections as ic

        if not a and not k and SB.symiter(it):
            return sym_immutableset(it)
        return ic.ImmutableSet.of(it, *a, **k)

    def __getattr__(self, name):
        import immutablecollections as ic

        return getattr(ic.ImmutableSet, name)

    def __instancecheck__(self, x):
        import immutablecollections as ic

        return isinstance(x, ic.ImmutableSet)


class EBuilder:
    def __init__(self, *a, **k):
        self.chunks = []
        if SB.EFFECTS:
            SB.EFFECTS[-1].local.add(self)

    def add(self, x):
        if not effect(self, "add", x):
            self.chunks.append(x)
        return self

    def add_all(self, xs):
        if SB.symiter(xs):
            raise Unsupported("builder.add_all of a symbolic iterable")
        for x in xs:
            self.add(x)
        return self

    def __pyvc_effect__(self, op, args):
        self.chunks.append(args[0])

    def __pyvc_forall_effects__(self, loop, hi, lst):
        seq = SymSeq(hi, loop.seq.at, off=loop.seq.off)
        k = loop.k
        alts = {}
        # group effects by guard to keep per-iteration order
        for g, op, args in lst:
            alts.setdefault(g.get_id(), (g, []))[1].append(args[0])
        self.chunks.append(SymComp(seq, k, list(alts.values()), "list", len(loop.normal) == 1))

    def build(self):
        import immutablecollections as ic

        if any(isinstance(c, SymComp) for c in self.chunks):
            return SymSetView(list(self.chunks))
        return ic.immutableset(list(self.chunks))

    def __len__(self):
        raise Unsupported("len of builder")


SB.AFTER.append(_rng_after_load)
SB.AFTER.append(_span_after_load)
