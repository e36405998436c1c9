"""Builtins as seen by the code under verification, and the proxies for symbolic sequences.

Every function here delegates to the CPython builtin unless a symbolic proxy is involved.
"""
import builtins
import enum
import functools
import inspect
import types
from collections.abc import Container, Iterator, Sized
import sys

from .core import z3

from . import core as C
from .core import (  # noqa: F401
    I,
    Infeasible,
    Outcome,
    Sym,
    SymBool,
    SymInt,
    SymOrd,
    SymVal,
    Unsupported,
    mkbool,
    mkint,
    summarise,
)

_is = lambda a, b: a is b  # noqa: E731


def sym_is(a, b):
    if a is b:
        return True
    h = getattr(type(a), "__pyvc_is__", None)
    if h is not None:
        return h(a, b)
    h = getattr(type(b), "__pyvc_is__", None)
    if h is not None:
        return h(b, a)
    return False


def sym_isnot(a, b):
    r = sym_is(a, b)
    if isinstance(r, SymBool):
        return SymBool(z3.Not(r.t))
    return not r


def like(sample, cls):
    """isinstance of a stand-in of which only the abstract classes are known: those of the sample"""
    import abc

    c = getattr(cls, "__origin__", None) or cls
    if c is not object and not isinstance(c, abc.ABCMeta):
        if isinstance(c, type) and any(issubclass(c, a) and not isinstance(sample, a) for a in (Sized, Container, Iterator)):
            return False
        raise Unsupported("isinstance of an iterable against %r" % (cls,))
    return isinstance(sample, c)


def sym_isinstance(x, cls):
    if isinstance(x, Sym) or hasattr(type(x), "__pyvc_isinstance__"):
        if isinstance(cls, tuple):
            for c in cls:
                r = sym_isinstance(x, c)
                if r is True or (isinstance(r, SymBool) and bool(r)):
                    return True
            return False
        cls = vars(cls).get("__pyvc_real__", cls) if isinstance(cls, type) else cls  # the class a stub stands for
        h = getattr(type(x), "__pyvc_isinstance__", None)
        if h is not None:
            return h(x, cls)
        if isinstance(x, SymInt):
            return issubclass(int, cls) if isinstance(cls, type) else isinstance(0, cls)
        if isinstance(x, SymBool):
            return issubclass(bool, cls) if isinstance(cls, type) else isinstance(True, cls)
        if isinstance(x, (SymOrd, SymVal)):
            if cls is object:
                return True
            raise Unsupported("isinstance of an opaque value against %r" % (cls,))
        raise Unsupported("isinstance(%s, %r)" % (type(x).__name__, cls))
    return isinstance(x, cls)


def sym_len(x):
    h = getattr(type(x), "__pyvc_len__", None)
    if h is not None:
        return h(x)
    if isinstance(x, Sym):
        raise Unsupported("len of %s" % type(x).__name__)
    # user-level __len__ may return a proxy, which builtins.len would reject
    m = type(x).__dict__.get("__len__")
    if m is None:
        for k in type(x).__mro__:
            if "__len__" in k.__dict__:
                m = k.__dict__["__len__"]
                break
    if m is not None and hasattr(m, "__code__"):
        return m(x)
    return len(x)


class HashMode:
    uf = False


HASH_ORD = z3.Function("hash_of", z3.IntSort(), z3.IntSort())


def sym_hash(x):
    if HashMode.uf:
        if isinstance(x, SymOrd):
            return mkint(HASH_ORD(x.t))
        if isinstance(x, SymSeq):
            return hash_seq(x)
        m = type(x).__hash__
        if hasattr(m, "__code__"):
            return m(x)
        if isinstance(x, Sym):
            raise Unsupported("hash of proxy")
        return hash(x)
    # constant hash: a sound over-approximation for every dict/set operation
    if isinstance(x, Sym) or hasattr(type(x), "__pyvc_symhash__"):
        return 0
    m = type(x).__hash__
    if hasattr(m, "__code__"):
        r = m(x)
        return r if isinstance(r, int) else 0
    return hash(x)


def hash_seq(s):
    """hash(tuple(...)): sequences of equal elements have equal hashes (nothing else is known).

    For each earlier hashed sequence, d is defined as the first position at which the two differ
    (the length of the shorter one if there is none)."""
    p = C.cur()
    known = p.store.setdefault("hseqs", ForkList())
    for t, ht in known.items:
        if t is s:
            return mkint(ht)
    h = p.const("hash", z3.IntSort())
    for t, ht in known.items:
        d = p.const("diff", z3.IntSort())
        m = z3.If(s.n < t.n, s.n, t.n)
        same = lambda i, t=t: SAME_HOOK[0](s.at(i), t.at(i))  # noqa: E731
        p.axiom(z3.And(0 <= d, d <= m))
        p.axiom(z3.Implies(d < m, z3.Not(same(d))))
        p.axiom(z3.Implies(z3.And(d == m, s.n == t.n), h == ht))
        add_forall(p, lambda i, d=d, same=same: z3.Implies(z3.And(i >= 0, i < d), same(i)))
        index_term(p, d)
    known.items.append((s, h))
    return mkint(h)


SAME_HOOK = [None]


class ForkList:
    def __init__(self, items=()):
        self.items = list(items)

    def fork(self):
        return ForkList(self.items)


# --------------------------------------------------------------------------- symbolic sequences
class SymSeq(Sym):
    """Immutable sequence of symbolic length: at(index term) -> element, 0 <= index < n.

    `uniq` optionally names the provenance of the elements."""

    __slots__ = ("n", "at", "prov", "off", "link", "under")

    def __init__(self, n, at, prov=None, off=None, under=None):
        self.under = under  # a sequence whose elements at the same positions these are made from
        self.link = None  # how it was made from other sequences
        self.n = n  # z3 Int
        self.at = at
        self.prov = prov
        self.off = off  # offset into the underlying sequence: instantiation hint only

    def __pyvc_len__(self):
        return mkint(self.n)

    def __bool__(self):
        return C.cur().decide(self.n > 0)

    def __pyvc_isinstance__(self, cls):
        return isinstance([], cls)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        i = I(k)
        p = C.cur()
        if p.decide(i < 0):
            i = i + self.n
        if not p.decide(z3.And(i >= 0, i < self.n)):
            raise IndexError("sequence index out of range")
        return self.at(z3.simplify(i))

    def spoken(self, i):
        """what is known of position i, when an element found for an arbitrary position is put at i"""
        if self.under is not None:
            self.under.spoken(i)

    def upto(self, n):
        return SymSeq(n, self.at, off=self.off, under=self)

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("stepped slice of a symbolic sequence")
        p = C.cur()

        def norm(v, dflt):
            if v is None:
                return dflt
            t = I(v)
            t = z3.If(t < 0, z3.If(t + self.n < 0, z3.IntVal(0), t + self.n), t)
            return z3.If(t > self.n, self.n, t)

        a = z3.simplify(norm(s.start, z3.IntVal(0)))
        b = z3.simplify(norm(s.stop, self.n))
        m = z3.simplify(z3.If(b - a < 0, z3.IntVal(0), b - a))
        at = self.at
        off = a if self.off is None else z3.simplify(a + self.off)
        return SymSeq(m, lambda i: at(z3.simplify(a + i)), off=off)

    def __pyvc_subst__(self, k, i):
        at = self.at

        def at2(j):
            outs = C.summarise(lambda: at(j), base_pc=[])
            for o in outs[:-1]:
                if C.cur().decide(z3.substitute(o.guard, (k, i))):
                    break
            else:
                o = outs[-1]
            if o.kind == "raise":
                raise o.value
            return subst(o.value, k, i)

        return type(self)(z3.substitute(self.n, (k, i)), at2) if type(self) in (SymSeq, SymTuple) else SymSeq(z3.substitute(self.n, (k, i)), at2)

    def __contains__(self, x):
        return seq_contains(self, x)

    def __iter__(self):
        # `next(iter(seq))`-style access by Python code in the repository
        return SymSeqIter(self)

    # loop protocol -------------------------------------------------------
    def domain(self, k):
        return z3.And(k >= 0, k < self.n)


class SymSeqIter(Sym):
    """Python-level iterator over a SymSeq (next() by repository code forks on exhaustion)."""

    def __init__(self, seq, pos=None):
        self.seq = seq
        self.pos = pos if pos is not None else z3.IntVal(0)
        self.dead = False

    def __iter__(self):
        return self

    def __pyvc_isinstance__(self, cls):
        return like(iter(()), cls)

    def _alive(self):
        if self.dead:
            raise Unsupported("use of an iterator shared with a lazily consumed generator")

    def __next__(self):
        p = C.cur()
        self._alive()
        self._guard()
        if not p.decide(self.pos < self.seq.n):
            raise StopIteration
        v = self.seq.at(z3.simplify(self.pos))
        self.pos = z3.simplify(self.pos + 1)
        return v

    def _guard(self):
        st = C.cur().store
        st["iter_steps"] = st.get("iter_steps", 0) + 1
        if st["iter_steps"] > 64:
            raise Unsupported("unbounded iteration over a symbolic sequence by C code")

    def rest(self):
        """The remaining elements as a sequence (used by loops over the iterator)."""
        a, s = self.pos, self.seq
        if z3.is_int_value(a) and a.as_long() == 0:
            return s
        return SymSeq(z3.simplify(s.n - a), lambda i: s.at(z3.simplify(a + i)))


class SymRange(SymSeq):
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        lo, hi = z3.simplify(I(lo)), z3.simplify(I(hi))
        n = z3.simplify(z3.If(hi - lo < 0, z3.IntVal(0), hi - lo))
        SymSeq.__init__(self, n, lambda i: mkint(lo + i), off=lo)
        self.lo, self.hi = lo, hi


def sym_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    raise Unsupported("stepped symbolic range")


def as_symseq(x):
    """SymSeq view of a symbolic iterable, or None when it is an ordinary iterable."""
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SymSeqIter):
        return x.rest()
    h = getattr(type(x), "__pyvc_seq__", None)
    if h is not None:
        return h(x)
    return None


def consume_comp(x):
    if x.used:
        raise Unsupported("a generator is consumed twice")
    x.used = True


def consume(x, lazy=False):
    """SymSeq of everything `x` yields, recording that a one-shot iterable has been consumed."""
    if isinstance(x, SymSeqIter):
        x._alive()
        s = x.rest()
        if lazy:
            x.dead = True
        else:
            x.pos = x.seq.n
        return s
    if isinstance(x, SymComp) and x.kind == "gen":
        if x.used:
            raise Unsupported("a generator is consumed twice")
        x.used = True
    return as_symseq(x)


def symiter(x):
    if isinstance(x, (SymSeq, SymSeqIter)):
        return True
    h = getattr(type(x), "__pyvc_issym__", None)
    if h is not None:
        return h(x)
    return hasattr(type(x), "__pyvc_seq__")


# ---- loops ------------------------------------------------------------------
class Poison:
    """Value of a loop-carried variable after a summarised loop; any use is unsupported."""

    def _bad(self, *a, **k):
        raise Unsupported("use of a variable assigned inside a summarised loop")

    __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __hash__ = _bad
    __add__ = __radd__ = __sub__ = __iter__ = __getitem__ = __call__ = __len__ = _bad
    __contains__ = __str__ = __repr__ = __format__ = _bad

    def __getattr__(self, n):
        raise Unsupported("use of a variable assigned inside a summarised loop")


POISON = Poison()


class EffectLog:
    """Effects of one abstract iteration of a summarised loop."""

    def __init__(self):
        self.effects = []


EFFECTS = []  # stack of active logs


FRAMES = []  # iterations under an invariant: the objects they may change


def framed(obj):
    if FRAMES and obj not in FRAMES[-1].local:
        raise Unsupported("an iteration changes an object its loop invariant does not speak of: %s" % type(obj).__name__)


def effect(obj, op, *args):
    """Called by model objects when they are mutated inside an abstract loop iteration.
    Returns True if the mutation was logged (the caller must then not perform it)."""
    if EFFECTS:
        if obj in EFFECTS[-1].local:
            return False
        EFFECTS[-1].effects.append((obj, op, args))
        return True
    framed(obj)
    return False


class LoopResult:
    def __init__(self, kind, value=None, env=None):
        self.kind = kind
        self.value = value
        self.env = env or {}

    def var(self, name):
        return self.env.get(name, POISON)


class IdSet:
    def __init__(self):
        self.ids = {}

    def add(self, o):
        self.ids[id(o)] = o

    def __contains__(self, o):
        return id(o) in self.ids


FACTS = []  # for each loop being summarised: the facts about every iteration of the loops inside it


def _abstract_iteration(seq, body, label, inv=None):
    """Summarise body on the element at a fresh index k."""
    p = C.cur()
    k = p.const("k", z3.IntSort())
    dom = seq.domain(k)
    index_term(p, k)

    def thunk():
        log = EffectLog()
        log.local = IdSet()
        EFFECTS.append(log)
        q = C.cur()
        q.store["loop_ix"] = tuple(q.store.get("loop_ix", ())) + (k,)
        try:
            try:
                if inv is not None:
                    st = inv.arbitrary(k)
                    for o in inv.owned():
                        log.local.add(o)
                    sig = body(seq.at(k), st)
                    if sig[0][0] == "next":
                        inv.preserved(k, sig[0][2])
                else:
                    sig = body(seq.at(k))
            except UnboundLocalError as e:
                raise Unsupported("loop-carried state: %s" % e)
        finally:
            EFFECTS.pop()
        return sig, log.effects

    axs = []
    FACTS.append([])
    try:
        outs = summarise(thunk, base_pc=list(p.pc) + [dom], axioms_out=axs)
    finally:
        inner = FACTS.pop()
    for inst in inner:
        # facts about every iteration of a loop inside this one
        add_forall2(p, lambda i, j, inst=inst: z3.substitute(instance(inst, j), (k, i)))
    axs = [a for a in axs if _mentions(a, k)]
    if axs:
        # facts about constants introduced inside the iteration hold at every index
        conj = z3.And(*axs)
        add_forall(p, shifted(seq, lambda i: z3.substitute(conj, (k, i))), fact=True)
    return k, dom, outs


def _mentions(e, k):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(k):
            return True
        todo.extend(x.children())
    return False


def _filtered(it, body):
    """A loop over a filtered comprehension: at each index the elements present, in order."""
    comp = getattr(it, "__pyvc_comp__", None)
    comp = comp() if comp is not None else it if isinstance(it, SymComp) else None
    if comp is None or comp.plain():
        return it, body
    if isinstance(comp.seq, PairSeq):
        raise Unsupported("loop over a nested comprehension")
    if comp.kind == "gen":
        consume_comp(comp)

    def at(i):
        return ("@index", i)

    def body2(e):
        i = e[1]
        p = C.cur()
        groups = {}
        for g, x in comp.members_at(i):
            groups.setdefault(g.get_id(), (g, []))[1].append(x)
        for g, xs in groups.values():
            if p.decide(g):
                for x in xs:
                    sig = body(x)
                    if sig[0] != "next":
                        return sig
        return ("next", None, {})

    return SymSeq(comp.seq.n, at, off=comp.seq.off, under=comp.seq), body2


def _filtered_gen(it, body):
    """the same for the loop of a generator"""
    comp = getattr(it, "__pyvc_comp__", None)
    comp = comp() if comp is not None else it if isinstance(it, SymComp) else None
    if comp is None or comp.plain():
        return it, body
    if comp.kind == "gen":
        consume_comp(comp)

    def body2(e):
        p = C.cur()
        groups = {}
        for g, x in comp.members_at(e[1]):
            groups.setdefault(g.get_id(), (g, []))[1].append(x)
        for g, xs in groups.values():
            if p.decide(g):
                for x in xs:
                    sig = yield from body(x)
                    if sig[0] != "next":
                        return sig
        return ("next", None, {})

    return _reindexed(comp), body2


class Invariant:
    """A loop invariant stated by a contract.

    state(env, i) puts an arbitrary state satisfying the invariant before iteration i in place (into
    the model objects found in env, the variables of the enclosing function), and returns the values
    of the variables which carry state; check(env, i, say) states the invariant of a given state."""

    def __init__(self, h, lid, state, check, owned=None):
        self.h, self.lid, self.state, self.check, self._owned = h, lid, state, check, owned
        self.env = {}

    def enter(self, env):
        """the invariant holds before the first iteration"""
        self.env = {k: v for k, v in env.items() if not k.startswith("_pyvc_")}
        if self.on_enter is not None:
            self.on_enter(self.env)
        if self.split:
            # checked on a path of its own: what the check speaks of is no burden to what follows
            if C.cur().choose(["go on", "check"], "entry") == "go on":
                return
        self._say(self.env, z3.IntVal(0), "holds when the loop is entered")
        if self.output is not None:
            self.say_output(z3.IntVal(0), None, [])
        if self.split:
            raise PathEnd()

    def _say(self, env, i, what):
        def say(part, c):
            self.h.ensure("loop invariant of %s %s: %s" % (self.lid, what, part), c)

        self.check(env, mkint(i), say)

    def owned(self):
        return list(self._owned(self.env) if self._owned else []) + self.lists()

    def lists(self):
        """lists held by variables: nothing is known of their content unless the contract says so"""
        return [v for v in self.env.values() if type(v) is EList and not (FRAMES and v not in FRAMES[-1].local)]

    def arbitrary(self, i):
        for v in self.lists():
            v.forget()
        return self.state(self.env, mkint(i)) or {}

    yielded = ()
    output = on_enter = None
    split = False

    def say_output(self, i, before, out):
        """the invariant's account of what has been yielded is that of the code"""
        after = self.output(mkint(i))
        label = "loop invariant of %s: what has been yielded" % self.lid
        p = C.cur()
        n = before.n if before is not None else z3.IntVal(0)
        self.h.ensure(label + " (number)", mkbool(after.n == n + len(out)))
        for j, x in enumerate(out):
            self.h.ensure(label + " (added)", mkbool(SAME[0](after.at(z3.simplify(n + j)), x)))
        if before is not None:
            k = p.const("earlier", z3.IntSort())
            index_term(p, k)
            if p.ex.solver.check(p.pc, k >= 0, k < n) != "unsat":
                self.h.ensure(label + " (kept)", mkbool(z3.Implies(z3.And(k >= 0, k < n), SAME[0](after.at(k), before.at(k)))))

    def preserved(self, i, env):
        merged = dict(self.env)
        merged.update((k, v) for k, v in env.items() if not k.startswith("_pyvc_"))
        self._say(merged, z3.simplify(i + 1), "is preserved by an iteration")


class PathEnd(Infeasible):
    """an iteration which preserved the invariant: nothing follows it"""


def find_invariant(lid):
    return C.CUR.store.get("invariants", {}).get(lid) if C.CUR is not None and lid else None


def has_invariant(lid):
    return find_invariant(lid) is not None


def _cut_iteration(inv, i, body, *elem):
    """one arbitrary iteration: ends the path if it completes, otherwise the way it leaves the loop"""
    frame = EffectLog()
    frame.local = IdSet()
    st = inv.arbitrary(i)
    for o in inv.owned():
        frame.local.add(o)
    for o in st.values():
        frame.local.add(o)
    FRAMES.append(frame)
    try:
        sig = body(*elem, st) if elem else body(None, st)
        if sig[0] == "next":
            inv.preserved(i, sig[2])
            raise PathEnd()
    finally:
        FRAMES.pop()
        if FRAMES:
            for o in frame.local.ids.values():
                FRAMES[-1].local.add(o)
    env = {n: v for n, v in sig[2].items() if not n.startswith("_pyvc_")}
    return LoopResult("next" if sig[0] == "exit" else sig[0], sig[1], env)


def run_while(body, lid, env):
    if EFFECTS:
        raise Unsupported("while loop inside an abstract iteration")
    p = C.cur()
    inv = find_invariant(lid)
    inv.enter(env)
    i = p.const("iter", z3.IntSort())
    p.add(i >= 0)
    return _cut_iteration(inv, i, body)


def run_genwhile(body, lid, env):
    """a while loop which yields: what the iterations before an arbitrary one yielded is given by the
    invariant (`output`); each iteration is checked to add to it what it yields"""
    if EFFECTS:
        raise Unsupported("while loop inside an abstract iteration")
    p = C.cur()
    inv = find_invariant(lid)
    if inv.output is None:
        raise Unsupported("invariant which does not say what is yielded")
    inv.enter(env)
    i = p.const("iter", z3.IntSort())
    p.add(i >= 0)
    frame = EffectLog()
    frame.local = IdSet()
    st = inv.arbitrary(i)
    before = inv.output(mkint(i))
    for o in inv.owned():
        frame.local.add(o)
    for o in st.values():
        frame.local.add(o)
    FRAMES.append(frame)
    out, err, sig = [], None, None
    try:
        gen = body(None, st)
        try:
            while True:
                x = next(gen)
                if isinstance(x, GenChunk):
                    raise Unsupported("generator loop inside a generator loop")
                out.append(x)
        except StopIteration as e:
            sig = e.value
        except Exception as e:  # noqa: B902
            err = e
        if sig is not None and sig[0] == "next":
            inv.yielded = out
            inv.preserved(i, sig[2])
            inv.say_output(z3.simplify(i + 1), before, out)
            raise PathEnd()
    finally:
        FRAMES.pop()
        if FRAMES:
            for o in frame.local.ids.values():
                FRAMES[-1].local.add(o)
    yield GenChunk(_as_comp(before))
    yield from out
    if err is not None:
        raise err
    return LoopResult("next" if sig[0] == "exit" else sig[0], sig[1], {n: v for n, v in sig[2].items() if not n.startswith("_pyvc_")})


def run_loop(it, body, lid=None, env=None):
    p = C.cur()
    inv = find_invariant(lid)
    if inv is not None:
        if EFFECTS:
            raise Unsupported("loop with an invariant inside an abstract iteration")
        seq = consume(it)
        if seq is None:
            raise Unsupported("loop over %r" % (type(it),))
        inv.enter(env)
        if p.choose(["iteration", "after"], "loop") == "after":
            return LoopResult("next", None, inv.arbitrary(seq.n))
        i = p.const("iter", z3.IntSort())
        index_term(p, i)
        p.assume(seq.domain(i))
        return _cut_iteration(inv, i, body, seq.at(i))
    it, body = _filtered(it, body)
    seq = consume(it, lazy=True)
    if seq is None:
        raise Unsupported("loop over %r" % (type(it),))
    # empty and non-empty need no distinction: all statements are quantified over the domain
    k, dom, outs = _abstract_iteration(seq, body, "for")
    normal = []
    exits = []
    for o in outs:
        if o.kind == "raise":
            exits.append((o.guard, "raise", o.value, [], {}))
            continue
        sig, effs = o.value
        if sig is None or not isinstance(sig, tuple) or len(sig) != 3:
            raise Unsupported("loop body signal")
        kind, val, env = sig
        if kind == "next":
            normal.append((o.guard, effs))
        else:
            exits.append((o.guard, kind, val, effs, env))
    loop = LoopSummary(seq, k, normal, exits)
    choice = p.choose(["done"] + list(range(len(exits))), "loop") if exits else "done"
    if choice == "done":
        # every iteration completed normally
        if exits:
            if not normal:
                # no iteration can complete: the sequence is empty
                p.assume(seq.n <= 0)
                return LoopResult("next")
            loop.forall_normal(p, None)
            if C.cur().ex.solver.check(p.pc) == "unsat":
                raise Infeasible()
        _apply_effects(loop, None)
        return LoopResult("next")
    guard, kind, val, effs, env = exits[choice]
    # iteration j is the first which exits, in this way
    j = k  # the fresh index itself is the witness
    p.add(dom)
    p.add(guard)
    if C.cur().ex.solver.check(p.pc) == "unsat":
        raise Infeasible()
    loop.forall_normal(p, j)
    if C.cur().ex.solver.check(p.pc) == "unsat":
        raise Infeasible()
    _apply_effects(loop, j)
    for obj, op, args in effs:
        if not effect(obj, op, *args):
            obj.__pyvc_effect__(op, args)
    if kind == "raise":
        raise val
    env = {n: v for n, v in env.items() if not n.startswith("_pyvc_")}
    if kind == "break":
        return LoopResult("break", None, env)
    return LoopResult("return", val, env)


class LoopSummary:
    def __init__(self, seq, k, normal, exits):
        self.seq = seq
        self.k = k
        self.normal = normal
        self.exits = exits

    def normal_guard(self, i):
        g = z3.Or(*[g for g, _ in self.normal]) if self.normal else z3.BoolVal(False)
        return z3.substitute(g, (self.k, i))

    def forall_normal(self, p, upto):
        """Hypothesis: for all i in [0, upto or n): the iteration completes normally."""
        seq, me = self.seq, self

        def inst(i):
            hi = upto if upto is not None else seq.n
            return z3.Implies(z3.And(i >= 0, i < hi), me.normal_guard(i))

        add_forall(p, shifted(seq, inst))


def _apply_effects(loop, upto):
    hi = upto if upto is not None else loop.seq.n
    per_obj = {}
    order = []
    for g, effs in loop.normal:
        for e in effs:
            key = id(e[0])
            if key not in per_obj:
                per_obj[key] = (e[0], [])
                order.append(key)
            per_obj[key][1].append((g, e[1], e[2]))
    for key in order:
        obj, lst = per_obj[key]
        h = getattr(obj, "__pyvc_forall_effects__", None)
        if h is None:
            raise Unsupported("effects on %r in a summarised loop" % type(obj))
        if EFFECTS and obj not in EFFECTS[-1].local and (upto is not None or not isinstance(obj, (EList, ESet))):
            raise Unsupported("effects of a nested loop on an object made outside of both")
        h(loop, hi, lst)


# ---- quantified hypotheses, instantiated at every registered index term -----------------------
class Quant:
    def __init__(self):
        self.insts = []
        self.facts = builtins.set()  # those which hold on every path
        self.insts2 = []  # facts about every two indices
        self.terms = []
        self.inherited = 0  # hypotheses of the enclosing path: their instances are facts here

    def fork(self):
        q = Quant()
        q.inherited = len(self.insts)
        q.insts = list(self.insts)
        q.facts = builtins.set(self.facts)
        q.insts2 = list(self.insts2)
        q.terms = list(self.terms)
        return q


def quant(p):
    if "quant" not in p.store:
        p.store["quant"] = Quant()
    return p.store["quant"]


def add_forall(p, inst, fact=False):
    """inst(i) -> z3 Bool, valid for every int i under the current path (a fact: under every path)."""
    q = quant(p)
    q.insts.append(inst)
    if fact:
        q.facts.add(id(inst))
        if FACTS:
            FACTS[-1].append(inst)
    for t in list(q.terms):
        (p.axiom if fact else p.add)(instance(inst, t))


def add_forall2(p, inst):
    """inst(i, j), a fact for every two ints"""
    q = quant(p)
    q.insts2.append(inst)
    for t in list(q.terms):
        for u in list(q.terms):
            p.axiom(inst(t, u))


def shifted(seq, inst):
    """also instantiate at the positions of the terms relative to the start of a slice"""
    off = getattr(seq, "off", None)
    if off is None or z3.is_int_value(off) and off.as_long() == 0:
        return inst
    return lambda i: z3.And(inst(i), inst(z3.simplify(i - off)))


BASES = []  # per-path: objects with .saturate(p, terms)


INSTANTIATING = [0]


def instance(inst, t):
    INSTANTIATING[0] += 1
    try:
        return inst(t)
    finally:
        INSTANTIATING[0] -= 1


def index_term(p, t):
    """Register an index term: all quantified hypotheses are instantiated with it."""
    q = quant(p)
    t = z3.simplify(t)
    for u in q.terms:
        if u.eq(t):
            return
    q.terms.append(t)
    for j, inst in enumerate(list(q.insts)):
        f = instance(inst, t)
        if j < q.inherited or id(inst) in q.facts:
            p.axiom(f)
        else:
            p.add(f)
    for inst in list(q.insts2):
        for u in list(q.terms):
            p.axiom(inst(t, u))
            if not u.eq(t):
                p.axiom(inst(u, t))


# ---- comprehensions -------------------------------------------------------------------
class SymComp(Sym):
    """Result of a comprehension / generator over a symbolic sequence: for every index k of `seq`
    in order, zero or more elements, given by alternatives (guard(k), [elements(k)])."""

    def __init__(self, seq, k, alts, kind, total=False):
        self.seq = seq
        self.k = k
        self.alts = alts  # (guard, list of elements)
        self.total = total  # are these all ways an index can go
        self.kind = kind
        self.used = False
        self.whole = None

    def plain(self):
        """exactly one element for every index"""
        if len(self.alts) != 1 or len(self.alts[0][1]) != 1 or isinstance(self.seq, PairSeq):
            return False
        if self.total or z3.is_true(self.alts[0][0]):
            return True
        # the other alternatives may have been ruled out by the path, for every index
        p = C.cur()
        i = p.const("each", z3.IntSort())
        index_term(p, i)
        g = z3.substitute(self.alts[0][0], (self.k, i))
        return p.ex.solver.check(p.pc, z3.And(self.seq.domain(i), z3.Not(g))) == "unsat"

    def __pyvc_isinstance__(self, cls):
        import collections.abc as abc

        if cls is list:
            return self.kind == "list"
        if cls is set:
            return self.kind == "set"
        return cls in (abc.Iterable, object)

    def count(self):
        """how many elements, as far as none, one or several (with their positions)"""
        if isinstance(self.seq, PairSeq) or any(len(es) > 1 for _, es in self.alts):
            raise Unsupported("number of elements of a nested comprehension")
        p = C.cur()

        def member(i):
            return z3.And(self.seq.domain(i), z3.Or(*[g for g, _ in self.members_at(i)] or [z3.BoolVal(False)]))

        memo = p.store.setdefault("counts", Memo()).d
        if id(self) in memo:
            return memo[id(self)][0]
        which = p.choose(["none", "one", "several"], "count")
        n = p.const("count", z3.IntSort())
        if which == "none":
            p.add(n == 0)
            add_forall(p, lambda i: z3.Not(member(i)))
        else:
            a = p.const("member", z3.IntSort())
            index_term(p, a)
            p.add(member(a))
            if which == "one":
                p.add(n == 1)
                add_forall(p, lambda i: z3.Implies(member(i), i == a))
            else:
                b = p.const("member", z3.IntSort())
                index_term(p, b)
                p.add(z3.And(member(b), a < b, n >= 2))
        if p.ex.solver.check(p.pc) == "unsat":
            raise C.Infeasible()
        memo[id(self)] = (n, self)
        return n

    def __bool__(self):
        return C.cur().decide(self.count() > 0)

    def __iter__(self):
        raise Unsupported("C-level iteration over a symbolic comprehension")

    def __pyvc_len__(self):
        if self.plain():
            return mkint(self.seq.n)
        return mkint(self.count())

    # as a sequence (only if exactly one element per index)
    def __pyvc_issym__(self):
        return True

    def __pyvc_seq__(self):
        if self.whole is not None:
            return self.whole
        if self.plain():
            e = self.alts[0][1][0]
            k = self.k
            seq = self.seq

            def at(i):
                seq.spoken(i)
                return subst(e, k, i)

            r = SymSeq(self.seq.n, at, off=self.seq.off, under=seq)
            r.link = ("map", self.seq)
            return r
        raise Unsupported("loop over a filtered symbolic comprehension")

    def __getitem__(self, i):
        return self.__pyvc_seq__()[i]

    def members_at(self, i):
        """[(guard, element)] at index i"""
        if self.whole is not None:
            return [(z3.BoolVal(True), self.whole.at(i))]
        self.seq.spoken(i)
        out = []
        for g, es in self.alts:
            gi = z3.substitute(g, (self.k, i))
            for e in es:
                out.append((gi, subst(e, self.k, i)))
        return out


_EMPTY_CELL = types.CellType()


def subst(v, k, i):
    """Substitute index k by i in a (structured) symbolic value."""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (k, i))
    if isinstance(v, SymBool):
        return mkbool(z3.substitute(v.t, (k, i)))
    if isinstance(v, SymInt):
        return mkint(z3.substitute(v.t, (k, i)))
    if isinstance(v, SymOrd):
        return SymOrd(z3.substitute(v.t, (k, i)))
    if isinstance(v, SymVal):
        return SymVal(z3.substitute(v.t, (k, i)), v.tag)
    h = getattr(type(v), "__pyvc_subst__", None)
    if h is not None:
        return h(v, k, i)
    if isinstance(v, tuple):
        return tuple(subst(x, k, i) for x in v)
    if isinstance(v, (int, str, bytes, float, type(None))):
        return v
    h = SUBST_HOOKS.get(type(v).__name__)
    if h is not None:
        return h(v, k, i)
    if isinstance(v, Sym):
        raise Unsupported("substitution into %s" % type(v).__name__)
    if isinstance(v, types.FunctionType):
        # a function made in an iteration, which knows the element of that iteration
        cells = [c.cell_contents for c in v.__closure__ or () if c != _EMPTY_CELL]
        for x in cells + list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
            if isinstance(x, Sym) and not isinstance(getattr(x, "t", None), z3.ExprRef):
                raise Unsupported("substitution into a function")
            if isinstance(x, Sym) and not z3.substitute(x.t, (k, i)).eq(x.t):
                raise Unsupported("substitution into a function")
        return v
    if isinstance(v, (type, types.ModuleType, types.BuiltinFunctionType, enum.Enum)):
        return v
    if isinstance(v, (list, dict, set)) or getattr(v, "__attrs_attrs__", None) is not None:
        return _subst_object(v, k, i)
    if isinstance(v, frozenset) or not hasattr(v, "__dict__"):
        return v
    for x in vars(v).values():
        if isinstance(x, (Sym, list, dict, tuple)) or type(x).__module__.startswith("vistautils"):
            raise Unsupported("substitution into %s" % type(v).__name__)
    return v


def _subst_object(v, k, i):
    """an object of each iteration: one copy for each index"""
    memo = C.cur().store.setdefault("subst_memo", Memo())
    key = (id(v), k.get_id(), i.get_id())
    if key in memo.d:
        return memo.d[key][0]
    if getattr(v, "segs", None) is not None:
        raise Unsupported("a container of symbolic content for each index")
    if isinstance(v, list):
        xs = [subst(x, k, i) for x in v]
        r = v if all(a is b for a, b in zip(xs, v)) else mklist(xs)
    elif isinstance(v, dict):
        xs = {a: subst(b, k, i) for a, b in dict.items(v)}
        r = v if all(xs[a] is b for a, b in dict.items(v)) else mkdict(xs)
    elif isinstance(v, set):
        if any(isinstance(x, Sym) for x in v):
            raise Unsupported("a set for each index")
        r = v
    else:
        new = {a.name: subst(getattr(v, a.name), k, i) for a in type(v).__attrs_attrs__}
        if all(getattr(v, n) is x for n, x in new.items()):
            r = v
        else:
            r = type(v).__new__(type(v))
            for n, x in new.items():
                object.__setattr__(r, n, x)
    memo.d[key] = (r, v, k, i)
    return r


class Memo:
    def __init__(self, d=None):
        self.d = d or {}

    def fork(self):
        return Memo(dict(self.d))


SUBST_HOOKS = {}


def _filtered_comp(it, one):
    comp = getattr(it, "__pyvc_comp__", None)
    comp = comp() if comp is not None else it if isinstance(it, SymComp) else None
    if comp is None or (comp.plain() and getattr(comp.seq, "map", None) is None):
        return it, one
    if comp.kind == "gen":
        consume_comp(comp)

    def one2(e):
        p = C.cur()
        groups = {}
        for g, x in comp.members_at(e[1]):
            groups.setdefault(g.get_id(), (g, []))[1].append(x)
        out = []
        for g, xs in groups.values():
            if p.decide(g):
                for x in xs:
                    out.extend(one(x))
        return out

    return _reindexed(comp), one2


def _reindexed(comp):
    if isinstance(comp.seq, PairSeq):
        raise Unsupported("loop over a nested comprehension")
    if getattr(comp.seq, "map", None) is not None:
        return comp.seq.reindexed()
    return SymSeq(comp.seq.n, lambda i: ("@index", i), off=comp.seq.off, under=comp.seq)


def run_comp(it, one, kind, nested):
    it, one = _filtered_comp(it, one)
    seq = consume(it, lazy=(kind == "gen"))
    if seq is None:
        raise Unsupported("comprehension over %r" % (type(it),))
    p = C.cur()
    k, dom, outs = _abstract_iteration(seq, one, "comp")
    alts = []
    pairs = []
    for o in outs:
        if o.kind == "raise":
            # the comprehension raises iff some index satisfies the guard
            if p.choose([False, True], "comp-raise"):
                p.add(dom)
                p.add(o.guard)
                if p.ex.solver.check(p.pc) == "unsat":
                    raise Infeasible()
                raise o.value
            add_forall(
                p,
                lambda i, g=o.guard: z3.Implies(
                    seq.domain(i), z3.Not(z3.substitute(g, (k, i)))
                ),
            )
            continue
        lst, effs = o.value
        if effs:
            raise Unsupported("effects inside a comprehension")
        if nested and len(lst) == 1 and isinstance(lst[0], EList) and lst[0].segs is not None:
            lst = [lst[0].__pyvc_comp__()]
        if nested and len(lst) == 1 and isinstance(lst[0], SymComp):
            pairs.append((o.guard, lst[0]))
            continue
        if nested:
            flat = []
            for sub in lst:
                if isinstance(sub, Sym):
                    raise Unsupported("nested symbolic comprehension")
                flat.extend(sub)
            lst = flat
        alts.append((o.guard, list(lst)))
    if pairs:
        if any(es for _, es in alts):
            raise Unsupported("comprehension mixing nested and flat results")
        return _pair_comp(seq, k, pairs, kind)
    if kind == "dict":
        if DICT_COMP[0] is None:
            raise Unsupported("symbolic dictionary comprehension")
        r = mkdict({})
        r.segs = DICT_COMP[0](seq, k, alts)
        return r
    r = SymComp(seq, k, alts, kind, True)
    if kind == "list" and not EFFECTS and not nested:
        r = mklist([])
        r._bulk(SymComp(seq, k, alts, kind, True))
    elif kind == "set" and not EFFECTS:
        r = mkset(builtins.set())
        r._bulk(SymComp(seq, k, alts, kind, True))
    return r


DICT_COMP = [None]


class Inner:
    """the contract which stands for the calls a nested function makes of itself"""

    def __init__(self, stub):
        self.stub, self.depth = stub, 0

    def fork(self):
        return self


def inner(name):
    def deco(f):
        @functools.wraps(f)
        def w(*a, **k):
            s = C.CUR.store.get("inner", {}).get(name) if C.CUR is not None else None
            if s is None:
                return f(*a, **k)
            if s.depth:
                return s.stub(*a, **k)
            s.depth += 1
            try:
                return f(*a, **k)
            finally:
                s.depth -= 1

        return w

    return deco


FST = z3.Function("pair_fst", z3.IntSort(), z3.IntSort())
SND = z3.Function("pair_snd", z3.IntSort(), z3.IntSort())
PAIR = z3.Function("pair", z3.IntSort(), z3.IntSort(), z3.IntSort())


def pair_term(p, i, j):
    """the index of the pair (i, j) of an outer and an inner index"""
    m = PAIR(i, j)
    p.axiom(z3.And(FST(m) == i, SND(m) == j))
    index_term(p, m)
    return m


class PairSeq(SymSeq):
    """Index space of a nested comprehension: pairs of an outer and an inner index."""

    __slots__ = ("dom",)

    def __init__(self, dom):
        def at(i):
            raise Unsupported("element of a nested comprehension's index space")

        SymSeq.__init__(self, None, at)
        self.dom = dom

    @property
    def n(self):
        raise Unsupported("length of a nested comprehension's index space")

    @n.setter
    def n(self, value):
        pass

    def domain(self, m):
        return self.dom(m)

    def __pyvc_len__(self):
        raise Unsupported("len of a nested comprehension")

    def __bool__(self):
        raise Unsupported("truth value of a nested comprehension")


def _pair_comp(seq, k, pairs, kind):
    K = C.cur().const("kk", z3.IntSort())
    alts = []
    doms = []
    for g, sub in pairs:
        # inner index first: its name is a function of the outer one
        def both(t, sub=sub):
            return subst(subst(t, sub.k, SND(K)), k, FST(K))

        inner = z3.And(g, sub.seq.domain(sub.k))
        doms.append(both(inner))
        for g2, es in sub.alts:
            alts.append((both(z3.And(inner, g2)), [both(e) for e in es]))
    outer = z3.And(seq.domain(k))
    dom = z3.And(subst(outer, k, FST(K)), z3.Or(*doms))
    return SymComp(PairSeq(lambda m: z3.substitute(dom, (K, m))), K, alts, kind)


def _drain(gen, chunks=False):
    """what a loop body yields, and how it ends"""
    out = []
    while True:
        try:
            x = next(gen)
        except StopIteration as e:
            return e.value, out
        if isinstance(x, GenChunk) and not chunks:
            raise Unsupported("generator loop inside a generator loop")
        out.append(x)


def _as_subs(alts):
    """iterations which yield nothing, one element or one chunk, as a chunk each"""
    for g, out in alts:
        if not out:
            continue
        if len(out) > 1:
            raise Unsupported("a generator loop among other elements inside a generator loop")
        x = out[0]
        if not isinstance(x, GenChunk):
            x = GenChunk(SymComp(SymSeq(z3.IntVal(1), lambda j, x=x: x), C.cur().const("k", z3.IntSort()), [(z3.BoolVal(True), [x])], "list", True))
        if isinstance(x.comp.seq, PairSeq):
            raise Unsupported("generator loops nested three times")
        yield g, x.comp


def _collected(loop, hi, lst, kind):
    """what the iterations of a loop add to a list or set: at each index zero or more elements, or one chunk"""
    alts = {}
    for g, _op, args in lst:
        alts.setdefault(g.get_id(), (g, []))[1].append(args[0])
    alts = list(alts.values())
    seq = loop.seq.upto(hi)
    if any(isinstance(x, GenChunk) for _, out in alts for x in out):
        return _pair_comp(seq, loop.k, list(_as_subs(alts)), kind)
    return SymComp(seq, loop.k, alts, kind, len(loop.normal) == 1)


def run_genloop(it, body, lid=None, env=None):
    """Loop of a generator over a symbolic sequence: yields the elements of all its iterations as one
    chunk, followed, if an iteration leaves the loop, by what that iteration yields."""
    p = C.cur()
    inv = find_invariant(lid)
    if inv is None:
        it, body = _filtered_gen(it, body)
    seq = consume(it, lazy=inv is None)
    if seq is None:
        raise Unsupported("loop over %r" % (type(it),))
    if inv is not None:
        inv.enter(env)
    k, dom, outs = _abstract_iteration(seq, lambda *a: _drain(body(*a), inv is None), "gen", inv)
    alts, leaves = [], []
    for o in outs:
        if o.kind == "raise":
            leaves.append(o.guard)
            continue
        (sig, out), effs = o.value
        if effs:
            raise Unsupported("effects inside a generator loop")
        if sig[0] == "next":
            alts.append((o.guard, out))
        else:
            leaves.append(o.guard)
    if any(isinstance(x, GenChunk) for _, out in alts for x in out):
        if leaves:
            raise Unsupported("leaving a generator loop which holds another")
        yield GenChunk(_pair_comp(seq, k, list(_as_subs(alts)), "list"))
        return LoopResult("next", None, {})
    loop = LoopSummary(seq, k, alts, [])
    if not leaves or p.choose(["done", "left"], "genloop") == "done":
        if leaves:
            loop.forall_normal(p, None)
            if p.ex.solver.check(p.pc) == "unsat":
                raise Infeasible()
        st = inv.arbitrary(seq.n) if inv is not None else {}
        yield GenChunk(SymComp(seq, k, alts, "list", True))
        return LoopResult("next", None, st)
    p.assume(z3.And(dom, z3.Or(*leaves)))
    loop.forall_normal(p, k)
    st = inv.arbitrary(k) if inv is not None else None
    yield GenChunk(SymComp(SymSeq(k, seq.at, off=seq.off, under=seq), k, alts, "list", True))
    sig = yield from (body(seq.at(k), st) if inv is not None else body(seq.at(k)))
    if sig[0] == "next":
        raise Infeasible()
    return LoopResult(sig[0], sig[1], {n: v for n, v in sig[2].items() if not n.startswith("_pyvc_")})


class GenChunk:
    """A symbolic run of yielded elements inside a generator's output."""

    def __init__(self, comp):
        self.comp = comp


# ---- other builtins -----------------------------------------------------------------
def passed(f):
    """a function passed as a value, to be applied to symbolic elements"""
    if isinstance(f, type) and f in (str, list, tuple, bool, set, dict, type):
        return MODULE_INJECT["_pyvc_" + f.__name__]
    if isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType)) or (isinstance(f, type) and f.__module__ == "builtins" and not issubclass(f, BaseException)):
        raise Unsupported("%r of symbolic elements" % (f,))
    return f


def sym_filter(f, x):
    if not symiter(x):
        return builtins.filter(f, x)
    f = passed(f)
    return run_comp(x, lambda e: [e] if (e if f is None else f(e)) else [], "gen", False)


def sym_map(f, *xs):
    if len(xs) != 1 or not symiter(xs[0]):
        if any(symiter(x) for x in xs):
            raise Unsupported("map over several symbolic sequences")
        return builtins.map((lambda *e: passed(f)(*e) if builtins.any(isinstance(x, Sym) for x in e) else f(*e)), *xs)
    f = passed(f)
    return run_comp(xs[0], lambda e: [f(e)], "gen", False)


def sym_list(*a):
    if a:
        x = a[0]
        h = getattr(type(x), "__pyvc_tolist__", None)
        if h is not None:
            return h(x)
        if isinstance(x, SymSeq):
            r = mklist([])
            r._bulk(_as_comp(SymSeq(x.n, x.at, x.prov, x.off) if isinstance(x, SymTuple) else x))
            return r
        if isinstance(x, SymComp):
            if x.kind == "gen":
                consume_comp(x)
            return SymComp(x.seq, x.k, x.alts, "list", x.total)
        if isinstance(x, SymSeqIter) or symiter(x):
            r = mklist([])
            r._bulk(_as_comp(consume(x) if isinstance(x, SymSeqIter) else x.__pyvc_seq__()))
            return r
        x = _segments(x)
        if isinstance(x, EList) and x.segs is not None:
            return x
        a = (x,)
    return mklist(builtins.list(*a))


def _segments(x):
    """the items of a generator which may yield chunks"""
    if C.CUR is None or not isinstance(x, type((i for i in ()))):
        return x
    items = builtins.list(x)
    if not any(isinstance(i, GenChunk) for i in items):
        return items
    r = EList()
    r._born()
    for i in items:
        if isinstance(i, GenChunk):
            r._bulk(i.comp)
        else:
            r._add(i)
    return r


class SymTuple(SymSeq):
    __slots__ = ()

    def __pyvc_isinstance__(self, cls):
        return isinstance((), cls)


def sym_tuple(*a):
    r = _sym_tuple(*a)
    return SymTuple(r.n, r.at, r.prov, r.off) if type(r) is SymSeq else r


def _sym_tuple(*a):
    if a:
        a = (_segments(a[0]),) + a[1:]
        if isinstance(a[0], EList) and a[0].segs is not None:
            return a[0].__pyvc_seq__()
    if a and (isinstance(a[0], (SymSeq, SymComp, SymSeqIter)) or symiter(a[0])):
        x = a[0]
        if isinstance(x, SymSeq):
            return SymSeq(x.n, x.at, x.prov, x.off, x)
        if not isinstance(x, (SymSeq, SymComp, SymSeqIter)) and hasattr(type(x), "__pyvc_seq__"):
            return x.__pyvc_seq__()
        return sym_list(x)
    return builtins.tuple(*a)


def sym_enumerate(x, start=0):
    s = as_symseq(x) if symiter(x) else None
    if s is None:
        return builtins.enumerate(x, start)
    st = I(start)
    return SymSeq(s.n, lambda i: (mkint(st + i), s.at(i)), under=s)


def sym_reversed(x):
    s = as_symseq(x) if symiter(x) else None
    if s is None:
        return builtins.reversed(x)
    r = SymSeq(s.n, lambda i: s.at(z3.simplify(s.n - 1 - i)))
    r.link = ("rev", s)
    return r


def sym_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return mkbool(x.t != 0)
    return bool(x)


def sym_iter(x, *a):
    if not a:
        if isinstance(x, SymSeq):
            return SymSeqIter(x)
        if isinstance(x, SymSeqIter):
            return x
        if isinstance(x, SymComp):
            return SymSeqIter(x.__pyvc_seq__())
    return builtins.iter(x, *a)


def _ident(x):
    return x


def sym_max(*a, **k):
    return _minmax(builtins.max, True, a, k)


def sym_min(*a, **k):
    return _minmax(builtins.min, False, a, k)


def _minmax(fn, is_max, a, k):
    if len(a) >= 2 and not k and all(isinstance(x, (int, SymInt)) for x in a) and any(
        isinstance(x, SymInt) for x in a
    ):
        t = I(a[0])
        for x in a[1:]:
            u = I(x)
            t = z3.If(u > t, u, t) if is_max else z3.If(u < t, u, t)
        return mkint(t)
    if len(a) == 1 and symiter(a[0]):
        s = consume(a[0])
        p = C.cur()
        if not p.decide(s.n > 0):
            if "default" in k:
                return k["default"]
            raise ValueError("max()/min() of an empty sequence")
        # contract of the builtin: the result is an element m = s[w] and no element beats it
        key = k.get("key") or _ident
        w = p.const("argm", z3.IntSort())
        p.axiom(z3.Implies(s.n > 0, z3.And(w >= 0, w < s.n)))
        m = s.at(w)
        index_term(p, w)

        def inst(i):
            e = s.at(i)
            c = C.call_merged(lambda: key(e) > key(m)) if is_max else C.call_merged(
                lambda: key(e) < key(m)
            )
            return z3.Implies(z3.And(i >= 0, i < s.n), z3.Not(C.B(c)))

        add_forall(p, inst)
        return m
    return fn(*a, **k)


def sym_any(x):
    if symiter(x) and isinstance(x, SymComp):
        if x.kind == "gen":
            consume_comp(x)
        p = C.cur()
        if p.choose([True, False], "any"):
            i = p.const("w", z3.IntSort())
            index_term(p, i)
            p.add(x.seq.domain(i))
            p.assume(z3.Or(*[z3.And(g, C.B(e)) for g, e in x.members_at(i)] or [z3.BoolVal(False)]))
            return True
        add_forall(
            p,
            lambda i: z3.Implies(
                x.seq.domain(i),
                z3.And(*[z3.Implies(g, z3.Not(C.B(e))) for g, e in x.members_at(i)]),
            ),
        )
        if p.ex.solver.check(p.pc) == "unsat":
            raise Infeasible()
        return False
    return builtins.any(x)


def sym_all(x):
    if symiter(x) and isinstance(x, SymComp):
        if x.kind == "gen":
            consume_comp(x)
        p = C.cur()
        if p.choose([False, True], "all"):
            add_forall(
                p,
                lambda i: z3.Implies(
                    x.seq.domain(i),
                    z3.And(*[z3.Implies(g, C.B(e)) for g, e in x.members_at(i)]),
                ),
            )
            if p.ex.solver.check(p.pc) == "unsat":
                raise Infeasible()
            return True
        i = p.const("w", z3.IntSort())
        index_term(p, i)
        p.add(x.seq.domain(i))
        p.assume(
            z3.Or(*[z3.And(g, z3.Not(C.B(e))) for g, e in x.members_at(i)] or [z3.BoolVal(False)])
        )
        return False
    return builtins.all(x)


class _TypeShim(type):
    """Stand-in for a builtin class name in a module namespace: calls are redirected, isinstance,
    issubclass and attribute access behave as for the builtin."""


def make_type_shim(real, fn):
    class Shim(type(real) if False else type):
        pass

    return fn


def sym_set(*a):
    if a and (isinstance(a[0], (SymSeq, SymComp, SymSeqIter)) or symiter(a[0])):
        h = getattr(type(a[0]), "__pyvc_toset__", None)
        if h is not None:
            return h(a[0])
        r = mkset(builtins.set())
        r.update(a[0])
        return r
    return mkset(builtins.set(*a))


def sym_dict(*a, **k):
    if a and isinstance(a[0], Sym):
        h = getattr(type(a[0]), "__pyvc_todict__", None)
        if h is not None and not k:
            return h(a[0])
        raise Unsupported("dict() of %s" % type(a[0]).__name__)
    return mkdict(builtins.dict(*a, **k))


def sym_str(*a, **k):
    if len(a) == 1 and not k:
        h = getattr(type(a[0]), "__pyvc_str__", None)
        if h is not None:
            return h(a[0])
        if TEXT[0] is not None and C.CUR is not None:
            r = TEXT[0](a[0])
            if r is not None:
                return r
    if a and isinstance(a[0], Sym):
        # str(data, encoding, errors)
        return a[0].decode(*a[1:], **k)
    return builtins.str(*a, **k)


TEXT = [None]


def sym_type(*a):
    if len(a) == 1:
        t = builtins.type(a[0])
        if t in (EList, EDict, ESet):
            return t.__mro__[1]
        h = getattr(t, "__pyvc_type__", None)
        return h(a[0]) if h is not None else t
    return builtins.type(*a)


def sym_next(it, *d):
    if isinstance(it, SymComp):
        raise Unsupported("next() of a symbolic generator")
    return builtins.next(it, *d)


def sym_sorted(x, **k):
    if symiter(x):
        h = SORTED_HOOK[0]
        if h is not None:
            return h(x, **k)
        raise Unsupported("sorted() of a symbolic iterable")
    return mklist(builtins.sorted(x, **k))


SORTED_HOOK = [None]


# ---- lists, dictionaries and sets which notice changes inside an abstract iteration -----------
def _outside():
    return EFFECTS and C.CUR is not None


def _guarded(base, names):
    def make(name):
        real = getattr(base, name)

        def m(self, *a, **k):
            if EFFECTS and self not in EFFECTS[-1].local:
                raise Unsupported("%s.%s inside an abstract iteration" % (base.__name__, name))
            if not EFFECTS:
                framed(self)
            self._plain()
            return real(self, *a, **k)

        m.__name__ = name
        return m

    return {n: make(n) for n in names}


class _Tracked:
    segs = None  # set when the content is symbolic

    def _plain(self):
        if self.segs is not None:
            raise Unsupported("operation on a container filled by a summarised loop")

    def _born(self):
        if EFFECTS:
            EFFECTS[-1].local.add(self)
        elif FRAMES:
            FRAMES[-1].local.add(self)
        return self


class EList(_Tracked, list):
    for _n, _f in _guarded(list, ["insert", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__imul__"]).items():
        locals()[_n] = _f

    __hash__ = None

    def append(self, x):
        if not effect(self, "append", x):
            self._add(x)

    def _add(self, x):
        if self.segs is not None:
            self.segs.append(x)
        else:
            list.append(self, x)

    def pop(self, i=-1):
        if EFFECTS and self not in EFFECTS[-1].local:
            raise Unsupported("list.pop inside an abstract iteration")
        if not EFFECTS:
            framed(self)
        if self.segs is None:
            return list.pop(self, i)
        s = concat(self.segs)
        if i not in (-1, 0):
            raise Unsupported("list.pop of a symbolic list at %r" % (i,))
        if not C.cur().decide(s.n > 0):
            raise IndexError("pop from empty list")
        if i == 0:
            x, rest = s.at(z3.IntVal(0)), SymSeq(z3.simplify(s.n - 1), lambda j: s.at(z3.simplify(j + 1)))
        else:
            x, rest = s.at(z3.simplify(s.n - 1)), s.upto(z3.simplify(s.n - 1))
        self._set(rest)
        return x

    def _set(self, seq):
        """the content is that of a sequence"""
        self.segs = None
        list.clear(self)
        self._bulk(_as_comp(seq))

    def extend(self, xs):
        if symiter(xs):
            comp = xs if isinstance(xs, SymComp) else _as_comp(consume(xs))
            if not effect(self, "chunk", GenChunk(comp)):
                self._bulk(comp)
            return
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        self._plain()
        if symiter(o):
            r = mklist(list(self))
            r.extend(o)
            return r
        return mklist(list.__add__(self, list(o)))

    def forget(self):
        """content unknown: used where an invariant says nothing of it"""
        if ANYTHING[0] is None:
            raise Unsupported("list of unknown content")
        self._set(ANYTHING[0]())

    def _bulk(self, comp):
        if self.segs is None:
            self.segs = list(self)
            list.clear(self)
            list.append(self, POISON)
        self.segs.append(GenChunk(comp))

    def __pyvc_effect__(self, op, args):
        if op == "chunk":
            self._bulk(args[0].comp)
        else:
            self._add(args[0])

    def __pyvc_forall_effects__(self, loop, hi, lst):
        comp = _collected(loop, hi, lst, "list")
        if not effect(self, "chunk", GenChunk(comp)):
            self._bulk(comp)

    def __pyvc_issym__(self):
        return self.segs is not None

    def __pyvc_seq__(self):
        return concat(self.segs)

    def __pyvc_comp__(self):
        if self.segs is not None and len(self.segs) == 1 and isinstance(self.segs[0], GenChunk):
            return self.segs[0].comp
        return None

    def __pyvc_len__(self):
        if self.segs is None:
            return list.__len__(self)
        comp = self.__pyvc_comp__()
        return sym_len(comp) if comp is not None else mkint(concat(self.segs).n)

    def __len__(self):
        self._plain()
        return list.__len__(self)

    def __bool__(self):
        if self.segs is None:
            return list.__len__(self) > 0
        comp = self.__pyvc_comp__()
        return bool(comp if comp is not None and not comp.plain() else concat(self.segs))

    def __iter__(self):
        if self.segs is not None:
            return SymSeqIter(concat(self.segs))
        return list.__iter__(self)

    def __getitem__(self, i):
        if self.segs is not None:
            r = concat(self.segs)[i]
            if isinstance(i, slice):
                out = mklist([])
                out.extend(r)
                return out
            return r
        if isinstance(i, Sym):
            raise Unsupported("list indexed by a symbolic value")
        r = list.__getitem__(self, i)
        return mklist(r) if isinstance(i, slice) else r

    def __contains__(self, x):
        self._plain()
        return list.__contains__(self, x)

    def __reduce__(self):
        return (list, (list(self),))


ANYTHING = [None]
TERM = [None]
SET_SEQ = [None]


class EDict(_Tracked, dict):
    for _n, _f in _guarded(dict, ["pop", "popitem", "clear", "update", "setdefault", "__ior__"]).items():
        locals()[_n] = _f

    __hash__ = None

    def __setitem__(self, k, v):
        if not effect(self, "set", k, v):
            self._put(k, v)

    def _put(self, k, v):
        if self.segs is not None or isinstance(k, Sym):
            if DICT_PUT[0] is None:
                raise Unsupported("plain dictionary with a symbolic key")
            DICT_PUT[0](self, k, v)
        else:
            dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        if EFFECTS and self not in EFFECTS[-1].local:
            raise Unsupported("dict.__delitem__ inside an abstract iteration")
        if not EFFECTS:
            framed(self)
        if self.segs is None and not isinstance(k, Sym):
            return dict.__delitem__(self, k)
        if DICT_DEL[0] is None:
            raise Unsupported("plain dictionary with a symbolic key")
        DICT_DEL[0](self, k)

    def __pyvc_effect__(self, op, args):
        self._put(*args)

    def __pyvc_forall_effects__(self, loop, hi, lst):
        if DICT_BULK[0] is None:
            raise Unsupported("dictionary filled by a summarised loop")
        DICT_BULK[0](self, loop, hi, lst)

    def __pyvc_issym__(self):
        return self.segs is not None

    def __reduce__(self):
        return (dict, (dict(self),))


for _n in ["__getitem__", "get", "__contains__", "__len__", "__iter__", "keys", "items", "values", "__eq__", "copy", "__repr__"]:

    def _mk(name):
        real = getattr(dict, name)

        def m(self, *a, **k):
            if self.segs is not None:
                return getattr(self.segs, name)(*a, **k)
            if name == "copy":
                return mkdict(real(self))
            return real(self, *a, **k)

        return m

    setattr(EDict, _n, _mk(_n))
EDict.__pyvc_len__ = lambda self: self.segs.__pyvc_len__() if self.segs is not None else dict.__len__(self)
EDict.__bool__ = lambda self: bool(self.segs) if self.segs is not None else dict.__len__(self) > 0
EDict.__pyvc_seq__ = lambda self: self.segs.__pyvc_seq__()
DICT_BULK = [None]
DICT_PUT = [None]
DICT_DEL = [None]


class ESet(_Tracked, set):
    for _n, _f in _guarded(set, ["remove", "discard", "pop", "clear", "__ior__", "__iand__", "__isub__", "__ixor__", "difference_update", "intersection_update", "symmetric_difference_update"]).items():
        locals()[_n] = _f

    __hash__ = None

    def add(self, x):
        if not effect(self, "add", x):
            self._add(x)

    def _add(self, x):
        if self.segs is not None:
            self.segs.append(x)
        elif isinstance(x, Sym) or isinstance(x, tuple) and any(isinstance(y, Sym) for y in x):
            self._segs().append(x)
        else:
            set.add(self, x)

    def _segs(self):
        if self.segs is None:
            self.segs = list(set.__iter__(self))
            set.clear(self)
            set.add(self, POISON_KEY)
        return self.segs

    def _bulk(self, comp):
        self._segs().append(GenChunk(comp))

    def update(self, *xss):
        for xs in xss:
            if symiter(xs):
                comp = as_comp(xs)
                if not effect(self, "chunk", GenChunk(comp)):
                    self._bulk(comp)
            else:
                for x in xs:
                    self.add(x)

    def __pyvc_effect__(self, op, args):
        if op == "chunk":
            self._bulk(args[0].comp)
        else:
            self._add(args[0])

    def __pyvc_forall_effects__(self, loop, hi, lst):
        comp = _collected(loop, hi, lst, "set")
        if not effect(self, "chunk", GenChunk(comp)):
            self._bulk(comp)

    def __pyvc_issym__(self):
        return self.segs is not None

    def __pyvc_isinstance__(self, cls):
        return isinstance(set(), cls)

    def chunks(self):
        """the elements, possibly several times"""
        return [x.comp if isinstance(x, GenChunk) else x for x in (self.segs if self.segs is not None else set.__iter__(self))]

    def __contains__(self, x):
        if self.segs is None and not isinstance(x, Sym):
            return set.__contains__(self, x)
        for c in self.chunks():
            if isinstance(c, SymComp):
                if comp_contains(c, x):
                    return True
            elif C.cur().decide(_same_value(c, x)):
                return True
        return False

    def __pyvc_seq__(self):
        if SET_SEQ[0] is None:
            raise Unsupported("enumeration of a set")
        return SET_SEQ[0](self)

    def _but(self, o, keep):
        """elements which are (keep) or are not in another collection"""
        r = mkset(builtins.set())
        r._segs()
        for c in self.chunks():
            if isinstance(c, SymComp):
                alts = []
                for g, es in c.alts:
                    for e in es:
                        inside = member_term(o, e)
                        alts.append((z3.simplify(z3.And(g, inside if keep else z3.Not(inside))), [e]))
                r._bulk(SymComp(c.seq, c.k, alts, "set"))
            elif C.cur().decide(member_term(o, c)) == keep:
                r.segs.append(c)
        return r

    def _two(name, keep):  # noqa: N805
        real = getattr(set, name)

        def m(self, *os):
            if self.segs is None and not any(symiter(o) for o in os):
                return mkset(real(self, *os))
            if len(os) != 1:
                raise Unsupported("set.%s of several" % name)
            return self._but(os[0], keep)

        return m

    __sub__, difference = _two("__sub__", False), _two("difference", False)
    __and__, intersection = _two("__and__", True), _two("intersection", True)

    def __or__(self, o):
        if self.segs is None and not symiter(o):
            return mkset(set.__or__(self, o))
        r = mkset(builtins.set())
        r.update(self)
        r.update(o)
        return r

    union = __or__

    def __le__(self, o):
        if self.segs is None and not symiter(o):
            return set.__le__(self, o)
        return not builtins.bool(self._but(o, False))

    issubset = __le__

    def __bool__(self):
        if self.segs is None:
            return set.__len__(self) > 0
        for c in self.chunks():
            if not isinstance(c, SymComp) or comp_some(c):
                return True
        return False

    def __iter__(self):
        if self.segs is not None:
            raise Unsupported("loop over a symbolic set")
        return set.__iter__(self)

    def __len__(self):
        self._plain()
        return set.__len__(self)

    def __eq__(self, o):
        self._plain()
        return set.__eq__(self, o)

    def __repr__(self):
        return "<set>" if self.segs is not None else set.__repr__(self)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        return (set, (set(self),))


POISON_KEY = ("<content of a symbolic set>",)


def _same_value(a, b):
    return z3.Or(SAME[0](a, b), C.B(a == b))


def as_comp(xs):
    h = getattr(xs, "__pyvc_comp__", None)
    c = h() if h is not None else xs if isinstance(xs, SymComp) else None
    if c is not None:
        if c.kind == "gen":
            consume_comp(c)
        return c
    return _as_comp(consume(xs))


def member_term(o, e):
    """is e in o, as a formula"""
    h = getattr(type(o), "__pyvc_member__", None)
    if h is not None:
        return h(o, e)
    if not symiter(o):
        return z3.Or(*[_same_value(x, e) for x in o] or [z3.BoolVal(False)])
    raise Unsupported("membership in %s" % type(o).__name__)


def comp_some(c):
    """does a comprehension have an element"""
    p = C.cur()

    def member(i):
        return z3.And(c.seq.domain(i), z3.Or(*[g for g, _ in c.members_at(i)] or [z3.BoolVal(False)]))

    if p.choose([True, False], "some"):
        i = p.const("w", z3.IntSort())
        index_term(p, i)
        p.assume(member(i))
        return True
    add_forall(p, shifted(c.seq, lambda i: z3.Not(member(i))))
    if p.ex.solver.check(p.pc) == "unsat":
        raise Infeasible()
    return False


def comp_contains(c, x):
    p = C.cur()
    m = getattr(c.whole, "map", None)
    if m is not None and c.whole.what == "keys" and sym_isinstance(x, str):
        return p.decide(m.has(TERM[0](x)))

    def member(i):
        return z3.And(c.seq.domain(i), z3.Or(*[z3.And(g, _same_value(e, x)) for g, e in c.members_at(i)] or [z3.BoolVal(False)]))

    if p.choose([True, False], "in"):
        i = p.const("w", z3.IntSort())
        index_term(p, i)
        p.assume(member(i))
        return True
    add_forall(p, shifted(c.seq, lambda i: z3.Not(member(i))))
    if p.ex.solver.check(p.pc) == "unsat":
        raise Infeasible()
    return False


def iterable(x):
    """the items of an object of the repository whose __iter__ is a generator function, or of a generator"""
    if C.CUR is None or isinstance(x, (Sym, list, dict, tuple, set, str)):
        return x
    t = builtins.type(x)
    if isinstance(x, types.GeneratorType):
        return _segments(x)
    f = t.__dict__.get("__iter__")
    if isinstance(f, types.FunctionType) and t.__module__.startswith("vistautils") and inspect.isgeneratorfunction(f):
        return _segments(iter(x))
    return x


def mklist(x):
    return EList(x)._born() if C.CUR is not None and type(x) is list else x


def mkdict(x):
    return EDict(x)._born() if C.CUR is not None and type(x) is dict else x


def mkset(x):
    return ESet(x)._born() if C.CUR is not None and type(x) is set else x


def mut(o):
    """an attribute of o is about to be assigned"""
    if not (EFFECTS or FRAMES) or C.CUR is None or isinstance(o, type(sys)):
        return
    log = EFFECTS[-1] if EFFECTS else FRAMES[-1]
    if o in log.local:
        return
    f = sys._getframe(1)
    if f.f_code.co_name == "__init__" and f.f_code.co_varnames and f.f_locals.get(f.f_code.co_varnames[0]) is o:
        log.local.add(o)
        return
    raise Unsupported("attribute of an object made outside is assigned inside an abstract iteration")


def _as_comp(seq):
    k = C.cur().const("k", z3.IntSort())
    index_term(C.cur(), k)
    r = SymComp(seq, k, [(z3.BoolVal(True), [seq.at(k)])], "list")
    r.whole = seq
    return r


def concat(segs):
    """the concatenation of elements and chunks, as one sequence"""
    parts = []
    for s in segs:
        if isinstance(s, GenChunk):
            if not any(es for _, es in s.comp.alts):
                continue
            q = s.comp.__pyvc_seq__()
            if len(segs) == 1:
                return q
            parts.append((q.n, q.at, q))
        else:
            parts.append((z3.IntVal(1), lambda i, s=s: s, None))
    if not parts:
        return SymSeq(z3.IntVal(0), lambda i: None)
    if len(parts) == 1:
        return parts[0][2] if parts[0][2] is not None else SymSeq(parts[0][0], parts[0][1])
    starts, t = [], z3.IntVal(0)
    for n, _, _ in parts:
        starts.append(t)
        t = z3.simplify(t + z3.If(n < 0, z3.IntVal(0), n))

    def at(i):
        p = C.cur()
        for j in range(len(parts) - 1):
            if p.decide(i < starts[j + 1]):
                return parts[j][1](z3.simplify(i - starts[j]))
        return parts[-1][1](z3.simplify(i - starts[-1]))

    r = SymSeq(t, at)
    r.link = ("concat", [(a, q) for a, (_, _, q) in zip(starts, parts) if q is not None])
    return r


class Spread:
    """a symbolic sequence of positional arguments"""

    def __init__(self, seq):
        self.seq = seq


def varargs(a):
    if len(a) == 1 and isinstance(a[0], Spread):
        return SymTuple(a[0].seq.n, a[0].seq.at)
    return a


def sym_issubclass(a, b):
    h = getattr(type(a), "__pyvc_issubclass__", None)
    return h(a, b) if h is not None else builtins.issubclass(a, b)


def seq_contains(s, x):
    """x in s: an element which is, or is equal to, x"""
    p = C.cur()
    if SAME[0] is None:
        raise Unsupported("membership in a symbolic sequence")

    def eq(e):
        return z3.Or(SAME[0](e, x), C.B(e == x))

    if p.choose([True, False], "in"):
        i = p.const("w", z3.IntSort())
        index_term(p, i)
        p.add(s.domain(i))
        p.assume(eq(s.at(i)))
        return True
    add_forall(p, shifted(s, lambda i: z3.Implies(s.domain(i), z3.Not(eq(s.at(i))))))
    if p.ex.solver.check(p.pc) == "unsat":
        raise Infeasible()
    return False


SAME = [None]

def captured(name):
    raise Unsupported("the variable %r of a loop, read by a function defined outside the loop" % name)


MODULE_INJECT = {
    "_pyvc_captured": captured,
    "_pyvc_varargs": varargs,
    "issubclass": sym_issubclass,
    "_pyvc_list": sym_list,
    "_pyvc_tuple": sym_tuple,
    "_pyvc_bool": sym_bool,
    "_pyvc_set": sym_set,
    "_pyvc_inner": inner,
    "_pyvc_dict": sym_dict,
    "_pyvc_str": sym_str,
    "_pyvc_type": sym_type,
    "_pyvc_mklist": mklist,
    "_pyvc_mkdict": mkdict,
    "_pyvc_mkset": mkset,
    "_pyvc_mut": mut,
    "_pyvc_while": run_while,
    "_pyvc_genwhile": run_genwhile,
    "_pyvc_iterable": iterable,
    "_pyvc_hasinv": has_invariant,
    "next": sym_next,
    "sorted": sym_sorted,
    "_pyvc_is": sym_is,
    "_pyvc_isnot": sym_isnot,
    "_pyvc_symiter": symiter,
    "_pyvc_loop": run_loop,
    "_pyvc_comp": run_comp,
    "_pyvc_genloop": run_genloop,
    "_pyvc_poison": POISON,
    "isinstance": sym_isinstance,
    "len": sym_len,
    "hash": sym_hash,
    "range": sym_range,
    "enumerate": sym_enumerate,
    "reversed": sym_reversed,
    "iter": sym_iter,
    "max": sym_max,
    "min": sym_min,
    "filter": sym_filter,
    "map": sym_map,
    "any": sym_any,
    "all": sym_all,
}


def _truth_by_length(module):
    """a class which has a length and no truth value of its own is true iff it is not empty (the language's
    own rule, stated where the length is symbolic)"""

    def truth(self):
        n = type(self).__len__(self)
        return C.cur().decide(n.t != 0) if isinstance(n, SymInt) else n != 0

    for c in list(vars(module).values()):
        if isinstance(c, type) and c.__module__ == module.__name__ and "__len__" in vars(c) and not any("__bool__" in vars(b) for b in c.__mro__):
            if isinstance(vars(c)["__len__"], types.FunctionType):
                c.__bool__ = truth


AFTER = [_truth_by_length]
PATCHES = []


def after_load(module):
    for f in AFTER:
        f(module)


def patch_libraries():
    import attr.validators as av

    av.isinstance = sym_isinstance
    for f in PATCHES:
        f()
    import immutablecollections._immutableset as ims  # noqa: F401
