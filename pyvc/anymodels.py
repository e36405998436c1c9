"""Opaque objects, and the contracts of library functions on iterators used by the repository."""
import builtins
import pathlib
import collections
import itertools

from . import core as C
from . import symbuiltins as SB
from .core import Sym, SymBool, SymInt, Unsupported, mkbool, mkint, z3
from .symbuiltins import SymComp, SymSeq, SymSeqIter, SymTuple  # noqa: F401

INT, BOOL = z3.IntSort(), z3.BoolSort()
ANY = z3.DeclareSort("Any")
NUMBER = z3.Function("py_number", ANY, INT)
TRUTHY = z3.Function("py_truthy", ANY, BOOL)
EQ = z3.Function("py_eq", ANY, ANY, BOOL)
INST = z3.Function("py_isinstance", ANY, ANY, BOOL)
SUBC = z3.Function("py_issubclass", ANY, ANY, BOOL)
INTVAL = z3.Function("py_intval", ANY, INT)
IN = z3.Function("py_in", ANY, ANY, BOOL)

_CONST = {}
_KEEP = []


def const(o):
    """The term of a concrete object (identity)."""
    key = ("str", o) if type(o) is str else id(o)  # strings are values
    c = _CONST.get(key)
    if c is None:
        c = _CONST[key] = (z3.Const("py!%d" % len(_KEEP), ANY), len(_KEEP))
        _KEEP.append(o)
    p = C.cur()
    p.axiom(NUMBER(c[0]) == c[1])
    if type(o) is str:
        p.axiom(INST(c[0], const(str)))
        p.axiom(TRUTHY(c[0]) == bool(o))
    return c[0]


# classes no object can be an instance of two of (CPython: conflicting instance layouts)
LAYOUT = (int, str, float, bytes, list, tuple, dict, set, frozenset, bytearray, complex, type, pathlib.PurePath)


def _flat(t):
    return [x for y in t for x in _flat(y)] if isinstance(t, tuple) else [t]


def _disjoint(a, b):
    for x in LAYOUT:
        if issubclass(a, x):
            for y in LAYOUT:
                if y is not x and issubclass(b, y):
                    return True
    return False


def _class_facts(t, cls):
    """what is known of the classes of one object, given those already asked for"""
    p = C.cur()
    asked = p.store.setdefault("asked", Asked()).of(t)
    c = const(cls)
    none = const(None)
    p.axiom(z3.Implies(t == none, INST(t, c) if isinstance(None, cls) else z3.Not(INST(t, c))))
    if cls is type(None):
        p.axiom(z3.Implies(INST(t, c), t == none))
    for other in asked:
        if other is cls:
            return
        o = const(other)
        if _sub(cls, other):
            p.axiom(z3.Implies(INST(t, c), INST(t, o)))
        if _sub(other, cls):
            p.axiom(z3.Implies(INST(t, o), INST(t, c)))
        if _disjoint(cls, other):
            p.axiom(z3.Not(z3.And(INST(t, c), INST(t, o))))
    asked.append(cls)


def _sub(a, b):
    try:
        return issubclass(a, b)
    except TypeError:
        return False


class Asked:
    def __init__(self, d=None):
        self.d = d or {}

    def fork(self):
        return Asked({k: (t, list(v)) for k, (t, v) in self.d.items()})

    def of(self, t):
        return self.d.setdefault(t.get_id(), (t, []))[1]


def any_term(o):
    if isinstance(o, SymAny):
        return o.t
    if isinstance(o, Sym):
        parts = getattr(o, "parts", None)
        if parts is not None and len(parts) == 1 and parts[0][0] == "str":
            from .textmodels import as_str

            return as_str(parts[0]).t
        raise Unsupported("identity of %s and an opaque object" % type(o).__name__)
    return const(o)


def path_term(o):
    """any_term of a file's path; its text, str(path), names the same file"""
    parts = getattr(o, "parts", None) if isinstance(o, Sym) and not isinstance(o, SymAny) else None
    if parts is not None and len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == "str" and isinstance(parts[0][1], SymAny):
        return parts[0][1].t
    return any_term(o)


def isinst(x, cls):
    """isinstance as a term: x, cls opaque or concrete; cls may be a (nested) tuple"""
    if isinstance(cls, tuple):
        return z3.Or(*[isinst(x, c) for c in cls]) if cls else z3.BoolVal(False)
    if isinstance(cls, SymAny):
        return INST(any_term(x), cls.t)
    if cls is object:
        return z3.BoolVal(True)
    t = any_term(x)
    cls = getattr(cls, "__origin__", None) or cls  # typing.List and friends
    if not isinstance(x, SymAny):
        return z3.BoolVal(isinstance(x, cls))
    _class_facts(t, cls)
    return INST(t, const(cls))


class SymAny(Sym):
    """An arbitrary object: nothing is known of it but what the path condition says."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __pyvc_is__(self, o):
        if isinstance(o, SymAny):
            return mkbool(self.t == o.t)
        if isinstance(o, Sym):
            raise Unsupported("identity of %s and an opaque object" % type(o).__name__)
        if type(o) is object:
            return False  # assumed: an input is never a bare object() the code keeps to itself (a sentinel)
        return mkbool(self.t == const(o))

    def __pyvc_isinstance__(self, cls):
        return mkbool(isinst(self, cls))

    def __bool__(self):
        p = C.cur()
        p.axiom(z3.Implies(self.t == const(None), z3.Not(TRUTHY(self.t))))
        return p.decide(TRUTHY(self.t))

    def _eq(self, o):
        t = any_term(o)
        if type(o) is str or type(o).__name__ == "SymStr":
            C.cur().axiom(z3.Implies(INST(self.t, const(str)), EQ(self.t, t) == (self.t == t)))
        return EQ(self.t, t)

    def __eq__(self, o):
        return mkbool(self._eq(o))

    def __ne__(self, o):
        return mkbool(z3.Not(self._eq(o)))

    def __contains__(self, x):
        return C.cur().decide(IN(any_term(x), self.t))

    def __hash__(self):
        raise Unsupported("hash of an opaque object")

    def __pyvc_subst__(self, k, i):
        return SymAny(z3.substitute(self.t, (k, i)))

    def __pyvc_issubclass__(self, cls):
        if isinstance(cls, tuple):
            return mkbool(z3.Or(*[z3.BoolVal(False)] + [SUBC(self.t, any_term(c)) for c in _flat(cls)]))
        return mkbool(SUBC(self.t, any_term(cls)))

    def __pyvc_type__(self):
        return SymAny(z3.Function("py_type", ANY, ANY)(self.t))

    def __repr__(self):
        return "<any>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<any>"

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        raise Unsupported("attribute %r of an opaque object" % name)

    def _no(self, *a, **k):
        raise Unsupported("operation on an opaque object")

    def _cmp(op):  # noqa: N805
        def m(self, o):
            p = C.cur()
            if not isinstance(o, (int, SymInt)):
                raise Unsupported("comparison with an opaque object")
            _class_facts(self.t, int)
            if not p.decide(INST(self.t, const(int))):
                raise Unsupported("comparison of an opaque object")
            return mkbool(op(INTVAL(self.t), C.I(o)))

        return m

    __lt__, __le__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b)
    __gt__, __ge__ = _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)

    __iter__ = __len__ = __call__ = __getitem__ = __add__ = __mod__ = _no
    __enter__ = __exit__ = __fspath__ = _no


class SymOf(SymAny):
    """an opaque object known to be an instance of a class, wherever it is put"""

    __slots__ = ("cls",)

    def __init__(self, t, cls):
        SymAny.__init__(self, t)
        self.cls = cls
        if C.CUR is not None:
            _class_facts(t, cls)
            C.cur().axiom(INST(t, const(cls)))
            C.cur().axiom(t != const(None))
            if not hasattr(cls, "__bool__") and not hasattr(cls, "__len__"):
                C.cur().axiom(TRUTHY(t))

    def _eq(self, o):
        return z3.BoolVal(False) if type(o) is object else SymAny._eq(self, o)

    def __pyvc_subst__(self, k, i):
        return SymOf(z3.substitute(self.t, (k, i)), self.cls)


def same_object(a, b):
    """are the two the same object (term or bool)"""
    if isinstance(a, SymAny) or isinstance(b, SymAny):
        return any_term(a) == any_term(b)
    if isinstance(a, (SymInt,)) and isinstance(b, (int, SymInt)) or isinstance(b, SymInt) and isinstance(a, int):
        return C.I(a) == C.I(b)
    h = getattr(type(a), "__pyvc_same__", None)
    if h is not None:
        return h(a, b)
    if type(a) is tuple and type(b) is tuple and len(a) == len(b) and a is not b:
        # (tuples have no identity worth speaking of: the same items)
        return z3.And(*[same_object(x, y) for x, y in zip(a, b)])
    return z3.BoolVal(a is b)


SB.SAME[0] = same_object


def ite(g, a, b):
    """value-level conditional; forks where the values cannot be merged"""
    g = z3.simplify(g)
    if z3.is_true(g):
        return a
    if z3.is_false(g):
        return b
    if isinstance(a, SymAny) and isinstance(b, SymAny):
        return SymAny(z3.If(g, a.t, b.t))
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        return mkint(z3.If(g, a.t, b.t))
    return a if C.cur().decide(g) else b


# ------------------------------------------------------------------------------- itertools, deque
class SymIslice(Sym):
    """itertools.islice(it, start, stop) of an iterator, not yet consumed"""

    def __init__(self, it, start, stop):
        self.it, self.start, self.stop = it, start, stop
        self.used = False

    def __iter__(self):
        return self

    def take(self):
        """consume: what is left of the slice, and the iterator beneath moved on"""
        if self.used:
            raise Unsupported("islice consumed twice")
        self.used = True
        it = self.it
        it._alive()
        rest = it.rest()
        a = z3.If(self.start > rest.n, rest.n, self.start)
        b = rest.n if self.stop is None else z3.If(self.stop > rest.n, rest.n, z3.If(self.stop < a, a, self.stop))
        a, b = z3.simplify(a), z3.simplify(b)
        it.pos = z3.simplify(it.pos + b)
        at = rest.at
        return SymSeq(z3.simplify(b - a), lambda i: at(z3.simplify(a + i)))

    def __next__(self):
        # element by element: only for a slice from its beginning on
        p = C.cur()
        if self.used:
            raise Unsupported("islice consumed twice")
        while p.decide(self.start > 0):
            next(self.it)
            self.start = z3.simplify(self.start - 1)
            if self.stop is not None:
                self.stop = z3.simplify(self.stop - 1)
        if self.stop is not None:
            if not p.decide(self.stop > 0):
                raise StopIteration
            self.stop = z3.simplify(self.stop - 1)
        return next(self.it)

    def __pyvc_seq__(self):
        return self.take()


def sym_islice(it, *args):
    symbolic = SB.symiter(it) or isinstance(it, SymIslice) or any(isinstance(a, Sym) for a in args)
    if not symbolic:
        return itertools.islice(it, *args)
    it = SB.sym_iter(it)
    if not isinstance(it, SymSeqIter) or len(args) > 2:
        raise Unsupported("islice of %s" % type(it).__name__)
    start, stop = (0, args[0]) if len(args) == 1 else args
    p = C.cur()
    start = C.I(0 if start is None else start)
    stop = None if stop is None else C.I(stop)
    for x in (start, stop):
        if x is not None and not p.decide(x >= 0):
            raise ValueError("Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
    return SymIslice(it, start, stop)


class SymDeque(Sym):
    """collections.deque: n elements, at(0) the leftmost; never more than maxlen"""

    def __init__(self, n, at, maxlen=None):
        self.n, self.at, self.maxlen = n, at, maxlen
        if SB.EFFECTS:
            SB.EFFECTS[-1].local.add(self)

    def put(self, n, at):
        self.n, self.at = z3.simplify(n), at

    def _mutable(self):
        if SB.EFFECTS and self not in SB.EFFECTS[-1].local:
            raise Unsupported("deque changed inside an abstract iteration")

    def append(self, x):
        self._mutable()
        n, at = self.n, self.at
        if self.maxlen is not None and C.cur().decide(n == self.maxlen):
            if C.cur().decide(n == 0):
                return
            self.at = lambda i: ite(i == n - 1, x, at(z3.simplify(i + 1)))
        else:
            self.at = lambda i: ite(i == n, x, at(i))
            self.n = z3.simplify(n + 1)

    def popleft(self):
        self._mutable()
        if not C.cur().decide(self.n > 0):
            raise IndexError("pop from an empty deque")
        at = self.at
        x = at(z3.IntVal(0))
        self.at = lambda i: at(z3.simplify(i + 1))
        self.n = z3.simplify(self.n - 1)
        return x

    def pop(self):
        self._mutable()
        if not C.cur().decide(self.n > 0):
            raise IndexError("pop from an empty deque")
        self.n = z3.simplify(self.n - 1)
        return self.at(self.n)

    def __bool__(self):
        return C.cur().decide(self.n > 0)

    def __pyvc_len__(self):
        return mkint(self.n)

    def __pyvc_seq__(self):
        return SymSeq(self.n, self.at)

    def __iter__(self):
        raise Unsupported("C-level iteration over a symbolic deque")

    def __getattr__(self, name):
        raise Unsupported("deque.%s" % name)


def sym_deque(it=(), maxlen=None):
    if C.CUR is None:
        return collections.deque(it, maxlen)
    if SB.symiter(it) or isinstance(it, SymIslice):
        s = it.take() if isinstance(it, SymIslice) else SB.consume(it)
    elif isinstance(maxlen, Sym):
        xs = list(it)
        s = SymSeq(z3.IntVal(len(xs)), lambda i: xs[i.as_long()])
        if xs:
            raise Unsupported("deque of given elements with symbolic maxlen")
    else:
        return collections.deque(it, maxlen)
    m = None if maxlen is None else C.I(maxlen)
    n, at = s.n, s.at
    if m is not None:
        if not C.cur().decide(m >= 0):
            raise ValueError("maxlen must be non-negative")
        keep = z3.simplify(z3.If(n > m, m, n))
        off = z3.simplify(n - keep)
        return SymDeque(keep, lambda i: at(z3.simplify(off + i)), m)
    return SymDeque(n, at, m)


class _Chain:
    """itertools.chain: from_iterable of a symbolic sequence of sequences gives a nested comprehension"""

    def __call__(self, *its):
        if any(SB.symiter(x) for x in its):
            segs = []
            for x in its:
                if SB.symiter(x):
                    c = x if isinstance(x, SB.SymComp) else SB._as_comp(SB.consume(x))
                    if isinstance(x, SB.SymComp) and x.kind == "gen":
                        SB.consume_comp(x)
                    segs.append(SB.GenChunk(c))
                else:
                    segs.extend(x)
            return SymSeqIter(SB.concat(segs))
        return itertools.chain(*its)

    def from_iterable(self, it):
        if SB.symiter(it):
            return SB.run_comp(it, lambda e: [SB.run_comp(e, lambda x: [x], "list", False)] if SB.symiter(e) else [list(e)], "gen", True)
        return itertools.chain.from_iterable(it)


class _ModShim:
    def __init__(self, real, **over):
        self.__dict__.update(over)
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)


sym_chain = _Chain()
LIBRARY = {
    id(itertools.islice): sym_islice,
    id(collections.deque): sym_deque,
    id(itertools.chain): sym_chain,
    id(itertools): _ModShim(itertools, islice=sym_islice, chain=sym_chain),
    id(collections): _ModShim(collections, deque=sym_deque),
}


def _library_after_load(mod):
    """library functions known to the module are replaced by their contracts"""
    for k, v in list(mod.__dict__.items()):
        r = LIBRARY.get(id(v))
        if r is not None and not k.startswith("__"):
            mod.__dict__[k] = r


SB.AFTER.append(_library_after_load)


def _anything():
    p = C.cur()
    f = z3.Function(p.prefix + "unknown%d" % p.store.setdefault("unknown", 0), INT, ANY)
    p.store["unknown"] += 1
    n = p.const("unknown_n", INT)
    p.axiom(n >= 0)
    return SymSeq(n, lambda i: SymAny(f(i)))


SB.ANYTHING[0] = _anything


# ------------------------------------------------------------------------------- inputs
def any_seq(name, n=None):
    """a sequence of any length of arbitrary objects"""
    f = z3.Function(name + "_at", INT, ANY)
    n = z3.Int(name + "_n") if n is None else n
    C.cur().axiom(n >= 0)
    return SymSeq(n, lambda i: SymAny(f(i)))


class SymReiterable(Sym):
    """an iterable which is neither sized nor a sequence; each iteration starts afresh"""

    def __init__(self, seq):
        self.seq = seq

    def __iter__(self):
        return SymSeqIter(self.seq)

    def __pyvc_seq__(self):
        return self.seq

    def __pyvc_isinstance__(self, cls):
        return SB.like(_Sample(), cls)


class _Sample:
    def __iter__(self):
        return iter(())


def _quotient(t, f):
    return SymAny(z3.Function("float_quotient", z3.IntSort(), ANY, ANY)(t, const(f)))


C.QUOTIENT[0] = _quotient
SB.TERM[0] = any_term
