"""Strings as values, objects of a known class with symbolic fields, and mappings of any size."""
import builtins
import codecs
import inspect
import types

from . import anymodels as A
from . import core as C
from . import symbuiltins as SB
from . import textmodels as T
from .anymodels import ANY, BOOL, INST, INT, SymAny, any_term, const
from .core import Sym, Unsupported, mkbool, mkint, z3
from .symbuiltins import GenChunk, SymComp, SymSeq, SymSeqIter

SPLIT_N = z3.Function("str_split_n", ANY, ANY, INT)
SPLIT_AT = z3.Function("str_split_at", ANY, ANY, INT, ANY)
STR_IN = z3.Function("str_contains", ANY, ANY, BOOL)
LENGTH = z3.Function("str_length", ANY, INT)
DECODED = z3.Function("decoded", ANY, ANY, ANY)
STR_PRED = {}
STR_FN = {}
STR = const_str = None


def is_str(t):
    return INST(t, const(str))


class SymStr(SymAny):
    """A string, by value: two strings are equal iff their terms are."""

    __slots__ = ()

    def __init__(self, t):
        SymAny.__init__(self, t)
        if C.CUR is not None:
            C.cur().axiom(is_str(t))
            C.cur().axiom(t != const(None))

    def __pyvc_isinstance__(self, cls):
        if isinstance(cls, SymAny):
            return SymAny.__pyvc_isinstance__(self, cls)
        return isinstance("", cls)

    def __pyvc_type__(self):
        return str

    def __pyvc_str__(self):
        return self

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(self.t == any_term(o))
        if isinstance(o, SymAny):
            return mkbool(z3.And(is_str(o.t), self.t == o.t))
        if isinstance(o, Sym):
            raise Unsupported("comparison of a string with %s" % type(o).__name__)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(C.B(r)))

    def __bool__(self):
        return C.cur().decide(self.t != const(""))

    def __pyvc_len__(self):
        n = LENGTH(self.t)
        C.cur().axiom(n >= 0)
        C.cur().axiom((n == 0) == (self.t == const("")))
        return mkint(n)

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __contains__(self, x):
        return C.cur().decide(STR_IN(self.t, any_term(x)))

    def __add__(self, o):
        return T.SymText([T.text(self), o]) if isinstance(o, (str, T.SymText)) else T.SymText([T.text(self), T.text(o)]) if isinstance(o, SymStr) else NotImplemented

    def __radd__(self, o):
        return T.SymText([o, T.text(self)]) if isinstance(o, (str, T.SymText)) else NotImplemented

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, (str, SymStr)) or maxsplit != -1:
            raise Unsupported("split at white space")
        s = any_term(sep)
        n = SPLIT_N(self.t, s)
        p = C.cur()
        t = self.t
        p.axiom(n >= 1)
        p.axiom((n == 1) == z3.Not(STR_IN(t, s)))
        p.axiom(z3.Implies(n == 1, SPLIT_AT(t, s, z3.IntVal(0)) == t))

        def at(i):
            e = SPLIT_AT(t, s, i)
            C.cur().axiom(z3.Implies(z3.And(i >= 0, i < n), z3.Not(STR_IN(e, s))))
            return SymStr(e)

        return SymSeq(n, at)

    def _pred(name):  # noqa: N805
        def m(self, o):
            f = STR_PRED.setdefault(name, z3.Function("str_" + name, ANY, ANY, BOOL))
            return mkbool(f(self.t, any_term(o)))

        return m

    startswith, endswith = _pred("startswith"), _pred("endswith")

    def _fn(name):  # noqa: N805
        def m(self, *args):
            f = STR_FN.setdefault((name, len(args)), z3.Function("str_" + name, *([ANY] * (2 + len(args)))))
            return SymStr(f(self.t, *[any_term(x) for x in args]))

        return m

    strip, lower, upper, rstrip, lstrip = _fn("strip"), _fn("lower"), _fn("upper"), _fn("rstrip"), _fn("lstrip")

    def __pyvc_subst__(self, k, i):
        return SymStr(z3.substitute(self.t, (k, i)))

    def __repr__(self):
        return "<str>"

    __str__ = __repr__

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        raise Unsupported("str.%s of a symbolic string" % name)


def encoding_term(e):
    return const("encoding " + codecs.lookup(e).name) if isinstance(e, str) else any_term(e)


class SymData(SymAny):
    """A byte string, by value.  What it is as text in an encoding is empty iff it is (assumed of encodings)."""

    __slots__ = ()

    def __init__(self, t):
        SymAny.__init__(self, t)
        if C.CUR is not None:
            A._class_facts(t, bytes)
            C.cur().axiom(INST(t, const(bytes)))
            C.cur().axiom(t != const(None))

    def __pyvc_isinstance__(self, cls):
        if isinstance(cls, SymAny):
            return SymAny.__pyvc_isinstance__(self, cls)
        return isinstance(b"", cls)

    def __pyvc_type__(self):
        return bytes

    def __eq__(self, o):
        if isinstance(o, (bytes, SymData)):
            return mkbool(self.t == any_term(o))
        if isinstance(o, Sym):
            raise Unsupported("comparison of bytes with %s" % type(o).__name__)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(C.B(r)))

    def __bool__(self):
        return C.cur().decide(self.t != const(b""))

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __pyvc_len__(self):
        n = LENGTH(self.t)
        C.cur().axiom(n >= 0)
        C.cur().axiom((n == 0) == (self.t == const(b"")))
        return mkint(n)

    def decode(self, encoding="utf-8", errors="strict"):
        if errors != "strict":
            raise Unsupported("lenient decoding of symbolic bytes")
        d = DECODED(self.t, encoding_term(encoding))
        C.cur().axiom((d == const("")) == (self.t == const(b"")))
        return SymStr(d)

    def __pyvc_subst__(self, k, i):
        return SymData(z3.substitute(self.t, (k, i)))

    def __repr__(self):
        return "<bytes>"

    __str__ = __repr__

    def _no(self, *a, **k):
        raise Unsupported("operation on symbolic bytes")

    __add__ = __radd__ = __contains__ = __iter__ = __getitem__ = _no

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        if not hasattr(bytes, name):
            raise AttributeError("'bytes' object has no attribute %r" % name)
        raise Unsupported("bytes.%s of symbolic bytes" % name)


# ------------------------------------------------------------------------- objects of a class
class Models:
    """class -> {field: function of the object's term}"""

    def __init__(self, d=None):
        self.d = d or {}

    def fork(self):
        return self


def class_models():
    p = C.cur()
    return p.store.setdefault("class_models", Models()).d


def model_of(obj, name):
    """the class, among those with modelled fields, which the object is an instance of"""
    p = C.cur()
    for cls, fields in class_models().items():
        if name in fields or hasattr(cls, name):
            A._class_facts(obj.t, cls)
            if p.decide(INST(obj.t, const(cls))):
                return cls, fields
    return None, None


STR_METHODS = {"split", "startswith", "endswith", "strip", "lower", "upper", "rstrip", "lstrip", "join"}


def any_getattr(self, name):
    if name.startswith("__pyvc_"):
        raise AttributeError(name)
    if C.CUR is None:
        raise Unsupported("attribute %r of an opaque object" % name)
    if name == "__class__":
        return SymAny
    cls, fields = model_of(self, name)
    if cls is not None:
        if name in fields:
            return fields[name](self.t)
        a = inspect.getattr_static(cls, name)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return types.MethodType(a.__func__, cls)
        if isinstance(a, property):
            return a.fget(self)
        if isinstance(a, types.FunctionType) or callable(a):
            return types.MethodType(a, self)
    if name in STR_METHODS:
        p = C.cur()
        A._class_facts(self.t, str)
        if p.decide(is_str(self.t)):
            return getattr(SymStr(self.t), name)
    raise Unsupported("attribute %r of an opaque object" % name)


SymAny.__getattr__ = any_getattr
_real_contains = SymAny.__contains__


def any_contains(self, x):
    if C.CUR is not None:
        cls, fields = model_of(self, "__contains__")
        if cls is not None:
            return builtins.bool(inspect.getattr_static(cls, "__contains__")(self, x))
    return _real_contains(self, x)


SymAny.__contains__ = any_contains


# ------------------------------------------------------------------------- mappings
class SymMap(Sym):
    """A mapping of any size: has(key term) -> z3 Bool, get(key term) -> value (only asked of keys which
    are there).  Enumerated in an arbitrary order: key(i) for 0 <= i < n, idx(key) its position."""

    def __init__(self, has, get, name, facts=None, sample=None, at_key=None):
        self.has_, self.get_, self.name = has, get, name
        # facts about every key which is there
        self.more = facts
        self.facts = lambda k: ([is_str(k), k != const(None)] if self.at_key is A_key else []) + (facts(k) if facts else [])
        self.sample = {} if sample is None else sample
        self.at_key = at_key or A_key
        if callable(name):
            self.n, self.key, self.idx = name("n"), name("key"), name("idx")
        else:
            self.n = z3.Int(name + ".n")
            self.key = z3.Function(name + ".key", INT, ANY)
            self.idx = z3.Function(name + ".idx", ANY, INT)
        C.cur().axiom(self.n >= 0)
        C.cur().store["all_maps"] = C.cur().store.get("all_maps", ()) + (self,)

    # by key
    def has(self, k):
        p = C.cur()
        h = z3.simplify(self.has_(k))
        i = self.idx(k)
        p.axiom(z3.Implies(h, z3.And(i >= 0, i < self.n, self.key(i) == k, *self.facts(k))))
        if not SB.INSTANTIATING[0]:
            SB.index_term(p, i)
        return h

    def get_at(self, k):
        return self.get_(k)

    # by position
    def key_at(self, i):
        i = z3.simplify(i)
        k = self.key(i)
        p = C.cur()
        if z3.is_app(i) and i.decl().eq(self.idx) if not callable(self.name) else False:
            pass
        p.axiom(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.has_(k), self.idx(k) == i, *self.facts(k))))
        return k

    def seq(self, kind):
        def at(i):
            k = self.key_at(i)
            if kind == "keys":
                return self.at_key(k)
            if kind == "values":
                return self.get_at(k)
            return (self.at_key(k), self.get_at(k))

        s = MapSeq(self.n, at)
        s.map, s.what = self, kind
        return s

    def items(self):
        return self.seq("items")

    def keys(self):
        return self.seq("keys")

    def values(self):
        return self.seq("values")

    def __pyvc_seq__(self):
        return self.seq("keys")

    def __iter__(self):
        return SymSeqIter(self.seq("keys"))

    def __contains__(self, key):
        return C.cur().decide(self.has(any_term(key)))

    def __getitem__(self, key):
        k = any_term(key)
        if not C.cur().decide(self.has(k)):
            raise KeyError(key)
        return self.get_at(k)

    def get(self, key, default=None):
        k = any_term(key)
        return self.get_at(k) if C.cur().decide(self.has(k)) else default

    def __pyvc_len__(self):
        return mkint(self.n)

    def __bool__(self):
        return C.cur().decide(self.n > 0)

    def __pyvc_isinstance__(self, cls):
        return isinstance(self.sample, cls)

    def __pyvc_todict__(self):
        r = SB.mkdict({})
        r.segs = self
        return r

    def __eq__(self, o):
        raise Unsupported("equality of symbolic mappings")

    __hash__ = None

    def __repr__(self):
        return "<mapping>"

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        raise Unsupported("%r of a symbolic mapping" % name)

    def put(self, key, value):
        k0 = any_term(key)
        return derived(
            lambda k: z3.Or(k == k0, self.has(k)),
            lambda k: value if C.cur().decide(k == k0) else self.get_at(k),
            self.at_key,
            lambda k: [],
        )


def A_key(t):
    return SymStr(t)


class MapSeq(SymSeq):
    __slots__ = ("map", "what")

    def reindexed(self):
        r = MapSeq(self.n, lambda i: ("@index", i), off=self.off)
        r.map, r.what = self.map, self.what
        return r

    def spoken(self, i):
        if not SB.INSTANTIATING[0]:
            self.map.key_at(i)

    def upto(self, n):
        r = MapSeq(n, self.at)
        r.map, r.what = self.map, self.what
        return r


def derived(has, get, at_key=A_key, facts=None, sample=None):
    p = C.cur()
    p.store["maps"] = p.store.get("maps", 0) + 1
    return SymMap(has, get, "%smap%d" % (p.prefix, p.store["maps"]), facts, sample, at_key)


def term_map(name, t, get=None, facts=None, sample=None, at_key=None):
    """the mapping which belongs to an object's term"""
    H = z3.Function(name + ".has", ANY, ANY, BOOL)
    G = z3.Function(name + ".get", ANY, ANY, ANY)
    N = z3.Function(name + ".n", ANY, INT)
    K = z3.Function(name + ".key", ANY, INT, ANY)
    I = z3.Function(name + ".idx", ANY, ANY, INT)

    def fn(what):
        return {"n": N(t), "key": lambda i: K(t, i), "idx": lambda k: I(t, k)}[what]

    m = SymMap(lambda k: H(t, k), lambda k: SymAny(G(t, k)), fn, (lambda k: facts(t, k)) if facts else None, sample, at_key)
    m.get_term = lambda k: G(t, k)
    return m


def any_map(name, get=None, sample=None, at_key=None, facts=None):
    H = z3.Function(name + ".has", ANY, BOOL)
    G = z3.Function(name + ".get", ANY, ANY)
    return SymMap(lambda k: H(k), get or (lambda k: SymAny(G(k))), name, facts, sample, at_key)


def from_dict(d):
    items = list(d.items())

    def has(k):
        return z3.Or(*[k == any_term(x) for x, _ in items]) if items else z3.BoolVal(False)

    def get(k):
        for x, v in items[:-1]:
            if C.cur().decide(k == any_term(x)):
                return v
        return items[-1][1]

    return derived(has, get)


def pairs_map(prev, seq, k, hi, alts):
    """the mapping given by (key, value) pairs set in turn, for every index of a map's enumeration below hi:
    alts are (guard, key, value) at index k"""
    src = getattr(seq, "map", None)
    if src is None:
        raise Unsupported("mapping filled from something which is no mapping")
    for g, key, _ in alts:
        if not any_term(key).eq(src.key(k)):
            raise Unsupported("mapping filled under other keys than those of the mapping iterated over")
    for a in range(len(alts)):
        for b in range(a):
            pass  # alternatives of one iteration exclude each other: an iteration sets each key once at most

    def here(key):
        i = src.idx(key)
        return z3.And(src.has(key), i < hi, z3.Or(*[z3.substitute(g, (k, i)) for g, _, _ in alts]))

    def has(key):
        h = here(key)
        return h if prev is None else z3.Or(h, prev.has(key))

    def get(key):
        p = C.cur()
        i = src.idx(key)
        if prev is not None and not p.decide(here(key)):
            return prev.get_at(key)
        for g, _, v in alts[:-1]:
            if p.decide(z3.substitute(g, (k, i))):
                return SB.subst(v, k, i)
        p_, _, v = alts[-1]
        p.assume(z3.Implies(here(key), z3.substitute(p_, (k, i))))
        return SB.subst(v, k, i)

    if prev is None and hi is src.n and alts:
        p = C.cur()
        every = z3.Or(*[g for g, _, _ in alts])
        if not z3.is_true(z3.simplify(every)):
            SB.index_term(p, k)
            every = z3.BoolVal(p.ex.solver.check(p.pc, k >= 0, k < src.n, z3.Not(every)) == "unsat")
        if z3.is_true(z3.simplify(every)):  # every key is taken, so they come in the order of the source
            fn = {"n": src.n, "key": src.key, "idx": src.idx}
            return SymMap(has, get, lambda what: fn[what], None, None, src.at_key)
    return derived(has, get, src.at_key)


def dict_bulk(d, loop, hi, lst):
    seen = []
    for g, op, args in lst:
        if op != "set":
            raise Unsupported("effect %r on a dictionary" % op)
        if any(x.eq(g) for x in seen):
            raise Unsupported("an iteration which sets two keys")
        seen.append(g)
    prev = d.segs if d.segs is not None else from_dict(dict(dict.items(d))) if dict.__len__(d) else None
    dict.clear(d)
    d.segs = pairs_map(prev, loop.seq, loop.k, hi, [(g, a[0], a[1]) for g, _, a in lst])


SB.DICT_BULK[0] = dict_bulk


def dict_comp(seq, k, alts):
    out = []
    for g, es in alts:
        if len(es) > 1:
            raise Unsupported("several pairs at one index")
        for e in es:
            out.append((g, e[0], e[1]))
    if not out:
        return derived(lambda k: z3.BoolVal(False), lambda k: None)
    return pairs_map(None, seq, k, seq.n, out)


SB.DICT_COMP[0] = dict_comp


def map_of_pairs(xs):
    """immutabledict or dict of a list of pairs made by a summarised loop or comprehension"""
    comp = xs if isinstance(xs, SymComp) else xs.__pyvc_comp__() if isinstance(xs, SB.EList) and xs.segs is not None else None
    prev = None
    if comp is None and isinstance(xs, SB.EList) and xs.segs is not None:
        raise Unsupported("mapping of several runs of pairs")
    if comp is None:
        return None
    alts = []
    for g, es in comp.alts:
        if len(es) > 1:
            raise Unsupported("several pairs at one index")
        for e in es:
            alts.append((g, e[0], e[1]))
    if comp.kind == "gen":
        SB.consume_comp(comp)
    if not alts:
        return derived(lambda k: z3.BoolVal(False), lambda k: None)
    return pairs_map(prev, comp.seq, comp.k, comp.seq.n, alts)


def dict_put(d, key, value):
    """d[key] = value of a dictionary with symbolic content, or of a symbolic key"""
    prev = d.segs if d.segs is not None else from_dict(dict(dict.items(d)))
    dict.clear(d)
    d.segs = prev.put(key, value)


SB.DICT_PUT[0] = dict_put


def dict_del(d, key):
    prev = d.segs if d.segs is not None else from_dict(dict(dict.items(d)))
    k0 = any_term(key)
    if not C.cur().decide(prev.has(k0)):
        raise KeyError(key)
    dict.clear(d)
    d.segs = derived(lambda k: z3.And(k != k0, prev.has(k)), prev.get_at, prev.at_key, lambda k: [])


SB.DICT_DEL[0] = dict_del


def sym_immutabledict(real):
    from immutablecollections import ImmutableDict, immutabledict

    empty = real()

    def shim(iterable=None, **k):
        if C.CUR is None or iterable is None:
            return real(iterable, **k)
        if isinstance(iterable, SymMap):
            if isinstance(iterable.sample, ImmutableDict):
                return iterable
            if isinstance(iterable.sample, dict):
                return real({})  # raises what the library raises for built-in dictionaries
            m = iterable
        elif isinstance(iterable, SB.EDict) and iterable.segs is not None:
            return real({})
        elif isinstance(iterable, SymAny):
            if C.cur().decide(C.B(iterable.__pyvc_isinstance__(ImmutableDict))):
                return iterable
            raise Unsupported("immutabledict of an opaque object")
        else:
            m = map_of_pairs(iterable)
            if m is None:
                xs = list(iterable.items() if hasattr(iterable, "items") else iterable)
                if any(isinstance(x[0], Sym) for x in xs):
                    raise Unsupported("immutabledict with symbolic keys")
                return real(iterable, **k)
        return SymMap(m.has_, m.get_, m.name, m.more, empty, m.at_key)

    return shim


def patch():
    import immutablecollections as ic
    from immutablecollections import converter_utils as cu

    real = ic.immutabledict
    ic.immutabledict = sym_immutabledict(real)
    ic._immutabledict.immutabledict = ic.immutabledict
    rt = cu._to_tuple

    def to_tuple(val):
        if SB.symiter(val):
            return SB.sym_tuple(val)
        return rt(val)

    cu._to_tuple = to_tuple


SB.PATCHES.append(patch)
