"""Sets and multi-dictionaries of strings: the documented contracts of immutablecollections, for any size."""
from . import core as C
from . import mapmodels as MM
from . import symbuiltins as SB
from .anymodels import ANY, BOOL, INT, any_term
from .core import Sym, Unsupported, mkbool, z3
from .mapmodels import SymMap, SymStr
from .symbuiltins import SymComp, SymSeq, index_term


def _count(what):
    p = C.cur()
    p.store[what] = p.store.get(what, 0) + 1
    return "%s%s%d" % (p.prefix, what, p.store[what])


class StrSet(SymMap):
    """an ImmutableSet of strings"""

    def __getitem__(self, i):
        raise Unsupported("element of a set by position")

    def _no(self, *a, **k):
        raise AttributeError("a set has no such attribute")

    items = values = get = put = _no

    def __pyvc_toset__(self):
        r = SB.mkset(set())
        r.update(self)
        return r

    def __pyvc_member__(self, e):
        if isinstance(e, (str, SymStr)):
            return self.has(any_term(e))
        raise Unsupported("membership of %s in a set of strings" % type(e).__name__)

    def __pyvc_todict__(self):
        raise TypeError("a set is no mapping")

    def _in(self, o):
        if isinstance(o, StrSet):
            return o.has
        if isinstance(o, (set, frozenset)):
            return membership(o) if isinstance(o, SB.ESet) else lambda k: z3.Or(*[k == any_term(x) for x in o] or [z3.BoolVal(False)])
        raise Unsupported("set operation with %s" % type(o).__name__)

    def __sub__(self, o):
        if SB.EFFECTS:
            raise Unsupported("set operation inside an abstract iteration")
        f = self._in(o)
        return arbitrary_set(lambda k: z3.And(self.has(k), z3.Not(f(k))))

    difference = __sub__

    def __repr__(self):
        return "<set>"


def str_set(seq):
    """immutableset(iterable): the strings of the sequence, each once"""
    import immutablecollections as ic

    name = _count("strset")
    H = z3.Function(name + ".in", ANY, BOOL)
    W = z3.Function(name + ".at", ANY, INT)
    SB.add_forall(C.cur(), lambda i: z3.Implies(z3.And(i >= 0, i < seq.n), H(any_term(seq.at(i)))))

    def has(k):
        w = W(k)
        C.cur().axiom(z3.Implies(H(k), z3.And(w >= 0, w < seq.n, any_term(seq.at(w)) == k)))
        if not SB.INSTANTIATING[0]:
            index_term(C.cur(), w)
        return H(k)

    r = StrSet(has, lambda k: None, name, None, ic.immutableset())
    r.H = H
    return r


class Relation:
    """pairs of strings, given by a sequence of them; R(u, v) iff (u, v) is one of the pairs"""

    def __init__(self, seq):
        name = _count("rel")
        F = lambda n, *s: z3.Function(name + "." + n, *s)  # noqa: E731
        self.seq, self.name = seq, name
        self.R, self.W = F("R", ANY, ANY, BOOL), F("w", ANY, ANY, INT)
        # the pairs with a given first (second) element: how many, their other elements, and the position of each
        self.out = (F("deg", ANY, INT), F("child", ANY, INT, ANY), F("cpos", ANY, ANY, INT))
        self.inn = (F("indeg", ANY, INT), F("parent", ANY, INT, ANY), F("ppos", ANY, ANY, INT))
        # each pair once
        self.n, self.eu, self.ev, self.ei = z3.Int(name + ".n"), F("eu", INT, ANY), F("ev", INT, ANY), F("ei", ANY, ANY, INT)
        C.cur().axiom(self.n >= 0)
        SB.add_forall(C.cur(), lambda i: z3.Implies(z3.And(i >= 0, i < seq.n), self.R(*self.pair(i))))

    @staticmethod
    def of(seq):
        memo = C.cur().store.setdefault("relations", SB.Memo()).d
        if id(seq) not in memo:
            memo[id(seq)] = (Relation(seq), seq)
        return memo[id(seq)][0]

    def pair(self, i):
        a, b = self.seq.at(i)
        return any_term(a), any_term(b)

    def has(self, u, v):
        p = C.cur()
        w, e = self.W(u, v), self.ei(u, v)
        a, b = self.pair(w)
        deg, child, cpos = self.out
        indeg, parent, ppos = self.inn
        p.axiom(z3.Implies(self.R(u, v), z3.And(w >= 0, w < self.seq.n, a == u, b == v)))
        p.axiom(z3.Implies(self.R(u, v), z3.And(e >= 0, e < self.n, self.eu(e) == u, self.ev(e) == v)))
        c, d = cpos(u, v), ppos(v, u)
        p.axiom(z3.Implies(self.R(u, v), z3.And(c >= 0, c < deg(u), child(u, c) == v, d >= 0, d < indeg(v), parent(v, d) == u)))
        if not SB.INSTANTIATING[0]:
            for t in (w, e, c, d):
                index_term(p, t)
        return self.R(u, v)

    def column(self, forward, u):
        n, key, idx = self.out if forward else self.inn
        has = (lambda v: self.has(u, v)) if forward else (lambda v: self.has(v, u))
        fn = {"n": n(u), "key": lambda i: key(u, i), "idx": lambda k: idx(u, k)}
        import immutablecollections as ic

        return StrSet(has, lambda k: None, lambda what: fn[what], None, ic.immutableset())


class MultiDict(Sym):
    """ImmutableSetMultiDict: the pairs of a relation (or, backwards, of its inverse)"""

    def __init__(self, rel, forward=True):
        self.rel, self.forward = rel, forward

    def __getitem__(self, key):
        return self.rel.column(self.forward, any_term(key))

    def get(self, key, default=None):
        raise Unsupported("get of a multi-dictionary")

    def invert_to_set_multidict(self):
        return MultiDict(self.rel, not self.forward)

    def items(self):
        r = self.rel

        def at(i):
            u, v = r.eu(i), r.ev(i)
            C.cur().axiom(z3.Implies(z3.And(i >= 0, i < r.n), z3.And(r.has(u, v), r.ei(u, v) == i)))
            return (SymStr(u), SymStr(v)) if self.forward else (SymStr(v), SymStr(u))

        return SymSeq(r.n, at)

    def __contains__(self, key):
        return C.cur().decide(self.rel.column(self.forward, any_term(key)).n > 0)

    def __bool__(self):
        return C.cur().decide(self.rel.n > 0)

    def __pyvc_len__(self):
        return C.mkint(self.rel.n)

    def __pyvc_isinstance__(self, cls):
        import immutablecollections as ic

        return isinstance(ic.immutablesetmultidict(), cls)

    __hash__ = None

    def __eq__(self, o):
        raise Unsupported("equality of multi-dictionaries")

    def __repr__(self):
        return "<multi-dictionary>"

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        raise Unsupported("%r of a multi-dictionary" % name)


# lists without repetitions, as sets: what a loop invariant says of them
def bag_member(lst, k):
    """is the string k (a term) in the list, as a formula"""
    if lst.segs is None:
        return z3.Or(*[any_term(x) == k for x in list.__iter__(lst)] or [z3.BoolVal(False)])
    out = []
    for s in lst.segs:
        if not isinstance(s, SB.GenChunk):
            out.append(any_term(s) == k)
            continue
        seq = s.comp.seq if s.comp.whole is None else s.comp.whole
        src = getattr(seq, "map", None)
        if src is None:
            raise Unsupported("a list of unknown origin")
        i = src.idx(k)
        here = z3.And(src.has(k), i < seq.n)
        if s.comp.whole is None:
            alts = []
            for g, es in s.comp.alts:
                for e in es:
                    if not any_term(e).eq(src.key(s.comp.k)):
                        raise Unsupported("a list of something else than the keys iterated over")
                    alts.append(z3.substitute(g, (s.comp.k, i)))
            here = z3.And(here, z3.Or(*alts or [z3.BoolVal(False)]))
        out.append(here)
    return z3.Or(*out or [z3.BoolVal(False)])


def bag_distinct(lst):
    """no string is in the list twice"""
    out, before = [], SB.EList()
    segs = lst.segs if lst.segs is not None else list(list.__iter__(lst))
    for s in segs:
        if isinstance(s, SB.GenChunk):
            if before.segs:
                raise Unsupported("a list of several runs")
        else:
            out.append(z3.Not(bag_member(before, any_term(s))))
        before.segs = (before.segs or []) + [s]
    return z3.And(*out or [z3.BoolVal(True)])


def arbitrary_set(has):
    """an arbitrary enumeration of the strings of which `has` is true"""
    import immutablecollections as ic

    return StrSet(has, lambda k: None, _count("strset"), None, ic.immutableset())


class Bag(SymMap):
    """strings in any order, each any number of times"""

    def key_at(self, i):
        i = z3.simplify(i)
        k = self.key(i)
        C.cur().axiom(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.has_(k), *self.facts(k))))
        return k


def arbitrary_bag(has):
    return Bag(has, lambda k: None, _count("bag"), None, [])


def membership(s):
    """which strings are in a set"""
    parts = []
    for c in s.chunks():
        if isinstance(c, SymComp):
            m = getattr(c.whole, "map", None)
            if not isinstance(m, SymMap) or c.whole.what != "keys" or c.seq is not c.whole:
                raise Unsupported("enumeration of a set")
            parts.append(m.has)
        elif isinstance(c, (str, SymStr)):
            parts.append(lambda k, t=any_term(c): k == t)
        else:
            raise Unsupported("enumeration of a set")

    def has(k):
        return z3.Or(*[f(k) for f in parts] or [z3.BoolVal(False)])

    return has


def enumeration(s):
    """a set of strings as a sequence: each once, in an arbitrary order"""
    return arbitrary_set(membership(s)).__pyvc_seq__()


def _set_member(s, e):
    if s.segs is None:
        return z3.Or(*[SB._same_value(x, e) for x in set.__iter__(s)] or [z3.BoolVal(False)])
    if not isinstance(e, (str, SymStr)):
        raise Unsupported("membership of %s in a set" % type(e).__name__)
    return membership(s)(any_term(e))


SB.SET_SEQ[0] = enumeration
SB.ESet.__pyvc_member__ = _set_member


def _after_load(mod):
    if mod.__name__ != "vistautils._graph":
        return
    import immutablecollections as ic

    def immutableset(it=None, **k):
        if isinstance(it, StrSet):
            return it
        if it is None and C.CUR is not None:
            return str_set(SymSeq(z3.IntVal(0), lambda i: SymStr(z3.Const("nothing", ANY))))
        return str_set(SB.consume(it)) if C.CUR is not None and SB.symiter(it) else ic.immutableset(it, **k)

    def immutablesetmultidict(it=None, **k):
        if isinstance(it, MultiDict):
            return it
        if it is None and C.CUR is not None:
            nothing = SymStr(z3.Const("nothing", ANY))
            return MultiDict(Relation.of(SymSeq(z3.IntVal(0), lambda i: (nothing, nothing))))
        return MultiDict(Relation.of(SB.consume(it))) if C.CUR is not None and SB.symiter(it) else ic.immutablesetmultidict(it, **k)

    mod.immutableset, mod.immutablesetmultidict = immutableset, immutablesetmultidict


SB.AFTER.append(_after_load)
__all__ = ["MM", "mkbool"]
