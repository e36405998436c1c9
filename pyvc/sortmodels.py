"""sorted() of a symbolic sequence (the documented contract: a stable permutation in order of the keys),
input text which is sliced, and text streams."""
import io

from . import anymodels as A
from . import core as C
from . import symbuiltins as SB
from . import textmodels as T
from .core import I, Sym, Unsupported, mkbool, mkint, z3
from .mapmodels import MapSeq, SymStr
from .symbuiltins import Memo, SymSeq, index_term

INT = z3.IntSort()


# of the (finitely many) strings, or other objects in order, a path speaks of, in which order they are
STR_ORD = z3.Function("str_order", A.ANY, INT)


def _keyterms(k):
    if isinstance(k, (tuple, list)):
        return [t for x in k for t in _keyterms(x)]
    if isinstance(k, C.SymBool):
        return [z3.If(k.t, z3.IntVal(1), z3.IntVal(0))]
    if isinstance(k, (int, C.SymInt)):
        return [I(k)]
    if isinstance(k, (SymStr, A.SymOf)):
        return [STR_ORD(k.t)]
    raise Unsupported("sort key of type %s" % type(k).__name__)


def lex_less(a, b):
    """(a1, a2, ...) < (b1, b2, ...)"""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


class SortedSeq(SymSeq):
    """src: position in the result -> position in the input; rank: the converse"""

    __slots__ = ("base", "key", "src", "rank_fn", "name")

    def __init__(self, base, key):
        p = C.cur()
        p.store["sorts"] = p.store.get("sorts", 0) + 1
        self.name = "%ssorted%d" % (p.prefix, p.store["sorts"])
        self.base, self.key = base, key
        self.src = z3.Function(self.name + ".src", INT, INT)
        self.rank_fn = z3.Function(self.name + ".rank", INT, INT)
        SymSeq.__init__(self, base.n, self._at)
        self.link = ("sorted", base)
        p.store["sorted_seqs"] = p.store.get("sorted_seqs", ()) + (self,)

    def spoken(self, r):
        if not SB.INSTANTIATING[0]:
            self.base.spoken(self.source(r))

    def _at(self, r):
        i = self.source(r)
        return self.base.at(i)

    def source(self, r):
        """the position in the input of what is at position r of the result"""
        p = C.cur()
        i = self.src(r)
        p.axiom(z3.Implies(z3.And(r >= 0, r < self.n), z3.And(i >= 0, i < self.n, self.rank_fn(i) == r)))
        self._spoken(r, i)
        return i

    def rank(self, i):
        """the position in the result of what is at position i of the input"""
        p = C.cur()
        r = self.rank_fn(i)
        p.axiom(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(r >= 0, r < self.n, self.src(r) == i)))
        self._spoken(r, i)
        return r

    def _spoken(self, r, i):
        p = C.cur()
        memo = p.store.setdefault(self.name, Memo()).d
        r, i = z3.simplify(r), z3.simplify(i)
        if any(r.eq(r2) for r2, _, _ in memo.values()):
            return
        inside = z3.And(r >= 0, r < self.n, i >= 0, i < self.n)
        memo[len(memo)] = (r, i, None)
        at = len(memo) - 1
        key = _keyterms(self.key(self.base.at(i))) if p.ex.solver.check(p.pc, inside) != "unsat" else None
        memo[at] = (r, i, key)
        if key is None:
            return
        for j, (r2, i2, key2) in list(memo.items()):
            if j != at and key2 is not None:
                both = z3.And(inside, r2 >= 0, r2 < self.n, i2 >= 0, i2 < self.n)
                p.add(z3.Implies(both, (r2 < r) == lex_less(key2 + [i2], key + [i])))
                p.add(z3.Implies(both, (r == r2) == (i == i2)))


def sym_sorted(x, key=None, reverse=False):
    if reverse is not False:
        raise Unsupported("sorted in reverse")
    if SB.EFFECTS:
        raise Unsupported("sorted() inside an abstract iteration")
    seq = SB.consume(x)
    if key is None and isinstance(seq, MapSeq) and seq.what == "keys":
        # the keys of the same mapping, sorted again
        memo = C.cur().store.setdefault("sorted_keys", Memo()).d
        if id(seq.map) not in memo:
            memo[id(seq.map)] = (SortedSeq(seq, lambda e: e), seq.map)
        return SB.sym_list(memo[id(seq.map)][0])
    return SB.sym_list(SortedSeq(seq, key if key is not None else lambda e: e))


SB.SORTED_HOOK[0] = sym_sorted


def places(seq, base, i):
    """where in seq the i-th element of base ended up: [(position, sequence of links)]"""
    if seq is base:
        return [i]
    link = seq.link
    if link is None:
        return []
    kind, src = link[0], link[1]
    if kind == "sorted":
        return [seq.rank(p) for p in places(src, base, i)]
    if kind == "map":
        return places(src, base, i)
    if kind == "rev":
        return [z3.simplify(src.n - 1 - p) for p in places(src, base, i)]
    if kind == "concat":
        return [z3.simplify(start + p) for start, part in src for p in places(part, base, i)]
    raise Unsupported("origin of the elements of a sequence")


def origin(seq, base, r):
    """which element of base is at position r of seq (which is one of its positions)"""
    while seq is not base:
        if seq.link is None:
            return None
        kind, src = seq.link
        if kind == "sorted":
            r, seq = seq.source(r), src
        elif kind == "map":
            seq = src
        elif kind == "rev":
            r, seq = z3.simplify(src.n - 1 - r), src
        else:
            for j, (start, part) in enumerate(src):
                if j == len(src) - 1 or C.cur().decide(r < src[j + 1][0]):
                    r, seq = z3.simplify(r - start), part
                    break
    return r


# ---- text ---------------------------------------------------------------------------------------
class SymInput(SymStr):
    """a string of which slices are taken; its length is known"""

    __slots__ = ()

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported("character of symbolic text")
        n = I(self.__pyvc_len__())

        def norm(v, dflt):
            if v is None:
                return dflt
            t = I(v)
            t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), t)
            return z3.If(t > n, n, t)

        a, b = z3.simplify(norm(k.start, z3.IntVal(0))), z3.simplify(norm(k.stop, n))
        return T.SymText([("slice", self, a, z3.simplify(z3.If(b < a, a, b)))])


class SymStringIO(Sym):
    """io.StringIO written to only"""

    def __init__(self, initial=""):
        self.parts = [initial]
        log = SB.EFFECTS[-1] if SB.EFFECTS else SB.FRAMES[-1] if SB.FRAMES else None
        if log is not None:
            log.local.add(self)

    def write(self, s):
        if SB.EFFECTS and self not in SB.EFFECTS[-1].local:
            raise Unsupported("write inside an abstract iteration")
        if not SB.EFFECTS:
            SB.framed(self)
        if not SB.sym_isinstance(s, str):
            raise TypeError("string argument expected")
        self.parts.append(s if isinstance(s, (str, T.SymText)) else T.text(s))
        return None

    def getvalue(self):
        return T.SymText([p for p in self.parts])

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        raise Unsupported("StringIO.%s" % name)


class _StringIO(io.StringIO):
    def __new__(cls, *a, **k):
        if cls is _StringIO:
            return SymStringIO(*a, **k) if C.CUR is not None else io.StringIO(*a, **k)
        return io.StringIO.__new__(cls)


A.LIBRARY[id(io)] = A._ModShim(io, StringIO=_StringIO)
