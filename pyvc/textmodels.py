"""Text built from symbolic values: a concatenation of literal text, of the representations of opaque
objects, of integers in decimal and of joined sequences of such."""
import builtins
import codecs
import re
import string

from . import core as C
from . import symbuiltins as SB
from .anymodels import ANY, SymAny, any_term
from .core import Sym, SymInt, Unsupported, mkbool, mkint, z3
from .symbuiltins import GenChunk, SymComp, SymSeq


STR_OF = z3.Function("str_of", ANY, ANY)


class SymText(Sym):
    """parts: str | ("repr", object) | ("str", object) | ("int", SymInt) | ("join", sep, SymSeq)"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            for q in p.parts if isinstance(p, SymText) else (p,):
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __pyvc_isinstance__(self, cls):
        return isinstance("", cls)

    def __pyvc_type__(self):
        return str

    def __pyvc_str__(self):
        return self

    def __add__(self, o):
        return SymText([self, o]) if isinstance(o, (str, SymText)) else NotImplemented

    def __radd__(self, o):
        return SymText([o, self]) if isinstance(o, str) else NotImplemented

    def __str__(self):
        return "<text>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<text>"

    def __pyvc_subst__(self, k, i):
        return SymText([_subst_part(p, k, i) for p in self.parts])

    def _no(self, *a, **k):
        raise Unsupported("operation on symbolic text")

    __iter__ = __len__ = __getitem__ = __contains__ = __eq__ = __ne__ = __hash__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __mul__ = __fspath__ = _no

    def __mod__(self, args):
        # text without directives: itself, given no arguments
        if args == () and all("%" not in p if isinstance(p, str) else p[0] == "int" for p in self.parts):
            return self
        raise Unsupported("format operation on symbolic text")

    def __bool__(self):
        if any(isinstance(p, str) or p[0] == "int" for p in self.parts):
            return True
        for p in self.parts:
            if p[0] == "str" and SB.sym_isinstance(p[1], str):
                if p[1] != "":
                    return True
            elif p[0] == "join":
                n, p_ = p[2].n, C.cur()
                if p[1] and p_.decide(n > 1):
                    return True
                if p_.decide(n == 1):
                    if builtins.bool(SymText([p[2].at(z3.IntVal(0))])):
                        return True
                elif p_.decide(n > 1):
                    raise Unsupported("truth value of symbolic text")
            else:
                raise Unsupported("truth value of symbolic text")
        return False

    def encode(self, encoding="utf-8", errors="strict"):
        if errors != "strict":
            raise Unsupported("lenient encoding of symbolic text")
        return SymBytes(self, codecs.lookup(encoding).name)

    def split(self, sep=None, maxsplit=-1):
        """sep.join(xs).split(sep) is xs, if there are any and none of them contains sep"""
        if not isinstance(sep, str) or not sep or maxsplit != -1:
            raise Unsupported("split of symbolic text")
        if not self.parts:
            return SB.mklist([""])
        if not any(not isinstance(p, str) and p[0] == "join" for p in self.parts):
            return self._split(sep)
        if len(self.parts) != 1 or isinstance(self.parts[0], str) or self.parts[0][1] != sep:
            raise Unsupported("split of symbolic text")
        seq, p = self.parts[0][2], C.cur()
        if not p.decide(seq.n > 0):
            return SB.mklist([""])

        def piece(i):
            e = SymText([seq.at(i)])
            if len(e.parts) != 1 or isinstance(e.parts[0], str) or e.parts[0][0] != "str" or not SB.sym_isinstance(e.parts[0][1], str):
                raise Unsupported("split of symbolic text")
            return e.parts[0][1]

        k = p.const("piece", z3.IntSort())
        SB.index_term(p, k)
        if p.ex.solver.check(p.pc, k >= 0, k < seq.n, holds(piece(k), sep)) != "unsat":
            raise Unsupported("split of joined text of which a part may hold the separator")
        return SymSeq(seq.n, piece)

    def _split(self, sep):
        """literal text is split; other parts must be known not to hold the separator"""
        if len(sep) != 1:
            raise Unsupported("split of symbolic text")
        p, pieces = C.cur(), [[]]
        for q in self.parts:
            if isinstance(q, str):
                first, *more = q.split(sep)
                pieces[-1].append(first)
                pieces += [[m] for m in more]
                continue
            if p.ex.solver.check(p.pc, holds(as_str(q), sep)) != "unsat":
                raise Unsupported("split of text of which a part may hold the separator")
            pieces[-1].append(q)
        return SB.mklist([simple(SymText(x)) for x in pieces])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _strip(self, chars, left, right):
        parts, p = list(self.parts), C.cur()
        for on, end, f in ((left, 0, "lstrip"), (right, -1, "rstrip")):
            while on and parts:
                q = parts[end]
                if isinstance(q, str):
                    parts[end] = getattr(q, f)(chars)
                    if parts[end]:
                        break
                    del parts[end]
                elif len(parts) == 1:
                    break
                else:
                    # known to be stripped, and not empty
                    x = as_str(q)
                    if p.ex.solver.check(p.pc, z3.Not(z3.And(x.t != any_term(""), x.strip(*[chars] if chars is not None else []).t == x.t))) != "unsat":
                        raise Unsupported("strip of text of which a part may be stripped")
                    break
        if len(parts) == 1 and not isinstance(parts[0], str):
            x, a = as_str(parts[0]), [chars] if chars is not None else []
            return x.strip(*a) if left and right else x.lstrip(*a) if left else x.rstrip(*a)
        return simple(SymText(parts))

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        raise Unsupported("attribute %r of symbolic text" % name)


def as_str(part):
    """the string which a part of a text is"""
    from .mapmodels import SymStr, class_models

    if part[0] != "str":
        raise Unsupported("part of symbolic text as a string")
    x = part[1]
    if isinstance(x, SymStr):
        return x
    for cls, fields in class_models().items():
        if "__str__" in fields and SB.sym_isinstance(x, cls):
            return fields["__str__"](x.t)
    if SB.sym_isinstance(x, str):
        return SymStr(any_term(x))
    return SymStr(STR_OF(any_term(x)))


def simple(t):
    """a text of one literal or one string is that"""
    if not t.parts:
        return ""
    if len(t.parts) == 1 and isinstance(t.parts[0], str):
        return t.parts[0]
    if len(t.parts) == 1 and t.parts[0][0] == "str":
        return as_str(t.parts[0])
    return t


def holds(x, sep):
    from .mapmodels import STR_IN

    return STR_IN(any_term(x), any_term(sep)) if isinstance(x, Sym) else z3.BoolVal(sep in x)


class SymBytes(Sym):
    """encoded text"""

    __slots__ = ("text", "encoding")

    def __init__(self, text, encoding):
        self.text, self.encoding = text, encoding

    def __pyvc_isinstance__(self, cls):
        return isinstance(b"", cls)

    def __pyvc_type__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        if codecs.lookup(encoding).name != self.encoding:
            raise Unsupported("decoding in another encoding")
        return self.text

    def __bool__(self):
        return builtins.bool(self.text)

    def _no(self, *a, **k):
        raise Unsupported("operation on encoded symbolic text")

    __iter__ = __len__ = __getitem__ = __contains__ = __eq__ = __ne__ = __hash__ = __add__ = _no

    def __getattr__(self, name):
        if name.startswith("__pyvc_"):
            raise AttributeError(name)
        raise Unsupported("attribute %r of encoded symbolic text" % name)


def _subst_part(p, k, i):
    if isinstance(p, str):
        return p
    if p[0] == "join":
        at = p[2].at
        return ("join", p[1], SymSeq(z3.substitute(p[2].n, (k, i)), lambda j: SB.subst(at(j), k, i)))
    if p[0] == "slice":
        return ("slice", SB.subst(p[1], k, i), z3.substitute(p[2], (k, i)), z3.substitute(p[3], (k, i)))
    if p[0] == "other":
        raise Unsupported("substitution into the text of a filtered sequence")
    return (p[0], SB.subst(p[1], k, i))


def modelled(x):
    return isinstance(x, (SymAny, SymInt, SymText)) or isinstance(x, SymSeq) or (isinstance(x, SB.EList) and x.segs is not None) or (isinstance(x, SymComp) and x.kind == "list")


def text(x, rep=False):
    """repr(x) or str(x)"""
    if isinstance(x, SymText):
        if rep:
            raise Unsupported("repr of symbolic text")
        return x
    if isinstance(x, SymAny):
        return SymText([("repr" if rep else "str", x)])
    if isinstance(x, SymInt):
        return SymText([("int", x)])
    if isinstance(x, SB.EList):
        if x.segs is None:
            return builtins.repr(x) if rep else builtins.str(x)
        if any(isinstance(g, GenChunk) and not g.comp.plain() for g in x.segs):
            return SymText([("other", x)])
        return text(x.__pyvc_seq__(), rep)
    if isinstance(x, SymComp) and not x.plain():
        return SymText([("other", x)])
    if isinstance(x, (SymSeq, SymComp)):
        s = x if isinstance(x, SymSeq) else x.__pyvc_seq__()
        at = s.at
        inner = ("join", ", ", SymSeq(s.n, lambda i: text(at(i), True)))
        if SB.sym_isinstance(x, tuple):
            return SymText(["(", inner, ",)" if C.cur().decide(s.n == 1) else ")"])
        return SymText(["[", inner, "]"])
    return builtins.repr(x) if rep else builtins.str(x)


def sym_repr(x):
    return text(x, True) if modelled(x) and C.CUR is not None else builtins.repr(x)


def fmod(fmt, args):
    """literal % args"""
    tup = args if isinstance(args, tuple) else (args,)
    if C.CUR is None or not any(modelled(a) for a in tup):
        return fmt % args
    pieces = re.split(r"(%[srd%])", fmt)
    if any("%" in p for p in pieces[::2]):
        raise Unsupported("format directives of %r" % fmt)
    out, k = [], 0
    for p in pieces:
        if p == "%%":
            out.append("%")
        elif p in ("%s", "%r", "%d"):
            if k >= len(tup):
                raise TypeError("not enough arguments for format string")
            out.append(text(tup[k], p == "%r"))
            k += 1
        else:
            out.append(p)
    if k != len(tup):
        raise TypeError("not all arguments converted during string formatting")
    return SymText(out)


def format_(fmt, /, *args, **kw):
    """literal.format(*args, **kw)"""
    if C.CUR is None or not any(modelled(a) for a in args + tuple(kw.values())):
        return fmt.format(*args, **kw)
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "" or field.isdigit():
            k = int(field) if field else auto
            auto += not field
            if k >= len(args):
                raise IndexError("Replacement index %d out of range for positional args tuple" % k)
            v = args[k]
        elif field.isidentifier():
            v = kw[field]
        else:
            raise Unsupported("field %r of a format" % field)
        if modelled(v):
            out.append(SymText([("other", (v, spec))]) if spec else text(v, conv in ("r", "a")))
        else:
            out.append(("{" + ("!" + conv if conv else "") + (":" + spec if spec else "") + "}").format(v))
    return SymText(out)


def join(sep, xs):
    """literal.join(xs)"""
    if C.CUR is None or not SB.symiter(xs):
        if isinstance(xs, (list, tuple)) and any(isinstance(x, (SymText, SymAny)) for x in xs):
            out = []
            for x in xs:
                if not isinstance(x, str) and not SB.sym_isinstance(x, str):
                    raise TypeError("sequence item: expected str instance")
                x = x if isinstance(x, str) else text(x)
                out += [sep, x] if out else ["", x]
            return SymText(out)
        return sep.join(xs)
    s = SB.consume(xs)
    at = s.at

    def elem(i):
        e = at(i)
        if isinstance(e, (str, SymText)):
            return e
        if isinstance(e, SymAny):
            return text(e)
        raise TypeError("sequence item: expected str instance")

    p = C.cur()
    k = p.const("piece", z3.IntSort())
    SB.index_term(p, k)
    e = at(k)
    if isinstance(e, SymAny) and p.ex.solver.check(p.pc, k >= 0, k < s.n, z3.Not(C.B(e.__pyvc_isinstance__(str)))) != "unsat":
        raise Unsupported("join of what may be no strings")

    return SymText([("join", sep, SymSeq(s.n, elem))])


def fstring(*parts):
    if C.CUR is None or not any(not isinstance(p, str) and modelled(p[0]) for p in parts):
        return "".join(p if isinstance(p, str) else builtins.format(_conv(p), p[2]) for p in parts)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        elif modelled(p[0]):
            out.append(SymText([("other", (p[0], p[2]))]) if p[2] else text(p[0], p[1] in (97, 114)))
        else:
            out.append(builtins.format(_conv(p), p[2]))
    return SymText(out)


def _conv(p):
    v, c = p[0], p[1]
    return {-1: lambda: v, 115: lambda: str(v), 114: lambda: repr(v), 97: lambda: ascii(v)}[c]()


def normal(parts):
    """a join of no or one element is no separator away from its content: kept as it is; nested texts flattened"""
    return SymText(list(parts)).parts


def no_empty(parts):
    """without the slices which have no characters"""
    return SymText([p for p in parts if isinstance(p, str) or p[0] != "slice" or C.cur().decide(p[2] < p[3])]).parts


def ensure_same(h, label, got, want, detail=""):
    """obligation: the two texts are made of the same parts"""
    got = no_empty(normal([got]))
    want = no_empty(normal([want]))
    if len(got) != len(want):
        return h.ensure(label, False, (got, want))
    for a, b in zip(got, want):
        if not isinstance(a, str) and a[0] == "other" or not isinstance(b, str) and b[0] == "other":
            raise Unsupported("text of a filtered sequence")
        if isinstance(a, str) or isinstance(b, str):
            h.ensure(label, a == b if isinstance(a, str) and isinstance(b, str) else False, (a, b))
        elif a[0] != b[0]:
            h.ensure(label, False, (a, b))
        elif a[0] == "int":
            h.ensure(label, mkbool(C.I(a[1]) == C.I(b[1])), (a, b))
        elif a[0] == "slice":
            h.ensure(label, mkbool(z3.And(any_term(a[1]) == any_term(b[1]), a[2] == b[2], a[3] == b[3])), (a, b))
        elif a[0] in ("repr", "str"):
            h.ensure(label, mkbool(any_term(a[1]) == any_term(b[1])), (a, b))
        else:
            h.ensure(label, a[1] == b[1], (a[1], b[1]))
            n = z3.If(a[2].n < 0, z3.IntVal(0), a[2].n)
            m = z3.If(b[2].n < 0, z3.IntVal(0), b[2].n)
            h.ensure(label, mkbool(n == m), detail)
            p = C.cur()
            i = p.const("pos", z3.IntSort())
            if p.ex.solver.check(p.pc, i >= 0, i < n) == "unsat":
                continue
            q = p.const("at", z3.IntSort())
            # the elements at an arbitrary position (nothing else is assumed of it)
            p.add(z3.Implies(n > 0, z3.And(q >= 0, q < n)))
            SB.index_term(p, q)
            if not p.decide(n > 0):
                continue
            ensure_same(h, label, a[2].at(q), b[2].at(q), detail)


SB.MODULE_INJECT.update({"repr": sym_repr, "_pyvc_fmod": fmod, "_pyvc_join": join, "_pyvc_format": format_, "_pyvc_fstr": fstring})
SB.TEXT[0] = lambda x: text(x) if modelled(x) else None
