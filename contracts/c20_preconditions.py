"""C20: precondition checks, validated value classes and small parsers accept exactly what they promise."""
import collections
import enum
import importlib
import os
import pathlib
import sys

from pyvc.harness import contract

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from params_common import fresh_modules  # noqa: E402

PC = "vistautils.preconditions"
OPTS = dict(modules=[PC, "vistautils.misc_utils", "vistautils.range", "vistautils.memory_amount", "vistautils.class_utils"])


class Falsy:
    def __bool__(self):
        return False

    def __repr__(self):
        return "<falsy>"


class Odd:
    """neither true nor false"""

    def __bool__(self):
        raise KeyError("no truth value")

    def __eq__(self, o):
        return True

    __hash__ = None

    def __repr__(self):
        return "<odd>"


POOL = [None, 0, 1, "", "x", [], [1], (), 0.0, False, True, Falsy(), 1.5, Odd(), {}, b""]
TYPES = [int, str, (int, str), list, float, bool, (str, (float, list)), object, Falsy, dict, Odd]


def flat(t):
    return tuple(x for y in t for x in flat(y)) if isinstance(t, tuple) else (t,)


LEGAL = [[], [1], ["x", 0], (None, "x"), range(20)]


@contract("C20.checks", covers=["accepted", "refused"], scope="each check with each of %d values and %d types" % (len(POOL), len(TYPES)), **OPTS)
def checks(h):
    m = h.mod(PC)
    which = h.choice("check", ["not_none", "arg", "state", "isinstance", "opt_isinstance", "all_isinstance", "args_are_none", "args_not_none", "in", "issubclass"])
    msg = h.choice("message", [None, "why", "for 100%"])
    kw = {"msg": msg} if msg is not None else {}
    gives = False
    v = None if which == "issubclass" else h.value("value", POOL)
    if which == "not_none":
        f, a, ok, exc, gives = m.check_not_none, (v,), h.Not(h.same(v, None)), ValueError, True
    elif which == "arg":
        h.assume(msg != "for 100%")  # the message is a format
        h.assume(not isinstance(v, Odd))
        f, a, ok, exc = m.check_arg, (v,), h.truthy(v), ValueError
        if msg and h.bool("with arguments"):
            kw = {"msg": "why %s %d", "msg_args": ("x", 3)}
            msg = "why x 3"
    elif which == "state":
        h.assume(not isinstance(v, Odd))
        f, a, ok, exc = m.check_state, (v,), h.truthy(v), AssertionError
    elif which in ("isinstance", "opt_isinstance"):
        t = h.value("type", TYPES)
        if h.bool("one of several types"):
            t = (t, (h.value("other type", TYPES),))
        ok = h.is_a(v, t)
        if which == "opt_isinstance":
            ok = h.Or(h.same(v, None), ok)
        f, a, exc, kw, msg, gives = getattr(m, "check_" + which), (v, t), TypeError, {}, None, True
    elif which == "all_isinstance":
        vs = h.value_list("values", POOL)
        t = h.value("type", TYPES)
        ok = h.forall(h.len(vs), lambda i: h.is_a(h.at(vs, i), t))
        f, a, exc, kw, msg = m.check_all_isinstance, (h.give(h.choice("as", ["list", "iterator", "reiterable", "tuple"]), vs), t), TypeError, {}, None
    elif which in ("args_are_none", "args_not_none"):
        h.assume(msg != "for 100%")
        vs = h.value_list("values", POOL)
        if which == "args_are_none":
            ok = h.forall(h.len(vs), lambda i: h.same(h.at(vs, i), None))
        else:
            ok = h.forall(h.len(vs), lambda i: h.Not(h.same(h.at(vs, i), None)))
        f, a, exc = getattr(m, "check_" + which), h.spread(vs), ValueError
    elif which == "in":
        h.assume(not isinstance(v, Odd))
        legal = h.value_list("legal", POOL)
        ok = h.Not(h.forall(h.len(legal), lambda i: h.Not(h.Or(h.same(v, h.at(legal, i)), h.equal(h.at(legal, i), v)))))
        kw = {"item_name": "thing"} if msg else {}
        f, a, exc, msg = m.check_in, (v, h.give(h.choice("as", ["list", "tuple"]), legal)), ValueError, None
    else:
        v = h.value("class", [int, bool, str, object, collections.OrderedDict])
        s = h.value("super", [int, (str, dict), object, collections.OrderedDict])
        ok, f, a, exc, kw, msg, gives = h.issub(v, s), m.check_issubclass, (v, s), TypeError, {}, None, True
    k, r = h.outcome(lambda: f(*a, **kw))
    h.ensure("accepted iff the condition holds", h.iff(k == "return", ok), (which, a, r))
    if k == "return":
        h.cover("accepted")
        h.ensure("a check which returns its argument returns it, others return nothing", h.same(r, v if gives else None), (which, a, r))
    else:
        h.cover("refused")
        h.ensure("the right exception", type(r) is exc, (which, a, repr(r)))
        if msg and which not in ("isinstance", "opt_isinstance"):
            h.ensure("the exception has the message given", r.args == (msg,), (r.args, msg))


@contract("C20.check_in", prove=False, covers=["accepted", "refused"], scope="%d values in each of several collections" % len(POOL), **OPTS)
def check_in(h):
    m = h.mod(PC)
    v = POOL[h.choice("value", range(len(POOL)))]
    legal = h.choice("legal", [[], [1], ["x", 0], (None, "x"), range(20), "xyz"])
    h.assume(not isinstance(v, Odd) and (legal != "xyz" or isinstance(v, str)))
    kw = h.choice("named", [{"item_name": "thing"}, {}, {"item_name": ""}])
    ok = any(v is x or v == x for x in legal) or (legal == "xyz" and v in "xyz")
    k, r = h.outcome(lambda: m.check_in(v, legal, **kw))
    h.cover("accepted" if ok else "refused")
    h.ensure("accepted iff among the legal values", (k == "return") == ok, (v, legal, r))
    h.ensure("refusal is a ValueError", ok or type(r) is ValueError, repr(r))
    if not ok:
        named = kw.get("item_name")
        h.ensure("the message names the item and shows the value", (not named or "Expected thing to be" in str(r)) and str(r).endswith("but got %s" % (v,)), repr(r))


@contract("C20.memory", prove=False, covers=["parsed", "zero", "refused"], scope="texts of up to 3 characters (random: 8)", runs=30000, rand=20000, **OPTS)
def memory(h):
    m = h.mod("vistautils.memory_amount")
    if h.bool("anything"):
        s = h.text("text", "10kB _.\n", 3, 8)
    else:
        s = h.text("digits", "019_", 2, 6) + h.choice("space", ["", " ", "  ", "\t"]) + h.choice("unit", ["k", "M", "g", "T", "", "P", "KM"]) + h.choice("bytes", ["", "b", "B", "bb", "\n", " "])
    i = 0
    while i < len(s) and s[i] in "0123456789":
        i += 1
    digits, rest = s[:i], s[i:]
    if rest.startswith(" "):
        rest = rest[1:]
    unit = rest[:1].upper()
    ok = digits != "" and unit != "" and unit in "KMGT" and rest[1:] in ("", "b", "B")
    units = {"K": m.MemoryUnit.KILOBYTES, "M": m.MemoryUnit.MEGABYTES, "G": m.MemoryUnit.GIGABYTES, "T": m.MemoryUnit.TERABYTES}
    k, r = h.outcome(m.MemoryAmount.parse, s)
    if not ok:
        h.cover("refused")
        h.ensure("anything but number and unit is a RuntimeError", k == "raise" and type(r) is RuntimeError, (s, r))
    elif int(digits) == 0:
        h.cover("zero")
        h.ensure("an amount of nothing is a ValueError", k == "raise" and isinstance(r, ValueError), (s, r))
    else:
        h.cover("parsed")
        h.ensure("number and unit are those given", k == "return" and r.amount == int(digits) and r.unit is units[unit], (s, r))
        h.ensure("amounts are values", r == m.MemoryAmount(int(digits), units[unit]) and hash(r) == hash(m.MemoryAmount(int(digits), units[unit])))
        h.ensure("different amounts are not equal", r != m.MemoryAmount(int(digits) + 1, units[unit]) and all(r != m.MemoryAmount(int(digits), x) for x in units.values() if x is not units[unit]))
    u = h.choice("unit text", ["k", "K", "m", "T", "g", "", "kb", "x", " k", "K\n"])
    k, r = h.outcome(m.MemoryUnit.parse, u)
    if u.upper() in units:
        h.ensure("a unit is its letter, in either case", k == "return" and r is units[u.upper()], (u, r))
    else:
        h.ensure("anything else is a RuntimeError", k == "raise" and type(r) is RuntimeError, (u, r))


@contract("C20.names", prove=False, covers=["extension", "no extension"], scope="names of up to 5 characters (random: 12)", **OPTS)
def names(h):
    m = h.mod("vistautils.misc_utils")
    s = h.text("name", "a.\n", 5, 12)
    if "." in s:
        h.cover("extension")
        head, tail = m.strip_extension(s), s[len(m.strip_extension(s)) :]
        h.ensure("one extension is removed, and nothing else", s == head + tail and tail[:1] == "." and "." not in tail[1:], (s, head))
    else:
        h.cover("no extension")
        h.ensure("a name without extension is unchanged", m.strip_extension(s) == s, s)
    p = pathlib.Path(s)
    h.ensure("a path is left as it is", m.pathify(p) is p)
    h.ensure("a string becomes its path", m.pathify(s) == p and isinstance(m.pathify(s), pathlib.Path), s)


class Outer:
    class Inner:
        pass


class Colour(enum.Enum):
    RED = 1


@contract("C20.values", covers=["accepted", "refused"], scope="pairs from a pool of values", **OPTS)
def values(h):
    m = h.mod("vistautils.misc_utils")
    a = h.value("first", POOL)
    b = h.value("second", POOL)
    h.assume(not isinstance(a, Odd) and not isinstance(b, Odd))
    if h.bool("with id"):
        k, r = h.outcome(m.WithId, a, b)
        ok = h.And(h.is_a(a, str), h.truthy(a), h.Not(h.same(b, None)))
        exc, fields = ValueError, {"id": a, "item": b}
    else:
        k, r = h.outcome(m.Scored, a, b)
        ok = h.And(h.Not(h.same(a, None)), h.is_a(b, float))
        exc, fields = (ValueError, TypeError), {"item": a, "score": b}
    h.ensure("accepted iff legal", h.iff(k == "return", ok), (a, b, r))
    if k == "raise":
        h.cover("refused")
        h.ensure("refusal is a ValueError (or TypeError of a score)", isinstance(r, exc), (a, b, r))
        return
    h.cover("accepted")
    for f, v in fields.items():
        h.ensure("holds what it was given", h.same(getattr(r, f), v), f)
        k, e = h.outcome(setattr, r, f, "x")
        h.ensure("cannot be changed", k == "raise", e)
        h.ensure("is unchanged", h.same(getattr(r, f), v), f)


@contract("C20.evaluation", prove=False, covers=["value", "wrong type", "module"], scope="a pool of expressions, contexts and types", **OPTS)
def evaluation(h):
    m = h.mod("vistautils.misc_utils")
    c = h.mod("vistautils.class_utils")
    e, v = h.choice("expression", [("1 + x", 6), ("[x]", [5]), ("os.path.sep", os.path.sep), ("x", 5), ("collections.abc.Sized", collections.abc.Sized), ("None", None), ("lambda: x", "function")])
    ctx = {"x": 5}
    given = dict(ctx)
    mods = h.choice("modules", [[], ["os.path"], ["collections.abc", "os"], ["os", "collections.abc"]])
    t = h.choice("type", [int, object, str, list, type])
    if h.bool("own name"):
        # what the context gives wins over a module of that name
        h.ensure("the modules are added to the context", m.eval_in_context_of_modules("json", {"json": 5}, context_modules=["json"], expected_type=int) == 5)
    k, r = h.outcome(lambda: m.eval_in_context_of_modules(e, given, context_modules=mods, expected_type=t))
    # a package which is in the context already does not stand for its modules
    fresh_modules()
    pkg = {"vt_z": importlib.import_module("vt_z")} if h.bool("package given") else {}
    h.ensure("a module is there under its full name", m.eval_in_context_of_modules("vt_z.deep.er.one", pkg, context_modules=["vt_z.deep.er"], expected_type=int) == 1)
    known = (not e.startswith("os.") or any(x.startswith("os") for x in mods)) and (not e.startswith("coll") or "collections.abc" in mods)
    h.ensure("the context is not changed", given == ctx, sorted(given)[:5])
    if not known:
        h.ensure("a name which is not in the context is a NameError", k == "raise" and isinstance(r, NameError), r)
    elif v == "function" and t is object:
        h.ensure("functions see the context", k == "return" and r() == 5, r)
    elif isinstance(v, t) and v != "function":
        h.cover("value")
        if mods:
            h.cover("module")
        h.ensure("the value of the expression", k == "return" and r == v, (e, r))
    else:
        h.cover("wrong type")
        h.ensure("a value of another type is a TypeError", k == "raise" and isinstance(r, TypeError), (e, t, r))
    x, n = h.choice("named", [(int, "int"), (Outer, __name__ + ".Outer"), (Outer.Inner, __name__ + ".Outer.Inner"), (os.path, os.path.__name__), (collections, "collections"), (Colour, __name__ + ".Colour"), (type("Run", (), {"__module__": "__main__"}), "__main__.Run"), (collections.OrderedDict, "collections.OrderedDict"), (dict, "dict"), (type("Free", (), {"__module__": None}), "Free")])
    h.ensure("the name of a class or module, with its packages", c.fully_qualified_name(x) == n, (x, n))
    if isinstance(x, type) and x is not Colour:
        h.ensure("the name of the type of an object", c.fully_qualified_name_of_type(x()) == n, n)


@contract("C20.evaluated", concrete=False, covers=["value", "wrong type", "failed"], **OPTS)
def evaluated(h):
    """any expression, value and expected type; what the expression means is left to eval, in a context of its own"""
    m = h.mod("vistautils.misc_utils")
    text, value, T = h.string("expression"), h.any("value"), h.any("expected type")
    ctx = {"x": h.any("x")}
    calls = []

    def ev(code, names=None, local=None):
        if local is not None or not isinstance(names, dict):
            raise h.C.Unsupported("eval in other than a dictionary of names")
        calls.append((code, names))
        if h.choice("evaluation fails", [False, True]):
            raise NameError("failing expression")
        return value

    h.patch(m, "eval", ev)
    k, r = h.outcome(lambda: m.eval_in_context_of_modules(text, ctx, context_modules=[], expected_type=T))
    if not calls:
        raise h.C.Unsupported("evaluation by other means")
    h.ensure("evaluated once", len(calls) == 1)
    code, names = calls[0]
    h.ensure("the expression given", code == text)
    h.ensure("in a copy of the context", names is not ctx and "x" in names and h.same(names["x"], ctx["x"]))
    h.ensure("the context is not changed", list(ctx) == ["x"])
    if k == "raise" and isinstance(r, NameError):
        h.cover("failed")
        return
    if h.is_a(value, T):
        h.cover("value")
        h.ensure("the value, if it is of the type expected", k == "return" and h.same(r, value), r)
    else:
        h.cover("wrong type")
        h.ensure("a value of another type is a TypeError", k == "raise" and isinstance(r, TypeError), r)
