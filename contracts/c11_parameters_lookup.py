"""C11: looking up parameters, typed and with defaults."""
import enum
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from params_common import ABSENT, KEYS, LEAVES, PAR, is_ns, lookup, params_model, path, private_get_by_contract, same_value, tree, walk  # noqa: E402

from pyvc.harness import contract  # noqa: E402

OPTS = dict(modules=["vistautils.range", PAR])


class Colour(enum.Enum):
    s = 1
    a = "s"
    other_a = "s"
    b = 1


class Level(enum.IntEnum):
    a = 0
    s = 1


@contract("C11.get", prove=False, covers=["present", "absent", "null", "beneath a leaf", "namespace", "wrong type"], scope="dictionaries of depth 3 with up to 2 keys a level (random: 3), names of up to 2 components (random: 4)", **OPTS)
def get(h):
    m = h.mod(PAR)
    P, Err = m.Parameters, m.ParameterError
    d = tree(h)
    p = P.from_mapping(d)
    comps = path(h)
    name = ".".join(comps)
    v = walk(d, comps)
    there = v is not ABSENT and v is not None
    h.cover("absent" if v is ABSENT else "null" if v is None else "namespace" if is_ns(v) else "present")
    if v is ABSENT and any(walk(d, comps[:i]) is not ABSENT and not is_ns(walk(d, comps[:i])) for i in range(1, len(comps))):
        h.cover("beneath a leaf")
    h.ensure("a name is in the parameters iff its path leads to a value", (name in p) is there, (d, name))
    h.ensure("it is a namespace iff its path leads to one", p.has_namespace(name) is (there and is_ns(v)), (d, name))
    T = h.choice("type", [str, int, float, bool, list, object, P])
    fits = v is not ABSENT and (isinstance(v, T) if not is_ns(v) else T in (object, P))
    dflt = h.choice("default", [None, "d", 0, 5, False, ""])
    k, r = h.outcome(p.get, name, T) if dflt is None else h.outcome(p.get, name, T, dflt)
    if v is ABSENT and dflt is not None and isinstance(dflt, T):
        h.ensure("an absent parameter has its default", k == "return" and r is dflt, (d, name, dflt, r))
    elif v is ABSENT or not fits:
        if v is not ABSENT:
            h.cover("wrong type")
        h.ensure("an unknown parameter or one of another type is a ParameterError", k == "raise" and isinstance(r, Err), (d, name, T, r))
    else:
        h.ensure("a parameter of the right type is returned as it is, whatever the default", k == "return" and same_value(h, r, v), (d, name, T, r))
    k, r = h.outcome(p.get_optional, name, T) if dflt is None else h.outcome(lambda: p.get_optional(name, T, default=dflt))
    if not there:
        h.ensure("an optional parameter which is absent has its default, or None", k == "return" and r is dflt, (d, name, dflt, r))
    elif fits:
        h.ensure("an optional parameter which is present is returned as it is", k == "return" and same_value(h, r, v), (d, name, r))
    else:
        h.ensure("an optional parameter of another type is a ParameterError", k == "raise" and isinstance(r, Err), (d, name, T, r))


# accessor -> (type it demands, also demands)
ACCESSORS = {
    "string": (str, None),
    "integer": (int, None),
    "positive_integer": (int, lambda x: x > 0),
    "floating_point": (float, None),
    "boolean": (bool, None),
    "arbitrary_list": (list, None),
}
DEFAULTS = {
    "string": ["d", ""],
    "integer": [9, 0, -1],
    "positive_integer": [4, 0, -2],
    "floating_point": [2.5, 0.0],
    "boolean": [True, False],
    "arbitrary_list": [[1], []],
}


@contract("C11.accessors", prove=False, covers=["present", "default", "none", "refused"], scope="as C11.get", **OPTS)
def accessors(h):
    m = h.mod(PAR)
    P, Err = m.Parameters, m.ParameterError
    acc = h.choice("accessor", sorted(ACCESSORS))
    T, also = ACCESSORS[acc]
    v = h.choice("value", [ABSENT] + LEAVES + [{}, {"a": 1}, 12, 0.25, 5])
    deep = h.bool("nested")
    d = {"other": 1}
    if v is not ABSENT:
        d["p"] = v
    if deep:
        d = {"n": d}
    name = "n.p" if deep else "p"
    p = P.from_mapping(d)
    opt = h.bool("optional")
    f = getattr(p, "optional_" + acc if opt else acc)
    dflt = h.choice("default", [None] + DEFAULTS[acc])
    k, r = h.outcome(f, name) if dflt is None else h.outcome(lambda: f(name, default=dflt))
    absent = v is ABSENT or (opt and v is None)
    if absent and dflt is None:
        if opt:
            h.cover("none")
            h.ensure("an optional parameter which is absent is None", k == "return" and r is None, (acc, r))
        else:
            h.ensure("a parameter which is absent is a ParameterError", k == "raise" and isinstance(r, Err), (acc, r))
    elif absent:
        if also is None or also(dflt):
            h.cover("default")
            h.ensure("a parameter which is absent has its default, falsy or not", k == "return" and r is dflt, (acc, opt, dflt, r))
        else:
            h.ensure("a default which is not legal is a ParameterError", k == "raise" and isinstance(r, Err), (acc, opt, dflt, r))
    elif isinstance(v, T) and not is_ns(v) and (also is None or also(v)):
        h.cover("present")
        h.ensure("a legal value is returned as it is", k == "return" and same_value(h, r, v), (acc, v, r))
    else:
        h.cover("refused")
        h.ensure("an illegal value is a ParameterError", k == "raise" and isinstance(r, Err), (acc, opt, v, dflt, r))


@contract("C11.restricted", prove=False, covers=["in", "out"], scope="values -3..12", **OPTS)
def restricted(h):
    """accessors which restrict the value to a range, a list of options or an enumeration"""
    m = h.mod(PAR)
    rm = h.mod("vistautils.range")
    P, Err = m.Parameters, m.ParameterError
    how = h.choice("restriction", ["integer", "floating_point", "optional_floating_point", "string", "optional_string", "enum"])
    missing = h.bool("missing")
    dflt = None
    if how == "integer":
        lo = h.int("lo", small=(0, 2), wide=(-2, 6))
        v = h.int("value", small=(-1, 4), wide=(-3, 9))
        ok = lo <= v < lo + 3
        call = lambda p, **k: p.integer("p", valid_range=rm.Range.closed_open(lo, lo + 3), **k)  # noqa: E731
        dflt = h.int("default", small=(-1, 4), wide=(-3, 9))
        dok = lo <= dflt < lo + 3
    elif how in ("floating_point", "optional_floating_point"):
        lo = h.int("lo", small=(0, 2), wide=(-2, 6))
        v = float(h.int("value", small=(-1, 4), wide=(-3, 9)))
        ok = lo <= v <= lo + 3
        call = lambda p, **k: getattr(p, how)("p", rm.Range.closed(float(lo), lo + 3.0), **k)  # noqa: E731
        dflt = float(h.int("default", small=(-1, 4), wide=(-3, 9)))
        dok = lo <= dflt <= lo + 3
    elif how in ("string", "optional_string"):
        opts = [o for o in ("a", "b", "", " A") if h.bool("option")]
        v = h.choice("value", ["a", "b", "", "ab", "A", " A"])
        ok = v in opts
        given = h.choice("options as", ["list", "tuple", "set"])
        call = lambda p, **k: getattr(p, how)("p", {"list": list, "tuple": tuple, "set": set}[given](opts), **k)  # noqa: E731
        dflt = h.choice("default", ["a", "", "ab"])
        dok = dflt in opts or how == "optional_string"
    else:
        E = h.choice("enum", [Colour, Level])
        v = h.choice("value", ["a", "s", "b", "other_a", "", "A", " a"])
        ok = v in E.__members__
        call = lambda p, **k: p.enum("p", E, **k)  # noqa: E731
        dflt = h.choice("default", list(E))
        dok = True
    use_default = h.bool("use default")
    p = P.from_mapping({} if missing else {"p": v})
    k, r = h.outcome(lambda: call(p, default=dflt)) if use_default else h.outcome(lambda: call(p))
    if missing and not use_default:
        if how.startswith("optional"):
            h.ensure("absent: None", k == "return" and r is None, r)
        else:
            h.ensure("absent: a ParameterError", k == "raise" and isinstance(r, Err), r)
        return
    if missing:
        ok, v = dok, dflt
    elif how == "enum" and ok:
        v = E[v]
    h.cover("in" if ok else "out")
    if ok:
        h.ensure("a value within the restriction is returned", k == "return" and r == v and type(r) is type(v), (how, v, r))
    else:
        h.ensure("a value outside the restriction is a ParameterError", k == "raise" and isinstance(r, Err), (how, v, r))


@contract("C11.namespaces", prove=False, covers=["namespace", "leaf", "absent"], scope="as C11.get", **OPTS)
def namespaces(h):
    m = h.mod(PAR)
    P, Err = m.Parameters, m.ParameterError
    d = tree(h)
    p = P.from_mapping(d)
    comps = path(h)
    name = ".".join(comps)
    v = walk(d, comps)
    there = v is not ABSENT and v is not None
    k, r = h.outcome(p.namespace, name)
    k2, r2 = h.outcome(p.optional_namespace, name)
    k3, r3 = h.outcome(p.namespace_or_empty, name)
    if there and is_ns(v):
        h.cover("namespace")
        for kk, rr in ((k, r), (k2, r2), (k3, r3)):
            h.ensure("a namespace is returned with its content", kk == "return" and same_value(h, rr, v), rr)
            h.ensure("a namespace knows its path", rr.namespace_prefix == tuple(comps), rr)
        subs = r.sub_namespaces()
        want = [dict(x) for x in v.values() if is_ns(x)]
        h.ensure("the sub-namespaces are exactly the nested namespaces", sorted(repr(x.as_nested_dicts()) for x in subs) == sorted(map(repr, want)), subs)
        key = h.choice("key", KEYS)
        h.ensure("looking up in a namespace is looking up its path", (key in r) is (name + "." + key in p), (d, name, key))
    else:
        h.cover("leaf" if there else "absent")
        h.ensure("what is no namespace is a ParameterError", k == "raise" and isinstance(r, Err), r)
        h.ensure("optionally: None", k2 == "return" and r2 is None, r2)
        if there:
            h.ensure("a leaf is no empty namespace", k3 == "raise" and isinstance(r3, Err), r3)
        else:
            h.ensure("an absent namespace is empty, with its path", k3 == "return" and r3.as_nested_dicts() == {} and isinstance(r3, P) and ".".join(r3.namespace_prefix) == name, r3)


@contract("C11.exactly_one", prove=False, covers=["one", "none", "many"], scope="as C11.get, up to 3 names (random: 5)", **OPTS)
def exactly_one(h):
    m = h.mod(PAR)
    P, Err = m.Parameters, m.ParameterError
    d = tree(h, depth=1)
    p = P.from_mapping(d)
    names = []
    for i in range(h.size("names", 0, 3, 5)):
        c = path(h)
        if c not in names:
            names.append(c)
    n = sum(1 for c in names if walk(d, c) is not ABSENT and walk(d, c) is not None)
    h.cover({0: "none", 1: "one"}.get(n, "many"))
    k, r = h.outcome(p.assert_exactly_one_present, [".".join(c) for c in names])
    h.ensure("accepted iff exactly one of the names is present", (k == "return") == (n == 1), (d, names, r))
    h.ensure("otherwise a ParameterError", k == "return" or isinstance(r, Err), r)


@contract("C11.lookup", concrete=False, covers=["found", "absent", "default", "plain name"], **OPTS)
def lookup_proof(h):
    """a dotted name is looked up by following its components (for names and parameters of any size)"""
    P, Err = params_model(h), h.mod(PAR).ParameterError
    me = h.instance("parameters", P)
    name = h.string("name")
    comps, walk, good = lookup(h, me, name)
    optional = h.bool("optional")
    default = h.any("default")
    n = comps.n
    h.instantiate(0)

    def state(env, i):
        h.strings_in_lists(env)
        h.assume(i <= h.C.mkint(good))
        return {"current": h.A.SymAny(walk(i.t if hasattr(i, "t") else i))}

    def check(env, i, say):
        i = h.C.I(i)
        h.instantiate(i - 1)
        h.instantiate(i)
        say("where the components so far lead", h.And(h.same(h.var(env, "current"), h.A.SymAny(walk(i))), h.C.mkbool(i <= good)))

    h.invariant("parameters.Parameters._private_get#1", state, check)
    k, r = h.outcome(lambda: P._private_get(me, name, optional=optional, default=default))
    has, get = h.fn("P.has", "any", "any", "bool"), h.fn("P.get", "any", "any", "any")
    if "." not in name:
        h.cover("plain name")
        h.ensure("a name without a dot is looked up in the parameters themselves", h.iff(h.C.mkbool(good == n), h.C.mkbool(has(me.t, name.t))))
        h.ensure("a name without a dot leads to the value of that key", h.implies(h.C.mkbool(good == n), h.same(h.A.SymAny(walk(n)), h.A.SymAny(get(me.t, name.t)))))
    if h.C.mkbool(good == n):
        h.cover("found")
        h.ensure("the value the path leads to is returned", k == "return" and h.same(r, h.A.SymAny(walk(n))), r)
    elif h.Not(h.same(default, None)):
        h.cover("default")
        h.ensure("a name which leads nowhere gives the default", k == "return" and h.same(r, default), r)
    elif optional:
        h.ensure("optionally None", k == "return" and h.same(r, None), r)
    else:
        h.cover("absent")
        h.ensure("a name which leads nowhere is a ParameterError", k == "raise" and isinstance(r, Err), r)


@contract("C11.any_type", concrete=False, covers=["found", "nowhere", "null", "refused"], **OPTS)
def any_type_proof(h):
    """get, get_optional, `in`, has_namespace and the namespace accessors, for any type and default"""
    P, Err = params_model(h), h.mod(PAR).ParameterError
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    name = h.string("name")
    T = h.any("type")
    nowhere, v = find(me, name)
    default = h.any("default") if h.bool("with a default") else None
    no_default = h.same(default, None)
    which = h.choice("method", ["in", "has_namespace", "get", "get_optional", "namespace", "optional_namespace", "namespace_or_empty"])
    absent = h.Or(nowhere, h.same(v, None))
    space = h.And(h.Not(absent), h.is_a(v, P))
    if which == "in":
        h.ensure("a name is in the parameters iff its path leads to a value", h.iff(name in me, h.Not(absent)))
    elif which == "has_namespace":
        h.ensure("it is a namespace iff its path leads to one", h.iff(me.has_namespace(name), space))
    elif which in ("get", "namespace"):
        if which == "namespace":
            T, default, no_default = P, None, True
            k, r = h.outcome(lambda: me.namespace(name))
        elif default is None:
            k, r = h.outcome(lambda: me.get(name, T))
        else:
            k, r = h.outcome(lambda: me.get(name, T, default))
        given = h.ite(nowhere, default, v)
        if h.And(nowhere, no_default):
            h.cover("nowhere")
            h.ensure("an unknown parameter is a ParameterError", k == "raise" and isinstance(r, Err), r)
        elif h.is_a(given, T):
            h.cover("found")
            h.ensure("a parameter of the right type is returned as it is, whatever the default; an absent one has its default", k == "return" and h.same(r, given), r)
        else:
            h.cover("refused")
            h.ensure("a parameter of another type is a ParameterError", k == "raise" and isinstance(r, Err), r)
    elif which == "get_optional":
        k, r = h.outcome(lambda: me.get_optional(name, T) if default is None else me.get_optional(name, T, default=default))
        if absent:
            h.cover("null")
            h.ensure("an optional parameter which is absent has its default, or None", k == "return" and h.same(r, default), r)
        elif h.is_a(v, T):
            h.ensure("an optional parameter which is present is returned as it is", k == "return" and h.same(r, v), r)
        else:
            h.ensure("an optional parameter of another type is a ParameterError", k == "raise" and isinstance(r, Err), r)
    elif which == "optional_namespace":
        k, r = h.outcome(lambda: me.optional_namespace(name))
        if space:
            h.ensure("the namespace is returned", k == "return" and h.same(r, v), r)
        else:
            h.ensure("what is no namespace is None", k == "return" and h.same(r, None), r)
    else:
        k, r = h.outcome(lambda: me.namespace_or_empty(name))
        if space:
            h.ensure("the namespace is returned", k == "return" and h.same(r, v), r)
        elif absent:
            h.ensure("an absent namespace is empty", k == "return" and isinstance(r, P) and h.len(r._data.keys()) == 0, r)
            old = me.namespace_prefix
            h.ensure_sequence("and has its path", r.namespace_prefix, old.n + 1, lambda i: old.at(i.t) if i < h.C.mkint(old.n) else name)
        else:
            h.ensure("a leaf is no empty namespace", k == "raise" and isinstance(r, Err), r)


@contract("C11.typed", concrete=False, covers=["present", "default", "none", "refused"], **OPTS)
def typed_proof(h):
    """the typed accessors, for any parameters, name, value and default of the right type"""
    P, Err = params_model(h), h.mod(PAR).ParameterError
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    name = h.string("name")
    nowhere, v = find(me, name)
    acc = h.choice("accessor", sorted(ACCESSORS))
    T, also = ACCESSORS[acc]
    opt = h.bool("optional")
    default = h.instance("default", T) if h.bool("with a default") else None
    f = getattr(me, "optional_" + acc if opt else acc)
    k, r = h.outcome(lambda: f(name) if default is None else f(name, default=default))
    absent = h.Or(nowhere, h.same(v, None)) if opt else nowhere
    if absent:
        if default is None:
            if opt:
                h.cover("none")
                h.ensure("an optional parameter which is absent is None", k == "return" and h.same(r, None), (acc, r))
            else:
                h.ensure("a parameter which is absent is a ParameterError", k == "raise" and isinstance(r, Err), (acc, r))
        elif also is None or also(default):
            h.cover("default")
            h.ensure("a parameter which is absent has its default, falsy or not", k == "return" and h.same(r, default), (acc, r))
        else:
            h.ensure("a default which is not legal is a ParameterError", k == "raise" and isinstance(r, Err), (acc, r))
    elif h.is_a(v, T) and (also is None or also(v)):
        h.cover("present")
        h.ensure("a legal value is returned as it is", k == "return" and h.same(r, v), (acc, r))
    else:
        h.cover("refused")
        h.ensure("an illegal value is a ParameterError", k == "raise" and isinstance(r, Err), (acc, r))


class EnumModel:
    """an enumeration: the members by name (aliases included); E[name] is E.__members__[name]"""

    def __init__(self, members):
        self.__members__ = members

    def __getitem__(self, name):
        return self.__members__[name]

    def __iter__(self):
        raise RuntimeError("the canonical members leave aliases out")


@contract("C11.restricted_any", concrete=False, covers=["in", "out", "absent", "default"], **OPTS)
def restricted_proof(h):
    """restrictions: any range, any collection of options, any enumeration"""
    P, Err = params_model(h), h.mod(PAR).ParameterError
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    name = h.string("name")
    nowhere, v = find(me, name)
    how = h.choice("restriction", ["integer", "floating_point", "optional_floating_point", "string", "optional_string", "enum"])
    opt = how.startswith("optional")
    limits = h.any_list("options") if how.endswith("string") else h.any("limits")
    T = int if how == "integer" else float if how.endswith("point") else str
    if how == "enum":
        default = h.any("default") if h.bool("with a default") else None
        h.assume(h.Not(h.same(default, None)) if default is not None else True)
        members = h.any_map("members")
        call = lambda **k: me.enum(name, EnumModel(members), **k)  # noqa: E731
    else:
        if not how.endswith("string"):
            h.assume(h.And(h.Not(h.same(limits, None)), h.Not(h.is_a(limits, P))))
        default = h.instance("default", T) if h.bool("with a default") else None
        kw = {"integer": "valid_range", "floating_point": "valid_range", "optional_floating_point": "valid_range"}.get(how, "valid_options")
        call = lambda **k: getattr(me, how)(name, **{kw: limits}, **k)  # noqa: E731
    k, r = h.outcome(lambda: call(default=default) if default is not None else call())
    absent = h.Or(nowhere, h.same(v, None)) if opt or how == "enum" else nowhere
    if absent:
        if default is None:
            h.cover("absent")
            if opt:
                h.ensure("absent: None", k == "return" and h.same(r, None), r)
            else:
                h.ensure("absent: a ParameterError", k == "raise" and isinstance(r, Err), r)
            return
        h.cover("default")
        if how in ("enum", "optional_string") or default in limits:
            h.ensure("absent: the default", k == "return" and h.same(r, default), r)
        else:
            h.ensure("a default outside the restriction is a ParameterError", k == "raise" and isinstance(r, Err), r)
    elif h.is_a(v, T) and (v in members if how == "enum" else v in limits):
        h.cover("in")
        h.ensure("a value within the restriction is returned", k == "return" and h.same(r, members[v] if how == "enum" else v), r)
    else:
        h.cover("out")
        h.ensure("a value outside the restriction is a ParameterError", k == "raise" and isinstance(r, Err), r)


@contract("C11.one_of", concrete=False, covers=["one", "none", "many"], **OPTS)
def one_of_proof(h):
    """assert_exactly_one_present, for any number of names"""
    P, Err = params_model(h), h.mod(PAR).ParameterError
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    names = h.strings("names")
    there = lambda i: h.Not(h.Or(find(me, h.at(names, i))[0], h.same(find(me, h.at(names, i))[1], None)))  # noqa: E731
    k, r = h.outcome(lambda: me.assert_exactly_one_present(names))
    if k == "return":
        h.cover("one")
        i, j = h.position(names, "i"), h.position(names, "j")
        h.ensure("accepted only if one of the names is present", h.exists(h.len(names), there))
        h.ensure("accepted only if no two are", h.Not(h.And(h.Not(i == j), there(i), there(j))))
    else:
        h.ensure("otherwise a ParameterError", isinstance(r, Err), r)
        if h.forall(h.len(names), lambda i: h.Not(there(i))):
            h.cover("none")
        else:
            h.cover("many")
            h.ensure("if one name is present, refused only if another is", h.two(h.len(names), there))


@contract("C11.sub", concrete=False, covers=["namespace", "leaf"], **OPTS)
def sub_proof(h):
    """sub_namespaces, for parameters of any size (immutableset keeps the first of equal elements, in order)"""
    P = params_model(h)
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    h.patch(h.mod(PAR), "immutableset", lambda it: it)
    data = me._data

    def wanted(i):
        v = data.get_at(data.key_at(h.C.I(i)))
        if h.is_a(v, P):
            h.cover("namespace")
            return [v]
        h.cover("leaf")
        return []

    h.ensure_filtered("exactly the values which are namespaces", me.sub_namespaces(), h.C.mkint(data.n), wanted)
