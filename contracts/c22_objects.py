"""C22: objects described by parameters."""
import collections
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from params_common import PAR, fresh_modules, params_model, plain, private_get_by_contract  # noqa: E402

from pyvc.harness import contract  # noqa: E402

OPTS = dict(modules=["vistautils.range", "vistautils.misc_utils", PAR])


class Widget:
    """made by its from_parameters method"""

    def __init__(self, params="no parameters"):
        self.params = params

    @staticmethod
    def from_parameters(params):
        return Widget(params)


class SubWidget(Widget):
    pass


class Plain:
    """made without parameters"""

    params = None


def make(params):
    return SubWidget(params)


def make_number(params):
    return 0


CTX = {"SubWidget": SubWidget, "Widget": Widget, "Plain": Plain, "make": make, "make_number": make_number, "seven": 7, "zero": 0}
# expression -> value in CTX
EXPR = {"seven": 7, "zero": 0, "seven + 1": 8, "Widget": Widget, "Plain()": Plain, "'text'": "text", "[seven]": [7], "collections.OrderedDict": collections.OrderedDict, "nowhere": NameError, "1/0": ZeroDivisionError, "None": None, "vt_z.deep.er.and_.deeper.s.t.u.one": 1}
# what needs several modules imported
SEVERAL = "vt_z.one + vt_k.one + vt_a.one"
# factory -> (type of what it makes, gets parameters)
FACT = {"SubWidget": (Widget, True), "Widget": (Widget, True), "Plain": (Plain, False), "make": (SubWidget, True), "make_number": (int, True), "seven": (None, False)}


def fits(want, T):
    """whether the value of an expression is of the expected type; Plain stands for an instance"""
    return T is object if want is Plain else isinstance(want, T)


TYPES = [object, Widget, SubWidget, int, str]


def wrap(h, d, comps):
    for c in reversed(comps):
        d = {c: d, "other": 1}
    return d


def check_made(h, k, r, factory, T, namespace, path, m):
    made, gets = FACT[factory]
    if made is None:
        h.cover("no factory")
        h.ensure("what is neither class nor function is no factory", k == "raise" and isinstance(r, m.ParameterError), r)
    elif not issubclass(made, T):
        h.cover("wrong type")
        h.ensure("an object of another type is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), (factory, T, r))
    else:
        h.cover("factory")
        h.ensure("the factory makes the object", k == "return" and type(r) is made, (factory, r))
        if made in (Widget, SubWidget):
            p = r.params
            h.ensure("the factory gets the parameters of the namespace", isinstance(p, m.Parameters) and plain(p) == namespace, (p, namespace))
            h.ensure("these parameters know their path", p.namespace_prefix == path, (p.namespace_prefix, path))


@contract("C22.object", prove=False, covers=["value", "factory", "no factory", "wrong type", "default value", "default factory", "special value", "special factory", "ambiguous", "nothing", "imported"], scope="every combination of value, factory and default from a pool, one or two levels deep", runs=30000, rand=15000, **OPTS)
def objects(h):
    m = h.mod(PAR)
    fresh_modules()
    T = h.choice("expected type", TYPES)
    path = h.choice("path", [("w",), ("n", "w"), ("long", "n", "w")])
    name = ".".join(path)
    form = h.choice("form", ["absent", "string", "namespace"])
    kw = {}
    sv, sf = h.bool("special values"), h.bool("special factories")
    ctx = dict(CTX)
    vname, fname = "value", "factory"
    if h.bool("own names"):
        vname, fname = "v", "type"
        kw.update(value_namespace_param_name="v", factory_namespace_param_name="type")
    call = lambda p, n: p.object_from_parameters(n, T, context=ctx, **kw)  # noqa: E731
    if form == "absent":
        dv = h.choice("default value", [None, 7, 0, "", Widget, "x"])
        df = h.choice("default factory", [None, "Widget", "Plain", "make", "make_number", "SubWidget"])
        if dv is not None:
            kw["default_value"] = dv
        if df is not None:
            kw["default_factory"] = CTX[df]
        # the parameter may be missing at any level
        lvl = h.size("levels there", 0, len(path) - 1)
        k, r = h.outcome(call, m.Parameters.from_mapping(wrap(h, {"x": 1}, path[:lvl])), name)
        if dv is not None:
            h.cover("default value")
            if isinstance(dv, T):
                h.ensure("the default value, falsy or not", k == "return" and r is dv, (dv, r))
            else:
                h.ensure("a default of another type is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
        elif df is not None:
            h.cover("default factory")
            check_made(h, k, r, df, T, {}, (name,), m)
        else:
            h.cover("nothing")
            h.ensure("nothing at all is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
        return
    if h.bool("irrelevant defaults"):
        kw["default_value"] = Widget("default")
        kw["default_factory"] = Plain
    if form == "string":
        e = h.choice("expression", sorted(EXPR) + ["special", "spfactory", "7"])
        special = {"special": h.choice("special value", [7, 0, "s", Widget])}
        fac = h.choice("special factory", ["Widget", "make", "Plain"])
        if sv:
            kw["special_values"] = special
        if sf:
            kw["special_factories"] = {"spfactory": CTX[fac]}
        k, r = h.outcome(call, m.Parameters.from_mapping(wrap(h, e, path)), name)
        if e == "special" and sv:
            h.cover("special value")
            want = special[e]
            if isinstance(want, T):
                h.ensure("the special value of that name", k == "return" and r is want, (want, r))
            else:
                h.ensure("a value of another type is refused", k == "raise", r)
        elif e == "spfactory" and sf:
            h.cover("special factory")
            check_made(h, k, r, fac, T, {}, (name,), m)
        elif e in ("special", "spfactory"):
            h.ensure("an unknown name is refused", k == "raise", r)
        else:
            want = 7 if e == "7" else EXPR[e]
            if want in (NameError, ZeroDivisionError):
                h.ensure("an expression which fails is refused", k == "raise", r)
            elif fits(want, T):
                h.cover("imported" if "." in e else "value")
                h.ensure("the value of the expression", k == "return" and (r == want or (want is Plain and type(r) is Plain)), (e, r))
            else:
                h.cover("wrong type")
                h.ensure("a value of another type is refused", k == "raise", (e, T, r))
        return
    ns = {"x": 5}
    has_v, has_f = h.bool("has value"), h.bool("has factory")
    ev = h.choice("value expression", sorted(EXPR) + ["special", SEVERAL])
    ef = h.choice("factory expression", sorted(FACT) + ["special"])
    if has_v:
        ns[vname] = ev
    if has_f:
        ns[fname] = ef
    imp = h.bool("import")
    if imp:
        ns["import"] = ["collections", "vt_z", "vt_k", "vt_a"]
    if sv:
        kw["special_values"] = {"special": "seven"}
    if sf:
        kw["special_factories"] = {"special": "Widget"}
    k, r = h.outcome(call, m.Parameters.from_mapping(wrap(h, ns, path)), name)
    if has_v == has_f:
        h.cover("ambiguous")
        h.ensure("neither or both of value and factory are a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
        return
    if has_f:
        if ef == "special" and not sf:
            h.ensure("an unknown factory is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
            return
        if ef == "special":
            h.cover("special factory")
        check_made(h, k, r, "Widget" if ef == "special" else ef, T, ns, path, m)
        return
    if ev == "special":
        want = 7 if sv else NameError
        if sv:
            h.cover("special value")
    elif ev == SEVERAL:
        want = 3 if imp else NameError
    else:
        want = EXPR[ev]
    if ev.startswith("collections") and not imp:
        want = NameError
    if ev.startswith("vt_z.deep"):
        if imp:
            return  # only the package itself is imported
        want = NameError
    if want in (NameError, ZeroDivisionError):
        h.ensure("an expression which fails is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
    elif fits(want, T):
        h.cover("value")
        h.ensure("the value of the expression", k == "return" and (r == want or (want is Plain and type(r) is Plain)), (ev, r))
    else:
        h.cover("wrong type")
        h.ensure("a value of another type is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), (ev, T, r))


@contract("C22.evaluate", prove=False, covers=["value", "default", "none", "refused", "special"], scope="every combination from a pool, one or two levels deep", runs=30000, rand=10000, **OPTS)
def evaluate(h):
    m = h.mod(PAR)
    fresh_modules()
    T = h.choice("expected type", [object, int, str, type])
    path = h.choice("path", [("w",), ("n", "w")])
    name = ".".join(path)
    form = h.choice("form", ["absent", "string", "namespace", "number", "namespace without value"])
    opt = h.bool("optional")
    e = h.choice("expression", sorted(EXPR) + ["special", " special ", SEVERAL, "expected_type"])
    special = h.bool("special values")
    kw = {"special_values": {"special": "3 + 4"}} if special else {}
    vname = "value"
    if h.bool("own name"):
        vname = kw["namespace_param_name"] = "v"
    dflt = None
    if not opt and h.bool("default"):
        dflt = kw["default"] = h.choice("the default", [7, 0, ""])
    imp = h.bool("import")
    ns = {vname: e, "x": 1}
    if imp:
        ns["import"] = ["collections", "vt_z", "vt_k", "os.path", "vt_a", "vt_z.deep.er.and_.deeper.s.t.u"]
    d = {"absent": {}, "string": {path[-1]: e}, "number": {path[-1]: 3}, "namespace": {path[-1]: ns}, "namespace without value": {path[-1]: {"x": 1}}}[form]
    p = m.Parameters.from_mapping(wrap(h, d, path[:-1]))
    ctx = dict(CTX)
    k, r = h.outcome(lambda: p.optional_evaluate(name, T, **kw) if opt else p.evaluate(name, T, context=ctx, **kw))
    h.ensure("the context is not changed", ctx == CTX, sorted(ctx)[:9])
    if form == "absent":
        if opt:
            h.cover("none")
            h.ensure("an optional value which is absent is None", k == "return" and r is None, r)
        elif dflt is not None:
            h.cover("default")
            h.ensure("an absent value has its default, falsy or not", k == "return" and r is dflt, (dflt, r))
        else:
            h.ensure("an absent value is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
        return
    if e == "special":
        want = 7 if special else NameError
        if special:
            h.cover("special")
    elif e in (" special ", "expected_type"):
        if opt and e == "expected_type":
            return  # there is no context, and so what is known is not settled
        want = NameError
    elif e == SEVERAL:
        want = 3 if form == "namespace" and imp else NameError
    else:
        want = EXPR[e]
        if opt and e not in ("'text'", "None", "collections.OrderedDict", "1/0", "vt_z.deep.er.and_.deeper.s.t.u.one"):
            want = NameError  # evaluated without the context
    if (e.startswith("collections") or e.startswith("vt_z.deep")) and form == "namespace" and not imp:
        want = NameError
    if form in ("number", "namespace without value") or want in (NameError, ZeroDivisionError) or not fits(want, T):
        h.cover("refused")
        h.ensure("what does not evaluate to the expected type is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), (form, e, T, r))
    else:
        h.cover("value")
        h.ensure("the value of the expression", k == "return" and (r == want or (want is Plain and type(r) is Plain)), (form, e, r))


def factories(h, what, made, got):
    """a factory of one of the four kinds, which notes what it is given"""
    class WithMethod:
        @staticmethod
        def from_parameters(params):
            got.append(params)
            return made

    class Without:
        def __new__(cls):
            got.append(None)
            return made

    def function(params):
        got.append(params)
        return made

    kinds = {"class with from_parameters": WithMethod, "class without": Without, "function": function, "neither": 7}
    kind = h.choice(what, sorted(kinds))
    return kind, kinds[kind]


@contract("C22.built", concrete=False, covers=["value", "factory", "ambiguous", "special value", "special factory", "evaluated", "default value", "default factory", "nothing", "wrong type", "no factory", "refused"], **OPTS)
def built(h):
    """any parameters, expressions, special names and defaults, over the contracts of lookup and evaluation"""
    m = h.mod(PAR)
    P, Err = params_model(h), m.ParameterError
    A, C = h.A, h.C
    B = C.mkbool
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    name = h.string("name")
    T = h.any("expected type")
    made, value = h.any("object made"), h.any("value of the expression")
    got = []
    kind, factory = factories(h, "kind of factory", made, got)
    evaluated, failed = [], []
    own = h.choice("own names", [False, True])
    vname, fname = (h.string("name of the value"), h.string("name of the factory")) if own else ("value", "factory")
    if own:
        h.assume(h.Not(vname == fname))
    form = h.choice("form", ["absent", "string", "namespace", "other"])
    nowhere, v = find(me, name)
    absent = h.Or(nowhere, h.same(v, None))
    space = h.And(h.Not(absent), h.is_a(v, P))
    is_str = h.And(h.Not(absent), h.Not(h.is_a(v, P)), h.is_a(v, str))
    h.assume({"absent": absent, "namespace": space, "string": is_str, "other": h.And(h.Not(absent), h.Not(h.is_a(v, P)), h.Not(h.is_a(v, str)))}[form])

    def evaluate(self, n, expected, *, context=None, namespace_param_name="value", special_values=None):
        h.ensure("the parameter named is the one evaluated", h.And(h.same(self, me), n == name))
        evaluated.append((namespace_param_name, special_values, context))
        if expected is not object:
            raise C.Unsupported("an expected type")
        if h.choice("evaluation fails", [False, True]):
            failed.append(1)
            raise Err("failing expression")
        return factory if B(A.any_term(namespace_param_name) == A.any_term(fname)) else value

    MODULES = h.fn("modules_of", "any", "any")

    def in_context(text, context, *, context_modules, expected_type):
        evaluated.append((text, context, context_modules, expected_type))
        if h.choice("evaluation fails", [False, True]):
            failed.append(1)
            raise NameError("failing expression")
        if not h.is_a(value, expected_type):
            raise TypeError("another type")
        return value

    h.patch(P, "evaluate", evaluate)
    h.patch(m, "eval_in_context_of_modules", in_context)
    h.patch(P, "_context_modules_from_prefix", staticmethod(lambda text: A.SymAny(MODULES(A.any_term(text)))))
    ctx = {"a": 1}
    kw = {}
    if own:
        kw.update(value_namespace_param_name=vname, factory_namespace_param_name=fname)
    with_ctx = h.choice("context given", [True, False])
    if with_ctx:
        kw["context"] = ctx
    sv = sf = None
    if form in ("string", "namespace"):
        sv, sf = h.any_map("special values"), h.any_map("special factories", lambda k: factory)
        kw.update(special_values=sv, special_factories=sf)
    dv = h.any("default value") if h.choice("default value given", [True, False]) else None
    if dv is not None:
        h.assume(h.Not(h.same(dv, None)))
        kw["default_value"] = dv
    df = h.choice("default factory given", [True, False]) if form == "absent" else False
    if df:
        kw["default_factory"] = factory
    k, r = h.outcome(lambda: me.object_from_parameters(name, T, **kw))

    def validated(x, what):
        if h.is_a(x, T):
            h.cover(what)
            h.ensure(what + ": is the object", k == "return" and h.same(r, x), r)
        else:
            h.cover("wrong type")
            h.ensure(what + ": an object of another type is a ParameterError", k == "raise" and isinstance(r, Err), r)

    def from_factory(space, what):
        if kind == "neither":
            h.cover("no factory")
            h.ensure(what + ": what is neither class nor function is a ParameterError", k == "raise" and isinstance(r, Err) and not got, r)
            return
        h.ensure(what + ": the factory is called once", len(got) == 1, got)
        validated(made, what)
        if kind == "class without":
            return
        if space is not None:
            h.ensure(what + ": gets the namespace", h.same(got[0], space))
        else:
            h.ensure(what + ": gets empty parameters", isinstance(got[0], P) and h.len(got[0]._data.keys()) == 0, got)
            old = me.namespace_prefix
            h.ensure_sequence(what + ": which have their path", got[0].namespace_prefix, old.n + 1, lambda i: old.at(i.t) if i < C.mkint(old.n) else name)

    def expression(which, specials):
        h.ensure("evaluated once, by its name in the namespace, with its special names, in the context given", len(evaluated) == 1)
        n, special, context = evaluated[0]
        h.ensure("by its name in the namespace", B(A.any_term(n) == A.any_term(which)))
        h.ensure("with its special names", special is specials)
        h.ensure("in the context given", context is ctx if with_ctx else not context)

    if form == "absent":
        h.ensure("nothing is evaluated", not evaluated)
        if dv is not None:
            validated(dv, "default value")
            h.ensure("no factory is called", not got)
        elif df:
            from_factory(None, "default factory")
        else:
            h.cover("nothing")
            h.ensure("nothing at all is a ParameterError", k == "raise" and isinstance(r, Err), r)
    elif form == "other":
        h.cover("refused")
        h.ensure("what is neither namespace nor string is a ParameterError", k == "raise" and isinstance(r, Err) and not got and not evaluated, r)
    elif form == "string":
        text = h.MM.SymStr(v.t)
        if text in sv:
            validated(sv[text], "special value")
            h.ensure("nothing is evaluated", not evaluated and not got)
        elif text in sf:
            h.ensure("nothing is evaluated", not evaluated)
            from_factory(None, "special factory")
        else:
            h.ensure("any other text is evaluated once", len(evaluated) == 1 and not got)
            t, context, modules, expected = evaluated[0]
            h.ensure("with the modules its name needs", h.And(B(A.any_term(t) == v.t), B(A.any_term(modules) == MODULES(v.t))))
            h.ensure("in the context given", context == ctx if with_ctx else True)
            if failed or not h.is_a(value, T):
                h.ensure("a failing expression, or one of another type, is refused", k == "raise", r)
            else:
                h.cover("evaluated")
                h.ensure("the value of the expression is the object", k == "return" and h.same(r, value), r)
        h.ensure("the context is as it was", ctx == {"a": 1})
    else:
        there = lambda n: h.Not(h.Or(find(v, n)[0], h.same(find(v, n)[1], None)))  # noqa: E731
        hv, hf = there(vname), there(fname)
        if h.iff(hv, hf):
            h.cover("ambiguous")
            h.ensure("neither or both of value and factory are a ParameterError", k == "raise" and isinstance(r, Err) and not evaluated and not got, r)
        elif failed:
            h.cover("refused")
            h.ensure("a failing expression is a ParameterError", k == "raise" and isinstance(r, Err) and not got, r)
        elif hv:
            expression(vname, sv)
            h.ensure("no factory is called", not got)
            validated(value, "value")
        else:
            expression(fname, sf)
            from_factory(v, "factory")


@contract("C22.evaluated", concrete=False, covers=["value", "imports", "special", "default", "none", "refused", "namespace"], **OPTS)
def evaluated(h):
    """any parameters, names, expressions and special names, over the contracts of lookup and evaluation"""
    from typing import List

    m = h.mod(PAR)
    P, Err = params_model(h), m.ParameterError
    A, C = h.A, h.C
    B = C.mkbool
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    name = h.string("name")
    T = h.any("expected type")
    value = h.any("value of the expression")
    calls, failed = [], []
    MODULES = h.fn("modules_of", "any", "any")

    def in_context(text, context, *, context_modules, expected_type):
        calls.append((text, context, context_modules))
        if h.choice("evaluation fails", [False, True]):
            failed.append(1)
            raise NameError("failing expression")
        if not h.is_a(value, expected_type):
            raise TypeError("another type")
        return value

    h.patch(m, "eval_in_context_of_modules", in_context)
    h.patch(P, "_context_modules_from_prefix", staticmethod(lambda text: A.SymAny(MODULES(A.any_term(text)))))
    opt = h.choice("optional", [False, True])
    kw = {}
    vname = "value"
    if h.choice("own name", [False, True]):
        vname = kw["namespace_param_name"] = h.string("name of the value")
        h.assume(h.Not(vname == "import"))
    specials = None
    if h.choice("special names", [False, True]):
        specials = kw["special_values"] = h.any_map("special values", lambda k: h.MM.SymStr(h.fn("special", "any", "any")(k)))
    import inspect

    for f in map(inspect.unwrap, (P.evaluate, P.optional_evaluate)):  # an empty mapping which can be asked for any string
        if len(f.__kwdefaults__["special_values"]) == 0:
            h.patch(f, "__kwdefaults__", dict(f.__kwdefaults__, special_values=h.MM.from_dict({})))
    default = None
    ctx = {"a": 1}
    if not opt:
        if h.choice("default given", [False, True]):
            default = kw["default"] = h.any("default")
            h.assume(h.Not(h.same(default, None)))
        if h.choice("context given", [False, True]):
            kw["context"] = ctx
    nowhere, v = find(me, name)
    if not (hasattr(P, "__len__") or hasattr(P, "__bool__")):
        h.assume(h.implies(h.is_a(v, P), h.truthy(v)))
    k, r = h.outcome(lambda: (me.optional_evaluate if opt else me.evaluate)(name, T, **kw))
    h.ensure("the context is as it was", ctx == {"a": 1})
    if k == "raise":
        h.ensure("refusal is a ParameterError", isinstance(r, Err), r)
    if h.Or(nowhere, h.same(v, None)):
        h.ensure("nothing is evaluated if the parameter is absent", not calls)
        if opt:
            h.cover("none")
            h.ensure("optional: None", k == "return" and h.same(r, None), r)
        elif default is not None:
            h.cover("default")
            h.ensure("the default, falsy or not", k == "return" and h.same(r, default), r)
        else:
            h.ensure("no value and no default: refused", k == "raise", r)
        return
    modules = None
    if h.is_a(v, P):
        h.cover("namespace")
        n, t = find(v, vname)
        no, imports = find(v, "import")
        none = h.Or(no, h.same(imports, None))
        legal = h.And(h.Not(n), h.is_a(t, str), h.Or(none, h.is_a(imports, List)))
    else:
        t = v
        none = False
        legal = h.is_a(v, str)
        modules = MODULES(v.t)
    if h.Not(legal):
        h.cover("refused")
        h.ensure("what is no expression is refused", k == "raise" and not calls, r)
        return
    h.ensure("evaluated once", len(calls) == 1)
    text, context, given = calls[0]
    want = t
    if specials is not None and B(specials.has(t.t)):
        h.cover("special")
        want = specials.get_at(t.t)
    h.ensure("the expression of the parameter, or what its special name stands for", B(A.any_term(text) == A.any_term(want)))
    if modules is not None:
        h.ensure("with the modules its name needs", B(A.any_term(given) == modules))
    elif none:
        h.ensure("with no modules if none are given", h.Not(h.truthy(given)))
    else:
        h.cover("imports")
        h.ensure("with the modules to import", h.same(given, imports) if h.truthy(imports) else h.Not(h.truthy(given)))
    if "context" in kw:
        h.ensure("in the context given", context == ctx)
    if failed or not h.is_a(value, T):
        h.ensure("a failing expression, or one of another type, is refused", k == "raise", r)
    else:
        h.cover("value")
        h.ensure("the value of the expression", k == "return" and h.same(r, value), r)


@contract("C22.modules", concrete=False, covers=["some", "none"], **OPTS)
def modules(h):
    """any name: one module for each of its prefixes before the last point, in the order they have to be imported"""
    P = h.mod(PAR).Parameters
    text = h.string("name")
    parts = text.split(".")
    n = h.len(parts) - 1
    r = P._context_modules_from_prefix(text)
    if "." in text:
        h.cover("some")
    else:
        h.cover("none")
        h.ensure("a plain name needs no module", h.Not(h.truthy(r)))

    def each(got, i):
        h.ensure_text("each is the first parts of the name", got, [("join", ".", i + 1, lambda j: [("str", parts[j])])])

    h.ensure_sequence("one for each point in the name", h.items(r), n, None, each=each)
