"""Nested parameter dictionaries for the contracts on Parameters, and what they mean."""
import importlib.util
import sys

PAR = "vistautils.parameters"
KEYS = ["a", "b", "c", "ab"]
LEAVES = ["s", 7, 1.5, True, None, "", 0, 0.0, False, [], ["x", 1], "a", -3, "x.y"]
ABSENT = object()


def tree(h, name="t", depth=2, hi=2, wide=3, leaves=LEAVES, keys=KEYS, null=True):
    """an arbitrary nested dictionary"""
    out = {}
    n = h.size(name + ".n", 0, hi, wide)
    for i in range(n):
        k = h.choice(name + ".key", keys)
        if k in out:
            continue
        if depth > 0 and h.bool(name + ".namespace"):
            out[k] = tree(h, name + "." + k, depth - 1, hi, wide, leaves, keys, null)
        else:
            v = h.choice(name + ".value", leaves if null else [x for x in leaves if x is not None])
            out[k] = list(v) if isinstance(v, list) else v
    if name == "t":
        for _ in range(h.size(name + ".levels above", 0, 0, 4)):
            out = {h.choice(name + ".key above", keys): out}
    return out


def path(h, name="path", hi=2, wide=4, keys=KEYS):
    n = h.size(name + ".length", 1, hi, wide)
    return [h.choice(name, keys) for _ in range(n)]


def walk(d, comps):
    for c in comps:
        if not isinstance(d, dict) or c not in d:
            return ABSENT
        d = d[c]
    return d


def is_ns(v):
    return isinstance(v, dict)


def same_value(h, got, want):
    """the value of a parameter is the one given, or for a namespace Parameters with the same content"""
    P = h.mod(PAR).Parameters
    if is_ns(want):
        return isinstance(got, P) and plain(got) == want and typed(plain(got)) == typed(want)
    return type(got) is type(want) and got == want


def plain(p):
    return p.as_nested_dicts()


def typed(d):
    """distinguishes 1, 1.0 and True"""
    if isinstance(d, dict):
        return {k: typed(v) for k, v in d.items()}
    if isinstance(d, list):
        return [typed(v) for v in d]
    return (type(d).__name__, d)


def same_tree(a, b):
    return a == b and typed(a) == typed(b)


# ------------------------------------------------------------------ Parameters of any size (proofs)
def params_model(h):
    """Parameters as an object of two fields: a mapping from strings without a dot, and a path.  Its
    values are arbitrary, but none is a mapping other than Parameters (what from_mapping makes of any
    nested mapping); Parameters is no Mapping."""
    from collections.abc import Mapping

    from pyvc import anymodels as A
    from pyvc import mapmodels as MM

    z3 = h.z3
    P = h.mod(PAR).Parameters
    from immutablecollections import immutabledict

    real = immutabledict()

    def data(t):
        def facts(o, k):
            v = DATA_GET(o, k)
            A._class_facts(v, Mapping)
            A._class_facts(v, P)
            h.C.cur().axiom(z3.Not(A.INST(v, A.const(Mapping))))
            return [MM.is_str(k), z3.Not(MM.STR_IN(k, A.const(".")))]

        return MM.term_map("P", t, facts=facts, sample=real)

    DATA_GET = z3.Function("P.get", A.ANY, A.ANY, A.ANY)
    N = z3.Function("P.prefix_n", A.ANY, z3.IntSort())
    AT = z3.Function("P.prefix_at", A.ANY, z3.IntSort(), A.ANY)

    def prefix(t):
        h.C.cur().axiom(N(t) >= 0)
        return A.SymTuple(N(t), lambda i: MM.SymStr(AT(t, i)))

    h.model_class(P, {"_data": data, "namespace_prefix": prefix})
    return P


def lookup(h, me, name):
    """the meaning of a dotted name: whether the path leads nowhere, and what it leads to.  WALK(j) is
    where the first j components lead; GOOD, the length of the longest path of namespaces with the keys."""
    from pyvc import anymodels as A

    z3 = h.z3
    P = h.mod(PAR).Parameters
    comps = name.split(".")
    WALK = z3.Function("walk", A.ANY, A.ANY, z3.IntSort(), A.ANY)
    GOOD = z3.Function("good", A.ANY, A.ANY, z3.IntSort())
    has = z3.Function("P.has", A.ANY, A.ANY, z3.BoolSort())
    get = z3.Function("P.get", A.ANY, A.ANY, A.ANY)
    n, g = comps.n, GOOD(me.t, name.t)
    walk = lambda i: WALK(me.t, name.t, i)  # noqa: E731

    def step(i):
        """the step from what the first i components lead to"""
        w, c = walk(i), comps.at(i).t
        return z3.And(A.INST(w, A.const(P)), has(w, c)), get(w, c)

    def facts(i):
        ok, to = step(i)
        return z3.And(
            z3.Implies(z3.And(i >= 0, i < n, i < g), z3.And(ok, walk(i + 1) == to)),
            z3.Implies(z3.And(i >= 0, i < n, i == g), z3.Not(ok)),
        )

    h.assume(h.C.mkbool(z3.And(walk(0) == me.t, g >= 0, g <= n)))
    h.always(facts)
    return comps, walk, g


def private_get_by_contract(h):
    """what C11.lookup proves of _private_get: (nowhere, value) as functions of parameters and name"""
    from pyvc import anymodels as A
    from pyvc import mapmodels as MM

    P, Err = h.mod(PAR).Parameters, h.mod(PAR).ParameterError
    NOWHERE = h.fn("lookup_nowhere", "any", "any", "bool")
    VALUE = h.fn("lookup_value", "any", "any", "any")

    def private_get(self, param_name, *, optional=False, default=None):
        if not h.C.call_merged(lambda: h.is_a(param_name, str)):
            raise ValueError("")
        nowhere, value = find(self, param_name)
        if not nowhere:
            return value
        if default is not None if not isinstance(default, A.SymAny) else h.Not(h.same(default, None)):
            return default
        if optional:
            return None
        raise Err("")

    h.patch(P, "_private_get", private_get)

    def find(me, name):
        n = A.any_term(name)
        top = h.fn("P.has", "any", "any", "bool")(me.t, n)
        plain = h.z3.Not(MM.STR_IN(n, A.const(".")))
        h.C.cur().axiom(h.z3.Implies(plain, NOWHERE(me.t, n) == h.z3.Not(top)))
        h.C.cur().axiom(h.z3.Implies(h.z3.And(plain, top), VALUE(me.t, n) == h.fn("P.get", "any", "any", "any")(me.t, n)))
        return h.C.mkbool(NOWHERE(me.t, n)), A.SymAny(VALUE(me.t, n))

    return find


MODULES = {"vt_z": True, "vt_k": False, "vt_a": False, "vt_z.deep": True, "vt_z.deep.er": True, "vt_z.deep.er.and_": True, "vt_z.deep.er.and_.deeper": True, "vt_z.deep.er.and_.deeper.s": True, "vt_z.deep.er.and_.deeper.s.t": True, "vt_z.deep.er.and_.deeper.s.t.u": False}


class Finder:
    """modules which exist only here: each holds the number one"""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in MODULES:
            return importlib.util.spec_from_loader(name, Finder, is_package=MODULES[name])
        return None

    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(module):
        module.one = 1


def fresh_modules():
    """none of them has been imported"""
    for name in MODULES:
        sys.modules.pop(name, None)
    if Finder not in sys.meta_path:
        sys.meta_path.append(Finder)
