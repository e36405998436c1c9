"""C13: conversions between nested dictionaries, key-value pairs and Parameters."""
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from collections.abc import Mapping  # noqa: E402

from params_common import KEYS, PAR, is_ns, params_model, plain, same_tree, tree  # noqa: E402

from pyvc.harness import contract  # noqa: E402

OPTS = dict(modules=["vistautils.range", PAR])


def flat(d, at=()):
    for k, v in d.items():
        if is_ns(v):
            yield from flat(v, at + (k,))
        else:
            yield at + (k,), v


def prune(d):
    """without empty namespaces"""
    out = {}
    for k, v in d.items():
        if is_ns(v):
            v = prune(v)
            if not v:
                continue
        out[k] = v
    return out


@contract("C13.mapping", prove=False, covers=["nested", "flat"], scope="dictionaries of depth 4 with up to 2 keys a level (random: 3)", rand=8000, **OPTS)
def mapping(h):
    P = h.mod(PAR).Parameters
    d = tree(h, depth=3)
    h.cover("nested" if any(is_ns(v) for v in d.values()) else "flat")
    import copy

    before = copy.deepcopy(d)
    p = P.from_mapping(d)
    out = p.as_nested_dicts()
    h.ensure("a mapping converted and converted back is unchanged", same_tree(out, before), (before, out))

    def dicts(x):
        if isinstance(x, dict):
            yield x
            for v in x.values():
                yield from dicts(v)

    h.ensure("nested plain dictionaries throughout", all(type(x) is dict for x in dicts(out)) and list(out) == list(before), out)
    for x in list(dicts(out)):
        x["added"] = 1
    for x in list(dicts(d)):
        x["added"] = 2
    h.ensure("later changes to either dictionary do not reach the parameters", same_tree(p.as_nested_dicts(), before), p)
    h.ensure("equal content, equal parameters", p == P.from_mapping(before) and hash(p) == hash(P.from_mapping(before)), p)
    items = list(p.namespaced_items())
    h.ensure("the namespaced items are exactly the leaves, by qualified name", [(".".join(k), v) for k, v in flat(before)] == items, items)
    back = P.from_key_value_pairs(items)
    h.ensure("parameters made of their items are the same but for empty namespaces", same_tree(plain(back), prune(before)), back)


@contract("C13.pairs", prove=False, covers=["nested", "repeated", "refused"], scope="up to 3 pairs (random: 6), names of up to 2 components (random: 7)", rand=8000, **OPTS)
def pairs(h):
    P = h.mod(PAR).Parameters
    sep = h.choice("separator", [".", "/", "::"])
    kv = []
    n = h.size("n", 0, 3, 6)
    for i in range(n):
        comps = [h.choice("component", KEYS + [" "]) for _ in range(h.size("components", 1, 2, 7))]
        kv.append((tuple(comps), i))
    bad = h.bool("an empty name")
    for a, _ in kv:
        for b, _ in kv:
            h.assume(a == b or a[: len(b)] != b)  # no name is a namespace of another
    given = [(sep.join(k), v) for k, v in kv]
    if bad:
        given.insert(h.size("at", 0, len(given)), ("", 1))
    as_iter = h.bool("as iterator")
    src = iter(given) if as_iter else given
    k, r = h.outcome(lambda: P.from_key_value_pairs(src) if sep == "." else P.from_key_value_pairs(src, namespace_separator=sep))
    if bad:
        h.cover("refused")
        h.ensure("an empty name is refused", k == "raise" and isinstance(r, RuntimeError), r)
        return
    want = {}
    for comps, v in kv:
        d = want
        for c in comps[:-1]:
            h.cover("nested")
            d = d.setdefault(c, {})
        if comps[-1] in d:
            h.cover("repeated")
        d[comps[-1]] = v
    h.ensure("each name leads to the last value given for it, and nothing else is there", k == "return" and plain(r) == want, (given, r))


@contract("C13.keys", prove=False, covers=["accepted", "refused"], scope="one or two levels", **OPTS)
def keys(h):
    """names containing the separator cannot be looked up, so they are refused at any level"""
    P = h.mod(PAR).Parameters
    key = h.text("key", "a.", 2, 5)
    d = {key: 1}
    for i in range(h.size("levels", 0, 2, 3)):
        d = {"n": d, "m": 3}
    k, r = h.outcome(P.from_mapping, d)
    h.cover("refused" if "." in key else "accepted")
    h.ensure("refused iff a key contains the separator", (k == "raise") == ("." in key), (d, r))
    h.ensure("refusal is a ValueError", k == "return" or isinstance(r, ValueError), r)
    other = h.choice("other", [None, 3, "s", [("a", 1)]])
    k, r = h.outcome(P.from_mapping, other)
    h.ensure("what is no mapping is refused with a TypeError", k == "raise" and isinstance(r, TypeError), r)


@contract("C13.from_level", concrete=False, covers=["made", "refused", "nested", "leaf"], **OPTS)
def from_level(h):
    """one level of a nested mapping made into parameters, nested mappings by the same contract"""
    P = params_model(h)
    A = h.A
    FROM, BAD = h.fn("from_mapping", "any", "any"), h.fn("from_mapping_refused", "any", "bool")
    real = P.from_mapping

    d = h.any_map("mapping", sample={})
    path = h.strings("path", distinct=False)

    def by_contract(mapping, *, namespace_prefix=()):
        h.ensure("the path of a nested namespace is one longer", h.length(namespace_prefix) == h.length(path) + 1)
        h.ensure("its last component is the namespace's name", h.same(d.get_at(A.any_term(namespace_prefix[-1])), mapping))
        i = h.int("component")
        if h.And(i >= 0, i < h.length(path)):
            h.ensure("it starts with the path given", h.same(namespace_prefix[i], path.at(h.C.I(i))))
        if h.C.mkbool(BAD(mapping.t)):
            raise ValueError("refused below")
        r = A.SymAny(FROM(mapping.t))
        h.assume(h.is_a(r, P))
        h.assume(h.Not(h.is_a(r, Mapping)))
        return r

    h.patch(P, "from_mapping", staticmethod(by_contract))
    k, r = h.outcome(lambda: real(d, namespace_prefix=path))
    key = h.string("key")

    def bad(key):
        v = d.get_at(key)
        return h.And(h.C.mkbool(d.has(key)), h.Or("." in h.MM.SymStr(key), h.And(h.is_a(v, Mapping), h.C.mkbool(BAD(v.t)))))

    if k == "raise":
        h.cover("refused")
        h.ensure("refusal is a ValueError", isinstance(r, ValueError), r)
        h.ensure("refused only if some key contains the separator, here or below", h.exists_key(d, bad))
        return
    h.cover("made")
    m = r._data
    m.has(key.t)
    h.ensure("made only if no key contains the separator", h.Not(bad(key.t)))
    h.ensure("exactly the keys of the mapping", h.iff(h.C.mkbool(m.has(key.t)), h.C.mkbool(d.has(key.t))))
    h.ensure_sequence("the path is the one given", r.namespace_prefix, path.n, lambda i: path.at(i.t))
    if h.C.mkbool(d.has(key.t)):
        v = d.get_at(key.t)
        if h.is_a(v, Mapping):
            h.cover("nested")
            h.ensure("a nested mapping becomes parameters", h.same(m.get_at(key.t), A.SymAny(FROM(v.t))))
        else:
            h.cover("leaf")
            h.ensure("any other value is kept", h.same(m.get_at(key.t), v))


@contract("C13.dict_level", concrete=False, covers=["nested", "leaf"], **OPTS)
def dict_level(h):
    """one level of parameters made into a dictionary, nested namespaces by the same contract"""
    P = params_model(h)
    A = h.A
    DICT = h.fn("as_nested_dicts", "any", "any")
    me = h.instance("parameters", P)

    def by_contract(data):
        if h.is_a(data, P):
            return A.SymAny(DICT(data.t))
        h.ensure("what is no namespace is no mapping", h.Not(h.is_a(data, Mapping)))
        return data

    h.recursive("parameters.Parameters.as_nested_dicts.dictify", by_contract)
    r = me.as_nested_dicts()
    h.ensure("a dictionary", isinstance(r, dict), r)
    key = h.string("key")
    d = me._data
    h.ensure("exactly the keys of the parameters", h.iff(key in r, key in d))
    if key in d:
        v = d[key]
        if h.is_a(v, P):
            h.cover("nested")
            h.ensure("a namespace becomes a dictionary", h.same(r[key], A.SymAny(DICT(v.t))))
        else:
            h.cover("leaf")
            h.ensure("any other value is kept", h.same(r[key], v))


@contract("C13.items", concrete=False, covers=["nested", "leaf", "prefix", "no prefix"], **OPTS)
def items(h):
    """the items of parameters of any size: those of nested namespaces by the same contract"""
    P = params_model(h)
    A, C, z3, MM = h.A, h.C, h.z3, h.MM
    me = h.instance("parameters", P)
    d, path = me._data, me.namespace_prefix
    LEN, NAME, VALUE = h.fn("items.number", "any", "int"), h.fn("items.name", "any", "int", "any"), h.fn("items.value", "any", "int", "any")
    real = P.namespaced_items

    def by_contract(self):
        t = A.any_term(self)
        h.ensure("only namespaces are asked for their items", h.is_a(self, P))
        C.cur().axiom(LEN(t) >= 0)

        def item(j):
            C.cur().axiom(MM.is_str(NAME(t, j)))
            return MM.SymStr(NAME(t, j)), A.SymAny(VALUE(t, j))

        return h.S.SymSeq(LEN(t), item)

    h.patch(P, "namespaced_items", by_contract)
    got = list(real(me)) if not h.symbolic else h.S.sym_list(real(me))

    def part(i):
        k = d.key_at(C.I(i))
        v = d.get_at(k)
        if h.is_a(v, P):
            h.cover("nested")
            return by_contract(v)
        h.cover("leaf")
        return h.S.SymSeq(z3.IntVal(1), lambda j: (MM.SymStr(k), v, "leaf"))

    def each(x, y):
        h.ensure("an item is a name and a value", isinstance(x, tuple) and len(x) == 2)
        h.ensure("its value", h.same(x[1], y[1]))
        text = h.T.SymText([("str", x[0])]) if isinstance(x[0], MM.SymStr) else x[0]
        if len(y) == 2:
            return h.ensure_text("its name", text, [("str", y[0])])
        some = h.length(path) > 0
        h.cover("prefix" if some else "no prefix")
        h.ensure_text("its name", text, [("join", ".", h.length(path), lambda i: [("str", path.at(C.I(i)))]), "." if some else "", ("str", y[0])])

    h.ensure_parts("the items of each key, in the order of the keys", got, C.mkint(d.n), part, each)
