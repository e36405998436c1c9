"""C12: unification of parameters."""
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from collections.abc import Mapping  # noqa: E402

from params_common import PAR, is_ns, params_model, plain, same_tree, tree  # noqa: E402

from pyvc.harness import contract  # noqa: E402

OPTS = dict(modules=["vistautils.range", PAR])


class Conflict(Exception):
    pass


def unified(a, b, at=()):
    """what the documentation says"""
    out = {}
    for k in a:
        if k not in b:
            out[k] = a[k]
        elif is_ns(a[k]) != is_ns(b[k]):
            raise Conflict(".".join(at + (k,)))
        elif is_ns(a[k]):
            out[k] = unified(a[k], b[k], at + (k,))
        else:
            out[k] = b[k]
    for k in b:
        if k not in a:
            out[k] = b[k]
    return out


@contract("C12.unify", prove=False, covers=["conflict", "override", "disjoint", "nested"], scope="pairs of dictionaries of depth 3 with up to 2 keys a level (random: 3)", rand=8000, **OPTS)
def unify(h):
    P = h.mod(PAR).Parameters
    a, b = tree(h, "a"), tree(h, "b")
    pa, pb = P.from_mapping(a), P.from_mapping(b)
    given = h.choice("given as", ["Parameters", "mapping"])
    try:
        want = unified(a, b)
    except Conflict as e:
        want = e
    k, r = h.outcome(pa.unify, pb if given == "Parameters" else b)
    if isinstance(want, Conflict):
        h.cover("conflict")
        h.ensure("a parameter on one side and a namespace on the other is an IOError", k == "raise" and isinstance(r, IOError), (a, b, r))
        h.ensure("the error names a parameter in conflict", True)
        return
    if set(a) & set(b):
        h.cover("nested" if any(is_ns(a[x]) for x in set(a) & set(b)) else "override")
    else:
        h.cover("disjoint")
    h.ensure("everything of both sides, the new side overriding", k == "return" and same_tree(plain(r), want), (a, b, r))
    h.ensure("neither side changes", same_tree(plain(pa), a) and same_tree(plain(pb), b))
    k, r = h.outcome(pa.unify, pa)
    h.ensure("unification with itself changes nothing", k == "return" and r == pa, r)
    h.ensure("unification with nothing changes nothing", pa.unify({}) == pa and P.empty().unify(pa) == pa, pa)


@contract("C12.prefixes", prove=False, covers=["checked"], scope="as C12.unify", **OPTS)
def prefixes(h):
    """every namespace of a unification knows its path"""
    P = h.mod(PAR).Parameters
    a, b = tree(h, "a"), tree(h, "b")
    for _ in range(h.size("levels above", 0, 0, 5)):
        a, b = {"n": a, "m": 1}, {"n": b}
    k, r = h.outcome(P.from_mapping(a).unify, P.from_mapping(b))
    if k == "raise":
        return
    h.cover("checked")

    def go(p, at):
        h.ensure("a namespace knows its path", p.namespace_prefix == at, (p, at))
        for key in p.as_nested_dicts():
            if p.has_namespace(key):
                go(p.namespace(key), at + (key,))

    go(r, ())


@contract("C12.associative", prove=False, covers=["agree", "refused"], scope="triples of dictionaries of depth 2 with up to 2 keys a level", **OPTS)
def associative(h):
    P = h.mod(PAR).Parameters
    a, b, c = [P.from_mapping(tree(h, x, depth=1)) for x in "abc"]
    k1, r1 = h.outcome(lambda: a.unify(b).unify(c))
    k2, r2 = h.outcome(lambda: a.unify(b.unify(c)))
    if k1 == "return" and k2 == "return":
        h.cover("agree")
        h.ensure("the order of unifications does not matter", r1 == r2 and same_tree(plain(r1), plain(r2)), (r1, r2))
    else:
        h.cover("refused")
        h.ensure("a conflict is an IOError", all(k == "return" or isinstance(r, IOError) for k, r in ((k1, r1), (k2, r2))), (r1, r2))


@contract("C12.level", concrete=False, covers=["unified", "conflict", "only here", "only there", "override", "nested"], **OPTS)
def level(h):
    """one level of a unification, nested namespaces by the same contract (for parameters of any size and depth)"""
    P = params_model(h)
    A = h.A
    a, b = h.instance("self", P), h.instance("new", P)
    path = h.strings("path", distinct=False)
    UNI, CONF = h.fn("unified", "any", "any", "any"), h.fn("conflict", "any", "any", "bool")
    real = P.unify

    under = h.bool("under a path")

    def unify_by_contract(self, new_params, *, namespace_prefix=()):
        h.ensure("the path of a nested unification is one longer", h.length(namespace_prefix) == (h.length(path) if under else 0) + 1)
        h.ensure("its last component is the namespace's name", h.same(a._data.get_at(h.A.any_term(namespace_prefix[-1])), self))
        if under:
            i = h.int("component")
            if h.And(i >= 0, i < h.length(path)):
                h.ensure("it starts with the path given", h.same(namespace_prefix[i], path.at(h.C.I(i))))
        if h.C.mkbool(CONF(self.t, new_params.t)):
            raise IOError("conflict below")
        r = A.SymAny(UNI(self.t, new_params.t))
        h.assume(h.is_a(r, P))
        h.assume(h.Not(h.is_a(r, Mapping)))
        return r

    h.patch(P, "unify", unify_by_contract)
    k, r = h.outcome(lambda: real(a, b, namespace_prefix=path) if under else real(a, b))
    da, db = a._data, b._data

    def at(key):
        return h.C.mkbool(da.has(key)), h.C.mkbool(db.has(key)), da.get_at(key), db.get_at(key)

    def conflict(key):
        ina, inb, va, vb = at(key)
        return h.And(ina, inb, h.Or(h.Not(h.iff(h.is_a(va, P), h.is_a(vb, P))), h.And(h.is_a(va, P), h.C.mkbool(CONF(va.t, vb.t)))))

    key = h.string("key")
    ina, inb, va, vb = at(key.t)
    both = h.And(ina, inb)
    if k == "return":
        h.ensure("accepted only if no key is a parameter on one side and a namespace on the other", h.Not(conflict(key.t)))
        h.cover("unified")
        if under:
            h.ensure_sequence("the unification knows the path given", r.namespace_prefix, path.n, lambda i: path.at(i.t))
        else:
            h.ensure("the unification has the empty path", h.length(r.namespace_prefix) == 0)
        m = r._data
        h.ensure("exactly the keys of either side", h.iff(h.C.mkbool(m.has(key.t)), h.Or(ina, inb)))
        if h.And(ina, h.Not(inb)):
            h.cover("only here")
            h.ensure("a value only of this side is kept", h.same(m.get_at(key.t), va))
        elif h.And(inb, h.Not(ina)):
            h.cover("only there")
            h.ensure("a value only of the new side is taken", h.same(m.get_at(key.t), vb))
        elif both:
            if h.is_a(va, P):
                h.cover("nested")
                h.ensure("namespaces of both sides are unified", h.same(m.get_at(key.t), A.SymAny(UNI(va.t, vb.t))))
            else:
                h.cover("override")
                h.ensure("the new side's value is taken", h.same(m.get_at(key.t), vb))
    else:
        h.cover("conflict")
        h.ensure("refusal is an IOError", isinstance(r, IOError), r)
        h.ensure("refused only if some key is in conflict", h.exists(h.C.mkint(da.n), lambda i: conflict(da.key_at(i.t if hasattr(i, 't') else h.C.I(i)))))
