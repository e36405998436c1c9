"""C14: ordering the nodes of a graph."""
from pyvc.harness import contract

G = "vistautils._graph"
NODES = ["a", "b", "c", "d", "e", "f", "g"]


def cyclic(nodes, edges):
    left = set(nodes)
    while left:
        free = {n for n in left if not any(v == n and u in left for u, v in edges)}
        if not free:
            return True
        left -= free
    return False


@contract("C14.sort", prove=False, covers=["sorted", "cycle", "isolated", "self-loop", "repeated edge", "unknown node", "empty"], scope="up to 4 nodes and 4 edges (random: 7 and 14)", modules=[G], rand=8000)
def sort(h):
    m = h.mod(G)
    n = h.size("nodes", 0, 4, 7)
    nodes = NODES[:n]
    if h.bool("reversed"):
        nodes.reverse()
    edges = []
    for _ in range(h.size("edges", 0, 4, 14)):
        edges.append((h.choice("from", NODES[: n + 1]), h.choice("to", NODES[: n + 1])))
    given = list(nodes)
    if n and h.bool("a node given twice"):
        given.append(nodes[0])
    k, g = h.outcome(m.Digraph, nodes=given, edges=edges)
    unknown = any(x not in nodes for e in edges for x in e)
    h.ensure("refused iff an edge has an unknown node", (k == "raise") == unknown, (nodes, edges, g))
    if unknown:
        h.cover("unknown node")
        h.ensure("refusal is a RuntimeError", isinstance(g, RuntimeError), repr(g))
        return
    if any(u == v for u, v in edges):
        h.cover("self-loop")
    if len(set(edges)) < len(edges):
        h.cover("repeated edge")
    if not edges:
        h.cover("isolated" if nodes else "empty")
    k, r = h.outcome(lambda: list(g.topological_sort()))
    if cyclic(nodes, edges):
        h.cover("cycle")
        h.ensure("a graph with a cycle has no order", k == "raise" and isinstance(r, m.ParameterInterpolationError), (nodes, edges, r))
        return
    h.cover("sorted")
    h.ensure("each node comes exactly once", k == "return" and sorted(r) == sorted(nodes), (nodes, edges, r))
    h.ensure("each edge leads forward", all(r.index(u) < r.index(v) for u, v in edges), (nodes, edges, r))
    h.ensure("the graph can be ordered again", sorted(g.topological_sort()) == sorted(nodes), r)


@contract("C14.order", concrete=False, covers=["ordered", "cycle", "unknown node"], modules=[G], branch_ms=60)
def order(h):
    """any graph: the loops of topological_sort keep the number of predecessors not yet given"""
    m = h.mod(G)
    z3, I, B, S = h.z3, h.C.I, h.C.mkbool, h.MM.SymStr
    given, pairs = h.strings("node", distinct=False), h.string_pairs("edge")
    k, g = h.outcome(lambda: m.Digraph(nodes=given, edges=pairs))
    t = h.MM.any_term

    def known(x):
        return h.exists(given.n, lambda j: B(t(given.at(I(j))) == t(x)))

    if k == "raise":
        h.cover("unknown node")
        h.ensure("refusal is a RuntimeError", isinstance(g, RuntimeError), repr(g))
        rel = h.G.Relation.of(pairs)
        for x in list(h.S.quant(h.C.cur()).terms):
            rel.has(rel.eu(x), rel.ev(x))
        h.ensure("refused only if an edge has an unknown node", h.exists(pairs.n, lambda i: h.Or(*[h.Not(known(x)) for x in pairs.at(I(i))])))
        return
    nodes = g.nodes
    if not isinstance(nodes, h.G.StrSet) or not isinstance(g.edges, h.G.MultiDict) or not g.edges.forward:
        raise h.C.Unsupported("nodes and edges of the graph")
    rel = g.edges.rel
    e = h.int("edge")
    if h.choice("claim", ["edges", "order"]) == "edges":
        h.instantiate(e)
        if h.And(e >= 0, e < h.length(pairs)):
            h.ensure("every edge is kept", B(rel.has(*[t(x) for x in pairs.at(I(e))])))
            for x in pairs.at(I(e)):
                nodes.has(t(x))
                h.ensure("every edge is between known nodes", known(x))
        return

    class Ghost:
        """what has been given so far: yielded(k), pos(k), at(i); left(k): predecessors not yet given"""

    now = Ghost()

    def fresh(i):
        st = Ghost()
        st.n = I(i)
        st.yielded, st.pos, st.at = h.fresh_fn("yielded", "any", "bool"), h.fresh_fn("pos", "any", "int"), h.fresh_fn("out", "int", "any")
        st.left, st.wit = h.fresh_fn("left", "any", "int"), h.fresh_fn("wit", "any", "any")
        st.degree, st.waiting, st.ready = h.fresh_fn("degree", "any", "int"), h.fresh_fn("waiting", "any", "bool"), h.fresh_fn("ready", "any", "bool")

        def facts(j):
            v = nodes.key(j)
            u, w = rel.pair(j)
            is_node = z3.And(j >= 0, j < nodes.n)
            out = st.at(j)
            return z3.And(
                z3.Implies(is_node, one_of(st.waiting(v), st.ready(v), st.yielded(v))),
                z3.Implies(z3.And(is_node, st.waiting(v)), z3.And(st.degree(v) == st.left(v), st.left(v) > 0)),
                z3.Implies(z3.And(is_node, z3.Not(st.waiting(v))), st.left(v) == 0),
                z3.Implies(z3.And(is_node, st.yielded(v)), z3.And(st.pos(v) >= 0, st.pos(v) < st.n, st.at(st.pos(v)) == v)),
                z3.Implies(z3.And(j >= 0, j < st.n), z3.And(nodes.H(out), st.yielded(out), st.pos(out) == j)),
                # the members of the set of predecessors not yet given are as many as the count says (C14.counting)
                z3.Implies(z3.And(j >= 0, j < rel.seq.n, st.left(w) == 0), st.yielded(u)),
                z3.Implies(z3.And(is_node, st.left(v) > 0), z3.And(rel.R(st.wit(v), v), z3.Not(st.yielded(st.wit(v))))),
                # edges between nodes given already lead forward
                z3.Implies(z3.And(j >= 0, j < rel.seq.n, st.yielded(w)), z3.And(st.yielded(u), st.pos(u) < st.pos(w))),
            )

        h.always(facts)
        return st

    def one_of(*cs):
        a, b, c = cs
        return z3.And(z3.Or(a, b, c), z3.Not(z3.And(a, b)), z3.Not(z3.And(a, c)), z3.Not(z3.And(b, c)))

    def loop_vars(env):
        return h.dict_var(env, "indegree_map"), h.list_var(env, "zero_indegree")

    def outer_state(env, i):
        M, Z = loop_vars(env)
        st = now.st = fresh(i)
        st.map = h.put_map(M, lambda k: z3.And(nodes.has(k), st.waiting(k)), lambda k: h.C.mkint(st.degree(k)))
        st.set = h.put_list(Z, lambda k: z3.And(nodes.has(k), st.ready(k)))
        return {}

    def outer_check(env, i, say):
        M, Z = loop_vars(env)
        if outer.yielded is None:
            st = Ghost()
            st.yielded, st.pos, st.at = (lambda k: z3.BoolVal(False)), (lambda k: z3.IntVal(0)), (lambda j: t(""))
            st.left, st.n = rel.inn[0], z3.IntVal(0)
        else:
            old, (node,) = now.st, [t(x) for x in outer.yielded]
            st = Ghost()
            st.n = I(i)
            st.yielded = lambda k: z3.Or(k == node, old.yielded(k))
            st.pos = lambda k: z3.If(k == node, old.n, old.pos(k))
            st.at = lambda j: z3.If(j == old.n, node, old.at(j))
            st.left = lambda k: old.left(k) - z3.If(rel.has(node, k), z3.IntVal(1), z3.IntVal(0))
            say("what is given is a node", B(nodes.has(node)))
            say("no node is given twice", B(z3.Not(old.yielded(node))))
        now.st = st
        j = h.C.cur().const("anynode", z3.IntSort())
        h.S.index_term(h.C.cur(), j)
        v = nodes.key_at(j)
        nodes.has(v)
        inside = z3.And(j >= 0, j < nodes.n)
        Mm = h.map_of(M)
        waiting, ready = Mm.has(v), h.G.bag_member(Z, v)
        say("each node waits, is ready or has been given", B(z3.Implies(inside, one_of(waiting, ready, st.yielded(v)))))
        if h.C.cur().decide(z3.And(inside, waiting)):
            say("a waiting node has predecessors to wait for, as many as noted", B(z3.And(I(Mm.get_at(v)) == st.left(v), st.left(v) > 0)))
        say("other nodes have none", B(z3.Implies(z3.And(inside, z3.Not(waiting)), st.left(v) == 0)))
        say("ready nodes are noted once", B(h.G.bag_distinct(Z)))
        a = h.C.cur().const("anystring", h.A.ANY)
        say("only nodes wait or are ready", B(z3.Implies(z3.Or(Mm.has(a), h.G.bag_member(Z, a)), nodes.has(a))))
        x = h.C.cur().const("anyedge", z3.IntSort())
        h.S.index_term(h.C.cur(), x)
        u, w = rel.pair(x)
        rel.has(u, w)
        for y in (u, w):
            nodes.has(y)
        say("edges between nodes given lead forward", B(z3.Implies(z3.And(x >= 0, x < rel.seq.n, st.yielded(w)), z3.And(st.yielded(u), st.pos(u) < st.pos(w)))))

    outer = h.invariant("_graph.Digraph.topological_sort#1", outer_state, outer_check, lambda env: [loop_vars(env)[0]])
    outer.yielded = None
    outer.output = lambda i: h.S.SymSeq(now.st.n, lambda j: S(now.st.at(j)))

    def at_entry(env):
        """the state when the inner loop was entered"""
        M, Z = loop_vars(env)
        copy = h.S.EList()
        copy.segs = list(Z.segs) if Z.segs is not None else list(list.__iter__(Z))
        now.M0, now.Z0, now.node = h.map_of(M), copy, t(h.var(env, "node"))

    def hit(k, i):
        return z3.And(rel.has(now.node, k), rel.out[2](now.node, k) < I(i))

    def last(k):
        """waits for the node being given only"""
        return z3.And(now.M0.has(k), I(now.M0.get_at(k)) == 1)

    def inner_state(env, i):
        M, Z = loop_vars(env)
        child = rel.out[1](now.node, I(i))
        rel.has(now.node, child)
        nodes.has(child)
        nodes.has(now.node)
        h.put_map(M, lambda k: z3.And(now.M0.has(k), z3.Not(z3.And(hit(k, i), last(k)))), lambda k: h.C.mkint(I(now.M0.get_at(k)) - z3.If(hit(k, i), z3.IntVal(1), z3.IntVal(0))))
        h.put_list(Z, lambda k: z3.Or(h.G.bag_member(now.Z0, k), z3.And(hit(k, i), last(k))))
        return {}

    def inner_check(env, i, say):
        M, Z = loop_vars(env)
        a = h.C.cur().const("anystring", h.A.ANY)
        nodes.has(a)
        hit(a, i)
        Mm = h.map_of(M)
        say("nodes wait unless their last predecessor has been given", B(Mm.has(a) == z3.And(now.M0.has(a), z3.Not(z3.And(hit(a, i), last(a))))))
        if h.C.cur().decide(Mm.has(a)):
            say("one predecessor less", B(I(Mm.get_at(a)) == I(now.M0.get_at(a)) - z3.If(hit(a, i), z3.IntVal(1), z3.IntVal(0))))
        say("nodes are ready once their last predecessor has been given", B(h.G.bag_member(Z, a) == z3.Or(h.G.bag_member(now.Z0, a), z3.And(hit(a, i), last(a)))))
        say("ready nodes are noted once", B(h.G.bag_distinct(Z)))

    inner = h.invariant("_graph.Digraph.topological_sort#2", inner_state, inner_check, lambda env: [loop_vars(env)[0]])
    inner.on_enter = at_entry
    inner.split = outer.split = True

    k, r = h.outcome(lambda: h.items(g.topological_sort()))
    st = now.st
    if k == "raise":
        h.cover("cycle")
        h.ensure("refusal is a ParameterInterpolationError", isinstance(r, m.ParameterInterpolationError), repr(r))
        nodes.has(st.map.key_at(z3.IntVal(0)))
        h.ensure("refused only if some node has not been given", h.exists(h.C.mkint(nodes.n), lambda j: B(z3.Not(st.yielded(nodes.key_at(I(j)))))))
        j = h.int("a node left")
        h.instantiate(j)
        if h.And(j >= 0, j < h.C.mkint(nodes.n), B(z3.Not(st.yielded(nodes.key(I(j)))))):
            v = nodes.key_at(I(j))
            nodes.has(v)
            st.set.has(v)
            rel.has(st.wit(v), v)
            nodes.has(st.wit(v))
            h.ensure("each node which has not been given has a predecessor which has not: there is a cycle", h.exists(h.C.mkint(nodes.n), lambda x: B(z3.And(rel.R(nodes.key_at(I(x)), v), z3.Not(st.yielded(nodes.key_at(I(x))))))))
        return
    h.cover("ordered")
    i, j = h.int("position"), h.int("another position")
    claim = h.choice("claim", ["once", "only", "every", "forward"])
    if claim in ("once", "forward"):
        h.instantiate(j)
    if claim != "every":
        h.instantiate(i)
    if claim == "once" and h.And(i >= 0, i < j, j < h.C.mkint(r.n)):
        h.ensure("no node comes twice", B(t(r.at(I(i))) != t(r.at(I(j)))))
    if claim == "only" and h.And(i >= 0, i < h.C.mkint(r.n)):
        nodes.has(t(r.at(I(i))))
        h.ensure("only nodes come", known(r.at(I(i))))
    if claim == "every":
        w = h.int("a node")
        h.instantiate(w)
        if h.And(w >= 0, w < h.length(given)):
            x = t(given.at(I(w)))
            nodes.has(x)
            st.set.has(x)
            st.map.has(x)
            h.S.index_term(h.C.cur(), st.pos(x))
            h.ensure("every node comes", h.exists(h.C.mkint(r.n), lambda q: B(t(r.at(I(q))) == x)))
    if claim == "forward":
        h.instantiate(e)
        if h.And(e >= 0, e < h.length(pairs), i >= 0, i < h.C.mkint(r.n), j >= 0, j < h.C.mkint(r.n)):
            u, v = [t(x) for x in pairs.at(I(e))]
            rel.has(u, v)
            if h.And(B(t(r.at(I(i))) == u), B(t(r.at(I(j))) == v)):
                h.ensure("each edge leads forward", i < j)


@contract("C14.counting", concrete=False, covers=["step"], modules=[G])
def counting(h):
    """lemmas of C14.order on the number c(m) of the first m predecessors p(0..m-1), all different, which are
    not in a set Y, by induction on m; Z is Y with one more element x, d(m) the number for Z"""
    z3, B = h.z3, h.C.mkbool
    p, Y = h.fn("p", "int", "any"), h.fn("Y", "any", "bool")
    c, d, E = h.fn("c", "int", "int"), h.fn("d", "int", "int"), h.fn("among", "int", "bool")
    x = h.z3.Const("x", h.A.ANY)
    m, i = z3.Int("m"), z3.Int("i")
    Z = lambda k: z3.Or(k == x, Y(k))  # noqa: E731
    one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))  # noqa: E731
    for e in (
        c(0) == 0,
        d(0) == 0,
        z3.Not(E(0)),
        m >= 0,
        c(m + 1) == c(m) + one(z3.Not(Y(p(m)))),
        d(m + 1) == d(m) + one(z3.Not(Z(p(m)))),
        E(m + 1) == z3.Or(E(m), p(m) == x),
        z3.Implies(E(m), p(m) != x),  # the predecessors are different
        z3.Not(Y(x)),
    ):
        h.assume(B(e))
    h.cover("step")

    def induction(label, claim, *more):
        h.ensure(label + " (base)", B(z3.Implies(z3.And(*more) if more else z3.BoolVal(True), claim(z3.IntVal(0)))))
        h.ensure(label + " (step)", B(z3.Implies(z3.And(claim(m), *more), claim(m + 1))))

    induction("the number is not negative", lambda m: c(m) >= 0)
    induction("none left: all are in the set", lambda m: z3.Implies(z3.And(c(m) == 0, i >= 0, i < m), Y(p(i))), c(m) >= 0)
    # if all of the first m are in Y (a claim about each j < m: used at j = m), none is left
    h.ensure("all are in the set: none left (base)", B(c(0) == 0))
    h.ensure("all are in the set: none left (step)", B(z3.Implies(z3.And(c(m) == 0, Y(p(m))), c(m + 1) == 0)))
    h.ensure("nothing in the set: all are left (base)", B(c(0) == 0))
    h.ensure("nothing in the set: all are left (step)", B(z3.Implies(z3.And(c(m) == m, z3.Not(Y(p(m)))), c(m + 1) == m + 1)))
    induction("one more in the set: one less if it is among them", lambda m: d(m) == c(m) - one(E(m)))
