"""Claims about samples.py: those of TRUE must be proved, those of FALSE must not be.

A false claim differs from a true one in the function called, the precondition or the claim."""
from pyvc.harness import contract

MOD = "vistautils.pyvc_selftest_samples"
R = "vistautils.range"
EXPECTED = {}


def claim(name, **opts):
    """name ends in '+' if the claim is true"""

    def deco(fn):
        short, good = name[:-1], name[-1] == "+"
        EXPECTED["SELF." + name] = good
        opts.setdefault("modules", [MOD])
        return contract("SELF." + name, concrete=False, **opts)(fn)

    return deco


def variants(base, beyond=False, **opts):
    """deco for f(h, good): the claim and its false sibling (beyond: which the engine refuses to decide)"""

    def deco(f):
        claim(base + "+", **opts)(lambda h: f(h, True))
        claim(base + ("~" if beyond else "-"), **opts)(lambda h: f(h, False))
        return f

    return deco


# ------------------------------------------------------------------ branches, numbers
@variants("both sides of a branch are explored")
def _(h, good):
    a, b = h.int("a"), h.int("b")
    if good:
        h.assume(a < b)
    h.ensure("grows", h.mod(MOD).bump(a, b) > a)


@variants("swap")
def _(h, good):
    a, b = h.int("a"), h.int("b")
    r = h.mod(MOD).swapped(a, b)
    h.ensure("difference", r == (b - a if good else a - b))


@variants("floor division")
def _(h, good):
    n = h.int("n")
    r = h.mod(MOD).floor_half(n)
    h.ensure("floor", h.And(r * 2 <= n, n < r * 2 + 2) if good else r * 2 == n)


@variants("chained comparison")
def _(h, good):
    a, b, c = h.int("a"), h.int("b"), h.int("c")
    r = h.mod(MOD).chained(a, b, c)
    if r:
        h.ensure("ordered", a < c if good else b < c)


@variants("and gives an operand")
def _(h, good):
    a, b = h.any("a"), h.any("b")
    r = h.mod(MOD).both(a, b)
    if h.truthy(a) == good:
        h.ensure("the second", h.same(r, b))


# ------------------------------------------------------------------ comprehensions and loops
def wanted(h, xs):
    return lambda i: [] if h.same(h.at(xs, i), None) else [h.at(xs, i)]


@variants("comprehension with a condition")
def _(h, good):
    xs = h.any_list("xs")
    m = h.mod(MOD)
    r = m.kept(xs) if good else m.kept_or(xs, h.bool("flag"))
    h.ensure_filtered("kept", r, h.len(xs), wanted(h, xs))


@variants("nested conditions in a loop")
def _(h, good):
    xs, flag = h.any_list("xs"), h.bool("flag")
    if good:
        h.assume(flag)
    h.ensure_filtered("kept", h.mod(MOD).kept_loop(xs, flag), h.len(xs), wanted(h, xs))


@variants("continue")
def _(h, good):
    xs = h.any_list("xs")
    m = h.mod(MOD)
    h.ensure_filtered("kept", m.kept_continue(xs) if good else m.kept_twice(xs), h.len(xs), wanted(h, xs))


@variants("nested comprehension")
def _(h, good):
    xss = h.nested_lists("xs", lambda name: None)
    m = h.mod(MOD)
    r = m.flat(xss) if good else m.flat_some(xss)
    h.ensure_flat("concatenation", r, xss)


@variants("early exit")
def _(h, good):
    xs = h.any_list("xs")
    m = h.mod(MOD)
    r = (m.any_none if h.choice("f", [0, 1]) else m.any_none_else)(xs)
    i = h.int("i")
    h.instantiate(i)
    h.assume(h.And(0 <= i, i < h.len(xs)))
    if good:
        h.ensure("false only if there is none", h.implies(h.same(h.at(xs, i), None), r))
    else:
        h.ensure("false if there is some element", h.Not(r))


@variants("exception in a loop")
def _(h, good):
    xs = h.any_list("xs")
    k, r = h.outcome(h.mod(MOD).no_nones, xs)
    i = h.int("i")
    h.instantiate(i)
    h.assume(h.And(0 <= i, i < h.len(xs)))
    if good:
        h.ensure("refused", h.implies(h.same(h.at(xs, i), None), k == "raise" and isinstance(r, ValueError)))
    else:
        h.ensure("never refused", k == "return")


@variants("handlers of an exception in a loop")
def _(h, good):
    xs = h.any_list("xs")
    r = h.mod(MOD).swallowed(xs)
    h.ensure("handled", r >= 0 if good else r > 0)


# ------------------------------------------------------------------ invariants
def counting(h, lid, inv):
    def state(env, i):
        n = h.C.mkint(h.C.cur().const("n", h.z3.IntSort()))
        h.assume(inv(n, i))
        return {"n": n}

    def check(env, i, say):
        say("count", inv(h.var(env, "n"), i))

    h.invariant("pyvc_selftest_samples.%s#1" % lid, state, check)


@variants("invariant preserved by the body")
def _(h, good):
    xs = h.any_list("xs")
    f = "count" if good else "count_wrongly"
    counting(h, f, lambda n, i: n == i)
    h.ensure("length", getattr(h.mod(MOD), f)(xs) == h.len(xs))


@variants("claim implied by the invariant")
def _(h, good):
    xs = h.any_list("xs")
    counting(h, "count", (lambda n, i: n == i) if good else (lambda n, i: n >= i))
    h.ensure("length", h.mod(MOD).count(xs) == h.len(xs))


@variants("invariant on entry")
def _(h, good):
    xs = h.any_list("xs")
    counting(h, "count", (lambda n, i: n == i) if good else (lambda n, i: n == i + 1))
    r = h.mod(MOD).count(xs)
    h.ensure("length", r == h.len(xs) + (0 if good else 1))


@variants("variable carried by a loop")
def _(h, good):
    xs, start = h.any_list("xs"), h.any("start")
    if good:

        def state(env, i):
            return {"best": start if i == 0 else h.at(xs, i - 1)}

        def check(env, i, say):
            h.instantiate(i - 1)
            say("the one before", h.same(h.var(env, "best"), start if i == 0 else h.at(xs, i - 1)))

        h.invariant("pyvc_selftest_samples.last#1", state, check)
    r = h.mod(MOD).last(xs, start)
    n = h.len(xs)
    if n > 0:
        h.ensure("the last", h.same(r, h.at(xs, n - 1) if good else h.at(xs, 0)))


@variants("while loop")
def _(h, good):
    n = h.int("n")
    h.assume(n >= 0)

    def state(env, i):
        h.assume(i <= n)
        return {"n": n - i, "steps": i}

    def check(env, i, say):
        say("steps", h.And(h.var(env, "n") == n - i, h.var(env, "steps") == i, i <= n))

    h.invariant("pyvc_selftest_samples.down#1", state, check)
    h.ensure("as many steps", h.mod(MOD).down(n) == (n if good else n + 1))


@variants("frame of a loop with an invariant", beyond=True)
def _(h, good):
    xs = h.any_list("xs")
    m = h.mod(MOD)
    if good:
        counting(h, "count", lambda n, i: n == i)
        r = m.count(xs)
    else:
        # the list changed by the loop is not owned by the invariant: its content after the loop is unknown
        counting(h, "fills", lambda n, i: n == i)
        other = h.S.EList()
        r = m.fills(xs, other)
        h.ensure("other is unchanged", len(other) == 0)
    h.ensure("length", r == h.len(xs))


@variants("generators")
def _(h, good):
    xs = h.any_list("xs")
    f = "numbered" if good else "numbered_wrongly"

    def state(env, i):
        return {"i": i}

    def check(env, i, say):
        say("number", h.var(env, "i") == i)

    h.invariant("pyvc_selftest_samples.%s#1" % f, state, check)
    got = h.items(getattr(h.mod(MOD), f)(xs))
    h.ensure_sequence("positions", got, h.len(xs), lambda j: j)


@claim("functions made in a loop~")
def _(h):
    """refused: a function made in an iteration knows that iteration's element"""
    xs = h.any_list("xs")
    m = h.mod(MOD)
    fs = h.items((m.later_bound if h.choice("f", [0, 1]) else m.later)(xs))
    h.ensure_sequence("functions", fs, h.len(xs), None, each=lambda g, i: h.ensure("its element", h.same(g(), h.at(xs, i))))


@variants("function made before a loop")
def _(h, good):
    xs, y = h.any_list("xs"), h.any("y")
    fs = h.items(h.mod(MOD).constant(xs, y))

    def each(g, i):
        h.ensure("gives what it was made for", h.same(g(), y if good else h.at(xs, i)))

    h.ensure_sequence("functions", fs, h.len(xs), None, each=each)


# ------------------------------------------------------------------ text, mappings, sorting
@variants("text")
def _(h, good):
    a, b = h.int("a"), h.string("b").t
    b = h.MM.SymStr(b)
    m = h.mod(MOD)
    r = (m.joined if h.choice("f", [0, 1]) else m.joined_f)(a, b)
    h.ensure_text("joined", r, [("int", a), "-", ("str", b)] if good else [("str", b), "-", ("int", a)])


@variants("dictionary comprehension")
def _(h, good):
    d = h.any_map("d")
    m = h.mod(MOD)
    r = (m.copied if h.choice("f", [0, 1]) else m.copied_loop)(d)
    key = h.string("key")
    a, b = h.map_of(r), d
    there = h.C.mkbool(b.has(key.t))
    if there:
        v = b.get_at(key.t)
        h.ensure("kept", h.iff(h.C.mkbool(a.has(key.t)), h.Not(h.same(v, None))) if good else h.C.mkbool(a.has(key.t)))
    else:
        h.ensure("nothing new", h.Not(h.C.mkbool(a.has(key.t))))


# ------------------------------------------------------------------ calls, vacuity
@variants("calls by contract")
def _(h, good):
    x, m = h.int("x"), h.mod(MOD)
    y = h.int("y")

    def helper(v):
        if good:
            h.assume(y > v)
        return y

    h.patch(m, "helper", helper)
    h.ensure("greater by the contract", m.uses_helper(x) > x + 1)


@variants("unsatisfiable precondition", covers=["here"])
def _(h, good):
    a, b = h.int("a"), h.int("b")
    h.assume(a < b)
    if not good:
        h.assume(b < a)
    h.cover("here")
    h.ensure("less", a < b if good else b < a)


@variants("situation never reached", covers=["here"])
def _(h, good):
    a, b = h.int("a"), h.int("b")
    r = h.mod(MOD).bump(a, b)
    if r > a if good else r > a + 1:
        h.cover("here")
    h.ensure("grows at most by one", r <= a + 1)


@claim("no obligation at all-", covers=[])
def _(h):
    raise h.C.Infeasible()


# ------------------------------------------------------------------ the range models
@variants("membership after adding", modules=[R])
def _(h, good):
    from pyvc.spec import member

    rs, r, x = h.rangeset("rs", immutable=False), h.range("r"), h.ord("x")
    before = h.snapshot(rs)
    was = h.set_member(before, x)
    rs.add(r)
    now = h.set_member(h.snapshot(rs), x)
    h.ensure("members", h.iff(now, h.Or(was, member(h, r, x)) if good else was))


@variants("bounds of ranges", modules=[R])
def _(h, good):
    m = h.mod(R)
    a, b = h.ord("a"), h.ord("b")
    k, r = h.outcome(m.Range.closed if good else m.Range.open, a, b)
    h.ensure("accepted iff ordered", h.iff(k == "return", a <= b))
