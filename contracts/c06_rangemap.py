"""C06: a range map answers every lookup from the entry whose range decides it."""
from pyvc import spec as sp
from pyvc.harness import contract

RANGE = "vistautils.range"
ANY = dict(runs=12000, rand=4000)


@contract("C06.lookup", covers=["found", "none"], **ANY)
def lookup(h):
    m, content = h.rangemap("m")
    x = h.ord("x")
    got = m[x]
    inside = x in m
    if got is None:
        h.cover("none")
        h.ensure("None only if no key range contains x", h.each_entry(content, lambda r, v: h.Not(sp.member(h, r, x))))
        h.ensure("and x is not in the map", h.Not(inside))
    else:
        h.cover("found")
        h.ensure("the value belongs to the range containing x", h.some_entry(content, lambda r, v: h.And(sp.member(h, r, x), h.is_value(got, v))))
        h.ensure("every range containing x has this value", h.each_entry(content, lambda r, v: h.implies(sp.member(h, r, x), h.is_value(got, v))))
        h.ensure("and x is in the map", inside)


@contract("C06.rightmost", covers=["found", "none"], **ANY)
def rightmost(h):
    m, content = h.rangemap("m")
    x = h.ord("x")
    got = m.get_from_rightmost_containing_or_below(x)

    def begins(q):
        return sp.above(h, sp.lo(h, q), x)

    if got is None:
        h.cover("none")
        h.ensure("None only if every key range lies above x", h.each_entry(content, lambda r, v: h.Not(begins(r))))
    else:
        h.cover("found")
        h.ensure("the value of a range beginning at or below x", h.some_entry(content, lambda r, v: h.And(begins(r), h.is_value(got, v))))
        h.ensure(
            "namely of the rightmost one",
            h.some_entry(
                content,
                lambda r, v: h.And(
                    begins(r),
                    h.is_value(got, v),
                    h.each_entry(content, lambda q, _: h.implies(begins(q), sp.ble(h, sp.hi(h, q), sp.hi(h, r)))),
                ),
            ),
        )
    h.ensure("the deprecated name agrees", _same(h, m.get_from_maximal_containing_or_below(x), got))


@contract("C06.leftmost", covers=["found", "none"], **ANY)
def leftmost(h):
    m, content = h.rangemap("m")
    x = h.ord("x")
    got = m.get_from_leftmost_containing_or_above(x)

    def ends(q):
        return h.Not(sp.above(h, sp.hi(h, q), x))

    if got is None:
        h.cover("none")
        h.ensure("None only if every key range lies below x", h.each_entry(content, lambda r, v: h.Not(ends(r))))
    else:
        h.cover("found")
        h.ensure(
            "the value of the leftmost range ending at or above x",
            h.some_entry(
                content,
                lambda r, v: h.And(
                    ends(r),
                    h.is_value(got, v),
                    h.each_entry(content, lambda q, _: h.implies(ends(q), sp.ble(h, sp.lo(h, r), sp.lo(h, q)))),
                ),
            ),
        )
    h.ensure("the deprecated name agrees", _same(h, m.get_from_minimal_containing_or_above(x), got))


def _same(h, a, b):
    if a is None or b is None:
        return a is None and b is None
    return h.is_value(a, b)


@contract("C06.enclosed", covers=["some"], **ANY)
def enclosed(h):
    m, content = h.rangemap("m")
    r = h.range("r")
    res = m.get_enclosed_by(r)
    same = lambda a, b: h.is_value(a, b)  # noqa: E731
    h.ensure("the value of every key range enclosed by r is reported", h.each_entry(content, lambda q, v: h.implies(sp.encloses(h, r, q), h.result_has(res, v, same))))
    h.ensure("only such values are reported", h.each_result(res, lambda v: h.some_entry(content, lambda q, w: h.And(sp.encloses(h, r, q), h.is_value(v, w)))))
    h.cover("some")


@contract("C06.empty", covers=["empty", "filled"])
def empty(h):
    m, content = h.rangemap("m")
    n = h.len(m.as_dict())
    h.ensure("is_empty iff there is no entry", h.iff(m.is_empty(), h.eq(n, 0)))
    h.cover("empty" if m.is_empty() else "filled")


@contract("C06.add_count", covers=["new", "conflict", "void"], cost=6)
def add_count(h):
    """the inductive step of construction: adding a range to a canonical set makes it one longer and
    stores the range itself exactly if the range is nonempty and unconnected with all others"""
    s = h.rangeset("s", size=5)
    r = h.range("r", size=5)
    before = h.snapshot(s)
    n0 = h.len(before)
    s.add(r)
    after = h.snapshot(s)
    n1 = h.len(after)
    h.ensure("at most one longer", n1 <= n0 + 1)
    if sp.empty(h, r):
        h.cover("void")
        h.ensure("an empty range is not stored", h.eq(n1, n0))
        return
    if n1 > n0:
        h.cover("new")
        h.ensure("longer only if r is unconnected with every stored range", h.each(before, lambda q: h.Not(sp.connected(h, q, r))))
        h.ensure("then r itself is stored", h.stored(after, r))
        h.ensure("and everything else is kept", h.each(before, lambda q: h.stored(after, q)))
    else:
        h.cover("conflict")
        h.ensure("otherwise r is connected with a stored range", h.some(before, lambda q: sp.connected(h, q, r)))


@contract("C06.accept", covers=["accepted", "rejected"], runs=20000)
def accept(h):
    """a map is accepted iff its set of key ranges has as many members as there are keys"""
    rm = h.mod(RANGE)
    if not h.symbolic:
        return accept_concrete(h, rm)
    m, _ = h.rangemap("m")
    s = h.rangeset("s", immutable=True)
    object.__setattr__(m, "range_set", s)
    k, e = h.outcome(m.__attrs_post_init__)
    h.ensure("accepted iff no key was lost or coalesced", h.iff(k == "return", h.eq(h.len(m.rng_to_val), h.len(s))))
    if k == "raise":
        h.ensure("rejection is a ValueError", isinstance(e, ValueError), e)
    h.cover("accepted" if k == "return" else "rejected")


def accept_concrete(h, rm):
    rs = h.ranges("r", 0, 3, 6)
    vals = h.choice("values", [range(9), [None] * 9, ["", 0, None, (), False, 0.0, [], {}, b""]])
    pairs = [(r, vals[i]) for i, r in enumerate(rs)]
    keys = list(dict(pairs))
    ok = all(not sp.empty(h, r) for r in keys) and not any(
        sp.connected(h, keys[i], keys[j]) for i in range(len(keys)) for j in range(i)
    )
    how = h.choice("how", ["function", "builder", "constructor"])

    def make():
        if how == "function":
            return rm.immutablerangemap(pairs)
        if how == "constructor":
            from immutablecollections import immutabledict

            return rm.ImmutableRangeMap(immutabledict(pairs))
        b = rm.ImmutableRangeMap.builder()
        early = h.choice("built early", [None, 0, 1, 2])
        for i, (k, v) in enumerate(pairs):
            if i == early:
                h.outcome(b.build)
            b.put(k, v)
        return b.build()

    k, m = h.outcome(make)
    h.ensure("accepted iff all keys are nonempty and pairwise unconnected", (k == "return") == ok, (keys, m))
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(m, ValueError), m)
    else:
        h.cover("accepted")
        h.ensure("the map holds what was put", dict(m.as_dict()) == dict(pairs) and m.is_empty() == (not pairs))
