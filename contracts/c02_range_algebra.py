"""C02: relations and operations on ranges obey interval algebra."""
from pyvc import spec as sp
from pyvc.harness import contract

RANGE = "vistautils.range"


@contract("C02.encloses", covers=["yes", "no"])
def encloses(h):
    r, s = h.range("r"), h.range("s")
    x = h.ord("x")
    e = r.encloses(s)
    h.ensure("encloses iff the bounds enclose", h.iff(e, sp.encloses(h, r, s)))
    h.ensure("every member of an enclosed range is a member", h.implies(h.And(e, sp.member(h, s, x)), sp.member(h, r, x)))
    h.cover("yes" if e else "no")


@contract("C02.encloses_order")
def encloses_order(h):
    """encloses is a partial order with the all-range on top"""
    r, s, t = h.range("r", size=3), h.range("s", size=3), h.range("t", size=3)
    h.ensure("reflexive", r.encloses(r))
    h.ensure("all encloses everything", h.mod(RANGE).Range.all().encloses(r))
    rs, st = r.encloses(s), s.encloses(t)
    h.ensure("antisymmetric", h.implies(h.And(rs, s.encloses(r)), r == s))
    h.ensure("transitive", h.implies(h.And(rs, st), r.encloses(t)))


@contract("C02.connected", covers=["yes", "no"])
def connected(h):
    r, s, t = h.range("r", size=3), h.range("s", size=3), h.range("t", size=3)
    c = r.is_connected(s)
    h.ensure("connected iff the bounds do not separate them", h.iff(c, sp.connected(h, r, s)))
    h.ensure("connectedness is symmetric", h.iff(c, s.is_connected(r)))
    h.ensure("reflexive", r.is_connected(r))
    h.ensure("a common sub-range implies connected", h.implies(h.And(r.encloses(t), s.encloses(t)), c))
    h.cover("yes" if c else "no")


@contract("C02.intersects", covers=["yes", "no"])
def intersects(h):
    r, s = h.range("r"), h.range("s")
    x = h.ord("x")
    i = r.intersects(s)
    h.ensure("intersects iff an intersection exists", h.iff(i, sp.connected(h, r, s)))
    h.ensure("a shared value implies intersects", h.implies(h.And(sp.member(h, r, x), sp.member(h, s, x)), i))
    h.ensure("symmetric", h.iff(i, s.intersects(r)))
    h.cover("yes" if i else "no")


@contract("C02.intersection", covers=["exists", "none"])
def intersection(h):
    r, s = h.range("r", size=3), h.range("s", size=3)
    k, q = h.outcome(r.intersection, s)
    conn = sp.connected(h, r, s)
    h.ensure("an intersection exists exactly for connected ranges", h.iff(k == "return", conn), q)
    if k == "raise":
        h.cover("none")
        h.ensure("rejection is a ValueError", isinstance(q, ValueError), q)
        return
    h.cover("exists")
    x = h.ord("x")
    t = h.range("t", size=3)
    h.ensure("enclosed by both", h.And(sp.encloses(h, r, q), sp.encloses(h, s, q)))
    h.ensure(
        "maximal",
        h.implies(h.And(sp.encloses(h, r, t), sp.encloses(h, s, t)), sp.encloses(h, q, t)),
    )
    h.ensure(
        "members are the common members",
        h.iff(sp.member(h, q, x), h.And(sp.member(h, r, x), sp.member(h, s, x))),
    )
    h.ensure("commutative", sp.same(h, q, s.intersection(r)))
    h.ensure("idempotent", sp.same(h, r.intersection(r), r))
    h.ensure("all is the identity", sp.same(h, r.intersection(h.mod(RANGE).Range.all()), r))


@contract("C02.span")
def span(h):
    r, s = h.range("r", size=3), h.range("s", size=3)
    q = r.span(s)
    x = h.ord("x")
    t = h.range("t", size=3)
    h.ensure("encloses both", h.And(sp.encloses(h, q, r), sp.encloses(h, q, s)))
    h.ensure(
        "minimal",
        h.implies(h.And(sp.encloses(h, t, r), sp.encloses(h, t, s)), sp.encloses(h, t, q)),
    )
    h.ensure(
        "union if connected",
        h.implies(
            sp.connected(h, r, s),
            h.iff(sp.member(h, q, x), h.Or(sp.member(h, r, x), sp.member(h, s, x))),
        ),
    )
    h.ensure("commutative", sp.same(h, q, s.span(r)))
    h.ensure("idempotent", sp.same(h, r.span(r), r))
    h.ensure("the span is valid", sp.valid(h, q))


@contract("C02.assoc", covers=["meet"], runs=30000)
def assoc(h):
    r, s, t = h.range("r", size=3), h.range("s", size=3), h.range("t", size=3)
    h.ensure("span is associative", sp.same(h, r.span(s).span(t), r.span(s.span(t))))
    if sp.connected(h, r, s) and sp.connected(h, s, t):
        rs, st = r.intersection(s), s.intersection(t)
        if sp.connected(h, rs, t) and sp.connected(h, r, st):
            h.cover("meet")
            h.ensure(
                "intersection is associative where defined",
                sp.same(h, rs.intersection(t), r.intersection(st)),
            )


@contract("C02.create_spanning", covers=["spanning", "rejected"])
def create_spanning(h):
    """any number of ranges"""
    R = h.mod(RANGE).Range
    rs = h.range_list("rs", hi=3, size=3)
    k, q = h.outcome(R.create_spanning, rs)
    n = h.len(rs)
    h.ensure("rejects exactly the empty collection", h.iff(k == "raise", n == 0), q)
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(q, ValueError), q)
        return
    h.cover("spanning")
    t = h.range("t", size=3)
    h.ensure("encloses every range", h.each(rs, lambda r: sp.encloses(h, q, r)))
    h.ensure(
        "minimal: bounded by any range enclosing all of them",
        h.implies(h.each_hyp(rs, lambda r: sp.encloses(h, t, r)), sp.encloses(h, t, q)),
    )
