"""C04: every range-set query agrees with direct evaluation over the stored ranges."""
from pyvc import spec as sp
from pyvc.harness import contract

RANGE = "vistautils.range"
ANY = dict(runs=12000, rand=4000)


def setup(h, size=4):
    s = h.rangeset("s", size=size, immutable=h.choice("immutable", [False, True]))
    return s, h.content(s)


@contract("C04.contains", covers=["in", "out"], **ANY)
def contains(h):
    s, snap = setup(h, 5)
    x = h.ord("x", 5)
    got = x in s
    h.ensure("x in s iff some stored range contains x", h.iff(got, h.set_member(snap, x)))
    h.ensure("every stored range containing x makes it a member", h.each(snap, lambda r: h.implies(sp.member(h, r, x), got)))
    h.cover("in" if got else "out")


@contract("C04.range_containing", covers=["found", "none"], **ANY)
def range_containing(h):
    s, snap = setup(h, 5)
    x = h.ord("x", 5)
    r = s.range_containing(x)
    if r is None:
        h.cover("none")
        h.ensure("None only if no stored range contains x", h.each(snap, lambda q: h.Not(sp.member(h, q, x))))
    else:
        h.cover("found")
        h.ensure("the result is a stored range", h.stored(snap, r))
        h.ensure("the result contains x", sp.member(h, r, x))


@contract("C04.encloses", covers=["yes", "no"], **ANY)
def encloses(h):
    s, snap = setup(h)
    r = h.range("r")
    e = s.encloses(r)
    g = s.range_enclosing_range(r)
    if e:
        h.cover("yes")
        h.ensure("some stored range encloses r", h.some(snap, lambda q: sp.encloses(h, q, r)))
    else:
        h.cover("no")
        h.ensure("no stored range encloses r", h.each(snap, lambda q: h.Not(sp.encloses(h, q, r))))
    h.ensure("range_enclosing_range agrees with encloses", h.iff(g is None, h.Not(e)))
    if g is not None:
        h.ensure("range_enclosing_range returns a stored range enclosing r", h.And(h.stored(snap, g), sp.encloses(h, g, r)))


@contract("C04.encloses_all", covers=["yes", "no"], runs=6000)
def encloses_all(h):
    s, snap = setup(h, 3)
    s = h.by_contract(s, "encloses")  # C04.encloses
    rs = h.range_list("rs", hi=2, size=3)
    e = s.encloses_all(rs)
    if e:
        h.cover("yes")
        h.ensure("each given range is enclosed", h.each(rs, lambda r: s.encloses(r)))
    else:
        h.cover("no")
        h.ensure("some given range is not enclosed", h.some_in(rs, lambda r: h.Not(s.encloses(r))))


@contract("C04.encloses_all_set", covers=["yes", "no"], runs=6000)
def encloses_all_set(h):
    s, snap = setup(h, 3)
    t = h.rangeset("t", size=3, immutable=h.choice("t.immutable", [False, True]))
    held = h.content(t)
    s = h.by_contract(s, "encloses")  # C04.encloses
    e = s.encloses_all(t)
    if e:
        h.cover("yes")
        h.ensure("each range of the given set is enclosed", h.each(held, lambda r: s.encloses(r)))
    else:
        h.cover("no")
        h.ensure("some range of the given set is not enclosed", h.some(held, lambda r: h.Not(s.encloses(r))))


@contract("C04.intersects", covers=["yes", "no"], **ANY)
def intersects(h):
    s, snap = setup(h)
    r = h.range("r")
    i = s.intersects(r)

    def overlap(q):
        """a nonempty range is enclosed by both"""
        return h.And(
            sp.blt(h, sp.lo(h, q), sp.hi(h, r)),
            sp.blt(h, sp.lo(h, r), sp.hi(h, q)),
            sp.blt(h, sp.lo(h, r), sp.hi(h, r)),
        )

    if i:
        h.cover("yes")
        h.ensure("some stored range shares a nonempty range with r", h.some(snap, overlap))
    else:
        h.cover("no")
        h.ensure("no stored range shares a nonempty range with r", h.each(snap, lambda q: h.Not(overlap(q))))


@contract("C04.ranges_overlapping", covers=["some"], **ANY)
def ranges_overlapping(h):
    s, snap = setup(h)
    r = h.range("r")
    res = s.ranges_overlapping(r)
    h.ensure("every stored range connected with r is reported", h.each(snap, lambda q: h.implies(sp.connected(h, q, r), h.result_has(res, q))))
    h.ensure("only stored ranges connected with r are reported", h.each_result(res, lambda q: h.And(h.stored(snap, q), sp.connected(h, q, r))))
    h.cover("some")


@contract("C04.ranges_enclosed_by", covers=["some"], **ANY)
def ranges_enclosed_by(h):
    s, snap = setup(h)
    r = h.range("r")
    res = s.ranges_enclosed_by(r)
    h.ensure("every stored range enclosed by r is reported", h.each(snap, lambda q: h.implies(sp.encloses(h, r, q), h.result_has(res, q))))
    h.ensure("only stored ranges enclosed by r are reported", h.each_result(res, lambda q: h.And(h.stored(snap, q), sp.encloses(h, r, q))))
    h.cover("some")


@contract("C04.rightmost", covers=["found", "none"], **ANY)
def rightmost(h):
    s, snap = setup(h, 5)
    x = h.ord("x", 5)
    r = s.rightmost_containing_or_below(x)

    def begins(q):
        """q begins at or before x: not wholly above x"""
        return sp.above(h, sp.lo(h, q), x)

    if r is None:
        h.cover("none")
        h.ensure("None only if every stored range lies above x", h.each(snap, lambda q: h.Not(begins(q))))
    else:
        h.cover("found")
        h.ensure("the result is stored and begins at or before x", h.And(h.stored(snap, r), begins(r)))
        h.ensure("no such range lies further right", h.each(snap, lambda q: h.implies(begins(q), sp.ble(h, sp.hi(h, q), sp.hi(h, r)))))
    for old in ("maximal_containing_or_below",):
        h.ensure("the deprecated name agrees", _same_opt(h, getattr(s, old)(x), r))


@contract("C04.leftmost", covers=["found", "none"], **ANY)
def leftmost(h):
    s, snap = setup(h, 5)
    x = h.ord("x", 5)
    r = s.leftmost_containing_or_above(x)

    def ends(q):
        """q ends at or after x: not wholly below x"""
        return h.Not(sp.above(h, sp.hi(h, q), x))

    if r is None:
        h.cover("none")
        h.ensure("None only if every stored range lies below x", h.each(snap, lambda q: h.Not(ends(q))))
    else:
        h.cover("found")
        h.ensure("the result is stored and ends at or after x", h.And(h.stored(snap, r), ends(r)))
        h.ensure("no such range lies further left", h.each(snap, lambda q: h.implies(ends(q), sp.ble(h, sp.lo(h, r), sp.lo(h, q)))))


def _same_opt(h, a, b):
    if a is None or b is None:
        return a is None and b is None
    return sp.same(h, a, b)


@contract("C04.span", covers=["some", "rejected"], **ANY)
def span(h):
    s, snap = setup(h)
    n = h.len(s)
    h.ensure("is_empty iff no range is stored", h.iff(s.is_empty(), n == 0))
    h.ensure("len counts the stored ranges", h.eq(n, h.len(snap)))
    k, q = h.outcome(lambda: s.span)
    h.ensure("span is rejected exactly for the empty set", h.iff(k == "raise", n == 0), q)
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(q, ValueError), q)
        return
    h.cover("some")
    h.ensure("the span encloses every stored range", h.each(snap, lambda r: sp.encloses(h, q, r)))
    h.ensure("the span starts and ends with stored ranges", h.And(
        h.some(snap, lambda r: sp.beq(h, sp.lo(h, r), sp.lo(h, q))),
        h.some(snap, lambda r: sp.beq(h, sp.hi(h, r), sp.hi(h, q)))))


@contract("C04.frame", covers=["done"], **ANY)
def frame(h):
    """queries do not change the set"""
    s, snap = setup(h)
    r = h.range("r")
    x = h.ord("x")
    op = h.choice("op", ["contains", "range_containing", "encloses", "range_enclosing_range", "intersects", "ranges_overlapping", "ranges_enclosed_by", "rightmost", "leftmost", "immutable_copy", "is_empty"])
    before = h.snapshot(s)
    if op == "contains":
        x in s
    elif op == "range_containing":
        s.range_containing(x)
    elif op == "rightmost":
        s.rightmost_containing_or_below(x)
    elif op == "leftmost":
        s.leftmost_containing_or_above(x)
    elif op in ("immutable_copy", "is_empty"):
        getattr(s, op)()
    else:
        getattr(s, op)(r)
    after = h.snapshot(s)
    h.ensure("same size", h.eq(h.len(before), h.len(after)))
    h.ensure("same ranges", h.each(before, lambda q: h.stored(after, q)))
    h.cover("done")
