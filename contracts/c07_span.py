"""C07: span algebra on integer offsets."""
from pyvc.harness import contract

SPAN = "vistautils.span"
OPTS = dict(modules=["vistautils.range", "vistautils.span"])


def mk(h, name, small=(-2, 3)):
    """an arbitrary valid span (validity is what C07.construct proves of every accepted span)"""
    s, e = h.int(name + ".start", small=small), h.int(name + ".end", small=small)
    h.assume(s < e)
    return h.mod(SPAN).Span(s, e), s, e


@contract("C07.construct", covers=["accepted", "rejected"], **OPTS)
def construct(h):
    a, b = h.int("a"), h.int("b")
    S = h.mod(SPAN).Span
    mkf = h.choice("factory", ["Span", "from_inclusive_to_exclusive"])
    f = S if mkf == "Span" else S.from_inclusive_to_exclusive
    k, r = h.outcome(f, a, b)
    h.ensure("accepted iff start < end", h.iff(k == "return", a < b), r)
    if k == "return":
        h.cover("accepted")
        h.ensure("start and end are kept", h.And(h.eq(r.start, a), h.eq(r.end, b)))
        h.ensure("length", h.eq(h.len(r), b - a))
    else:
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(r, ValueError), r)


@contract("C07.relations", covers=["overlap", "apart"], **OPTS)
def relations(h):
    (s, a, b), (t, c, d) = mk(h, "s"), mk(h, "t")
    x = h.int("x", small=(-3, 4))
    inx = h.And(a <= x, x < b)
    inxt = h.And(c <= x, x < d)
    h.ensure("contains_offset", h.iff(s.contains_offset(x), inx))
    cs = s.contains_span(t)
    h.ensure("contains_span iff enclosing", h.iff(cs, h.And(a <= c, d <= b)))
    h.ensure("the in operator is contains_span", h.iff(t in s, cs))
    h.ensure("offsets of a contained span are contained", h.implies(h.And(cs, inxt), inx))
    ov = s.overlaps(t)
    h.ensure("overlaps iff a common offset exists", h.iff(ov, h.And(a < d, c < b)))
    h.ensure("a common offset implies overlap", h.implies(h.And(inx, inxt), ov))
    h.ensure("overlap is symmetric", h.iff(ov, t.overlaps(s)))
    pr, fo = s.precedes(t), s.follows(t)
    h.ensure("precedes", h.iff(pr, b <= c))
    h.ensure("follows is converse of precedes", h.iff(fo, t.precedes(s)))
    h.ensure("exactly one of precedes, follows, overlaps", h.And(h.Or(pr, fo, ov), h.Not(h.And(pr, fo)), h.Not(h.And(pr, ov)), h.Not(h.And(fo, ov))))
    h.cover("overlap" if ov else "apart")
    h.ensure("equality is equality of offsets", h.iff(s == t, h.And(h.eq(a, c), h.eq(b, d))))


@contract("C07.intersection", covers=["some", "none"], **OPTS)
def intersection(h):
    (s, a, b), (t, c, d) = mk(h, "s"), mk(h, "t")
    x = h.int("x", small=(-3, 4))
    ov = h.And(a < d, c < b)
    for name, r in (("intersection", s.intersection(t)), ("clip_to", s.clip_to(t))):
        if r is None:
            h.cover("none")
            h.ensure(name + " is None only for non-overlapping spans", h.Not(ov))
        else:
            h.cover("some")
            h.ensure(name + " exists only for overlapping spans", ov)
            h.ensure(
                name + " holds exactly the common offsets",
                h.iff(
                    h.And(r.start <= x, x < r.end),
                    h.And(a <= x, x < b, c <= x, x < d),
                ),
            )
            h.ensure(name + " is a valid span", r.start < r.end)


@contract("C07.has_span", covers=["in", "out"], **OPTS)
def has_span(h):
    """an item with a span answers for it"""
    s, a, b = mk(h, "s")
    t, c, d = mk(h, "t")
    x = h.int("x", small=(-3, 4))

    class Item(h.mod(SPAN).HasSpan):
        def __init__(self):
            self.span = s

    i = Item()
    h.ensure("starts where its span starts", h.eq(i.start, a))
    h.ensure("ends where its span ends", h.eq(i.end, b))
    inside = i.contains_offset(x)
    h.cover("in" if inside else "out")
    h.ensure("holds the offsets of its span", h.iff(inside, h.And(a <= x, x < b)))
    h.ensure("contains the spans which its span contains", h.iff(i.contains_span(t), h.And(a <= c, d <= b)))


@contract("C07.shift", **OPTS)
def shift(h):
    s, a, b = mk(h, "s")
    k, m = h.int("k"), h.int("m")
    r = s.shift(k)
    h.ensure("shift moves both ends", h.And(h.eq(r.start, a + k), h.eq(r.end, b + k)))
    q = r.shift(m)
    h.ensure("shifts compose", h.And(h.eq(q.start, a + k + m), h.eq(q.end, b + k + m)))
    h.ensure("the original is unchanged", h.And(h.eq(s.start, a), h.eq(s.end, b)))


@contract("C07.as_range", **OPTS)
def as_range(h):
    s, a, b = mk(h, "s")
    x = h.int("x", small=(-3, 4))
    r = s.as_range()
    h.ensure("the range holds exactly the offsets", h.iff(x in r, h.And(a <= x, x < b)))
    key = h.mod(SPAN).Span.earliest_then_longest_first_key
    t, c, d = mk(h, "t")
    ks, kt = key(s), key(t)
    h.ensure(
        "sort key: earlier first, then longer first",
        h.iff(ks < kt, h.Or(a < c, h.And(h.eq(a, c), b > d))),
    )


@contract("C07.minimal_enclosing", covers=["some", "rejected"], **OPTS)
def minimal_enclosing(h):
    """any number of spans"""
    S = h.mod(SPAN).Span
    spans = h.span_list("spans")
    n = h.len(spans)
    src = h.choice("as", ["sequence", "iterator"])
    k, r = h.outcome(S.minimal_enclosing_span, spans if src == "sequence" else h.iterator(spans))
    h.ensure("rejected iff empty", h.iff(k == "raise", n == 0), r)
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(r, ValueError), r)
        return
    h.cover("some")
    t, c, d = mk(h, "t")
    h.ensure("encloses every span", h.each(spans, lambda s: h.And(r.start <= s.start, s.end <= r.end)))
    h.ensure(
        "no smaller span encloses all",
        h.implies(
            h.each_hyp(spans, lambda s: h.And(c <= s.start, s.end <= d)),
            h.And(c <= r.start, r.end <= d),
        ),
    )
