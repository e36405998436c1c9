"""C08: span indexes return exactly the items a direct comparison of spans would select."""
from pyvc.harness import Item, contract

SPAN = "vistautils.span"
OPTS = dict(modules=["vistautils.range", "vistautils.span"], runs=20000, scope="up to 3 (random: 7) items, offsets 0..3 (wider at random)")


def query(h):
    s = h.int("q.start", small=(-1, 4))
    e = s + h.int("q.length", lo=1, small=(1, 4))
    return h.mod(SPAN).Span(s, e), s, e


def check_set(h, content, res, cond, what):
    same = lambda a, b: h.is_value(a, b)  # noqa: E731
    h.ensure("every item whose span %s is reported" % what, h.each_entry(content, lambda t, v: h.implies(cond(t), h.result_has(res, v, same))))
    h.ensure("only items whose span %s are reported" % what, h.each_result(res, lambda v: h.some_entry(content, lambda t, w: h.And(cond(t), h.is_value(v, w)))))
    h.once("each item is reported once", res)


def check_one(h, content, res, cond, what):
    if res is None:
        h.cover("none")
        h.ensure("None only if no item's span %s" % what, h.each_entry(content, lambda t, v: h.Not(cond(t))))
    else:
        h.cover("found")
        h.ensure("the item's span %s" % what, h.some_entry(content, lambda t, v: h.And(cond(t), h.is_value(res, v))))


@contract("C08.exact", covers=["none", "found"], **OPTS)
def exact(h):
    q, s, e = query(h)
    cond = lambda t: h.And(h.eq(t.start, s), h.eq(t.end, e))  # noqa: E731
    disjoint = h.choice("kind", [False, True])
    ix, content = h.span_index("x", disjoint)
    (check_one if disjoint else check_set)(h, content, ix.get_exactly_matching(q), cond, "matches exactly")


@contract("C08.overlapping", covers=["done"], **OPTS)
def overlapping(h):
    q, s, e = query(h)
    cond = lambda t: h.And(t.start < e, s < t.end)  # noqa: E731
    ix, content = h.span_index("x", h.choice("kind", [False, True]))
    check_set(h, content, ix.get_overlapping(q), cond, "overlaps")
    h.cover("done")


@contract("C08.contained", covers=["done"], **OPTS)
def contained(h):
    q, s, e = query(h)
    cond = lambda t: h.And(s <= t.start, t.end <= e)  # noqa: E731
    ix, content = h.span_index("x", h.choice("kind", [False, True]))
    check_set(h, content, ix.get_contained(q), cond, "is contained")
    h.cover("done")


@contract("C08.containing", covers=["none", "found"], **OPTS)
def containing(h):
    q, s, e = query(h)
    cond = lambda t: h.And(t.start <= s, e <= t.end)  # noqa: E731
    disjoint = h.choice("kind", [False, True])
    ix, content = h.span_index("x", disjoint)
    (check_one if disjoint else check_set)(h, content, ix.get_containing(q), cond, "contains the query")


@contract("C08.build", prove=False, covers=["accepted", "rejected", "equal items"], **OPTS)
def build(h):
    """a disjoint index is refused exactly when two different items' spans share an offset; both
    kinds of index hold what they were given"""
    sm = h.mod(SPAN)
    n = h.size("n", 0, 3, 6)
    items = []
    for i in range(n):
        a = h.int("a", small=(0, 3), wide=(0, 12))
        b = a + h.int("b", small=(1, 3), wide=(1, 4))
        items.append(Item(sm.Span(a, b), h.int("name", small=(0, 2)) if h.bool("may equal") else "n%d" % i))
    clash = any(x.span.overlaps(y.span) and not (x == y and x.span == y.span) for k, x in enumerate(items) for y in items[:k])
    if len(set(items)) < len(items):
        h.cover("equal items")
    k, d = h.outcome(sm.HasSpanIndex.index_disjoint, iter(items) if h.bool("iterator") else items)
    h.ensure("a disjoint index is refused exactly if two items' spans overlap", (k == "raise") == clash, (items, d))
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(d, ValueError), d)
    else:
        h.cover("accepted")
        for x in items:
            h.ensure("every item is found under its span", d.get_exactly_matching(x.span) == x)
    ix = sm.HasSpanIndex.index(iter(items))
    for x in items:
        h.ensure("every item is found under its span in an overlapping index", x in ix.get_exactly_matching(x.span))
