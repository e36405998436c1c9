"""C05: range sets and range maps are values: equality, hashing, pickling, immutability."""
from pyvc import spec as sp
from pyvc.harness import contract

RANGE = "vistautils.range"


def two_sets(h, size=3):
    kinds = h.choice("kinds", ["mm", "mi", "ii"])
    s = h.rangeset("s", size=size, immutable=kinds[0] == "i")
    t = h.rangeset("t", size=size, immutable=kinds[1] == "i")
    return s, t


@contract("C05.set_eq", covers=["equal", "different"], cost=5, runs=30000)
def set_eq(h):
    s, t = two_sets(h)
    a, b = h.content(s), h.content(t)
    if s == t:
        h.cover("equal")
        h.ensure("equal sets store the same ranges", h.And(h.each(a, lambda r: h.stored(b, r)), h.each(b, lambda r: h.stored(a, r))))
    else:
        h.cover("different")
        h.ensure("different sets store different ranges", h.Or(h.some(a, lambda r: h.Not(h.stored(b, r))), h.some(b, lambda r: h.Not(h.stored(a, r)))))


@contract("C05.eq_members", covers=["equal"], cost=5, runs=30000)
def eq_members(h):
    s, t = two_sets(h)
    x = h.ord("x", 3)
    a, b = h.content(s), h.content(t)
    h.assume(s == t)
    h.cover("equal")
    # `x in s` is membership in some stored range: C04.contains
    h.ensure("equal sets have the same members", h.iff(h.set_member(a, x), h.set_member(b, x)))
    if not h.symbolic:
        h.ensure("and say so", (x in s) == (x in t))


@contract("C05.set_hash", covers=["equal"], cost=5, runs=30000)
def set_hash(h):
    s, t = two_sets(h)
    keep = s.as_ranges(), t.as_ranges()
    h.assume(s == t)
    h.cover("equal")
    h.ensure("equal sets hash equally", h.eq(h.hash(s), h.hash(t)), keep)
    h.ensure("and are not unequal", h.Not(s != t))


@contract("C05.set_other", covers=["done"])
def set_other(h):
    s = h.rangeset("s", immutable=h.choice("immutable", [False, True]))
    o = h.choice("other", [None, 0, "", (), [], "ranges"])
    if o == "ranges":
        o = h.mod(RANGE).Range.all()
    h.ensure("a range set equals no object of another type", h.And(h.Not(s == o), s != o))
    h.cover("done")


@contract("C05.pickle", prove=False, covers=["set", "map"], scope="up to 2 (random: 7) ranges, all pickle protocols, copy and deepcopy")
def pickling(h):
    import copy
    import pickle

    how = h.choice("how", [0, 1, 2, 3, 4, 5, "copy", "deepcopy"])

    def rt(x):
        if how == "copy":
            return copy.copy(x)
        if how == "deepcopy":
            return copy.deepcopy(x)
        return pickle.loads(pickle.dumps(x, how))

    kind = h.choice("kind", ["mutable", "immutable", "map", "range"])
    if kind == "range":
        r = h.range("r")
        # the value type itself must survive for this to be meaningful; all of ORD_KINDS do
        q = rt(r)
        h.ensure("a range survives", q == r and hash(q) == hash(r))
        return
    if kind == "map":
        m = mk_map(h)
        q = rt(m)
        h.cover("map")
        h.ensure("a range map survives", q == m and hash(q) == hash(m) and list(q.as_dict().items()) == list(m.as_dict().items()))
        return
    s = h.rangeset("s", immutable=kind == "immutable")
    q = rt(s)
    h.cover("set")
    h.ensure("a range set survives", q == s and type(q) is type(s) and hash(q) == hash(s), (s, q))
    h.ensure("with the same ranges in the same order", list(q.as_ranges()) == list(s.as_ranges()))
    x = h.ord("x")
    h.ensure("and the same answers", (x in q) == (x in s) and q.range_containing(x) == s.range_containing(x))
    if kind == "mutable":
        before = list(s.as_ranges())
        q.add(h.mod(RANGE).Range.all())
        h.ensure("the copy is independent", list(s.as_ranges()) == before and len(q) == 1)


def disjoint_ranges(h, hi=2, wide=5):
    rs = h.ranges("r", 0, hi, wide)
    for i in range(len(rs)):
        h.assume(not sp.empty(h, rs[i]))
        for j in range(i):
            h.assume(not sp.connected(h, rs[i], rs[j]))
    return rs


def mk_map(h, name="v", hi=2):
    rm = h.mod(RANGE)
    rs = disjoint_ranges(h, hi)
    vals = [h.choice("%s%d" % (name, i), [0, 1]) for i in range(len(rs))]
    return rm.immutablerangemap(list(zip(rs, vals)))


@contract("C05.map_eq", prove=False, covers=["equal", "different"], runs=30000, scope="two maps over the same up to 2 (random: 5) ranges")
def map_eq(h):
    rm = h.mod(RANGE)
    rs = disjoint_ranges(h)
    items1 = [(r, h.choice("a%d" % i, [0, 1])) for i, r in enumerate(rs)]
    items2 = [(r, h.choice("b%d" % i, [0, 1, None])) for i, r in enumerate(rs)]
    items2 = [(r, v) for r, v in items2 if v is not None]
    m1, m2 = rm.immutablerangemap(items1), rm.immutablerangemap(reversed(items2) if h.bool("rev") else items2)
    same = dict(items1) == dict(items2)
    h.cover("equal" if same else "different")
    keep = m1.range_set.as_ranges(), m2.range_set.as_ranges()
    h.ensure("maps are equal iff they map the same ranges to the same values", (m1 == m2) == same and (m1 != m2) == (not same), (m1, m2))
    if same:
        h.ensure("equal maps hash equally", hash(m1) == hash(m2), keep)
    h.ensure("a map equals no other type", m1 != dict(items1) and not m1 == 0)


@contract("C05.frozen", prove=False, covers=["done"], scope="up to 2 (random: 7) ranges added")
def frozen(h):
    """nothing reachable through the public interface changes an immutable set"""
    rm = h.mod(RANGE)
    rs = h.ranges("r", 0, 2, 7)
    b = rm.ImmutableRangeSet.builder()
    cut = h.choice("cut", [0, 1, 2])
    b.add_all(rs[:cut])
    first = b.build()
    before = list(first.as_ranges())
    hv = hash(first)
    b.add_all(rs[cut:])
    second = b.build()
    h.ensure("a built set is not affected by later use of its builder", list(first.as_ranges()) == before and hash(first) == hv)
    h.ensure("the builder keeps accumulating", second == rm.ImmutableRangeSet.builder().add_all(rs).build())
    for name in ("add", "add_all", "clear", "remove", "remove_all"):
        h.ensure("immutable sets offer no mutators", not hasattr(first, name))
    c = first.immutable_copy()
    h.ensure("copies are equal", c == first and c is not None and hash(c) == hv)
    h.cover("done")
