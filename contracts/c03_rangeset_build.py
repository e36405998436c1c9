"""C03: a range set denotes the union of what was added, in canonical form, after any history."""
from pyvc import spec as sp
from pyvc.harness import contract

RANGE = "vistautils.range"


@contract("C03.create")
def create(h):
    rm = h.mod(RANGE)
    which = h.choice("which", ["mutable", "builder"])
    s = rm.RangeSet.create_mutable() if which == "mutable" else rm.ImmutableRangeSet.builder().build()
    h.ensure("a new range set is empty", s.is_empty() and len(s) == 0 and not list(s.as_ranges()))
    if not h.symbolic:
        x = h.ord("x")
        h.ensure("nothing is a member of it", h.Not(x in s))


@contract("C03.member_lemma", covers=["in"])
def member_lemma(h):
    """under the invariant at most one stored range contains a value, and it is the one found"""
    s = h.rangeset("s", size=5)
    x = h.ord("x", 5)
    snap = h.content(s)
    m = h.set_member(snap, x)
    h.ensure("any stored range containing x makes x a member", h.each(snap, lambda r: h.implies(sp.member(h, r, x), m)))
    if m:
        h.cover("in")


@contract("C03.add", covers=["grow", "same"], sym_limit_s=200)
def add(h):
    """the inductive step: from any canonical set, adding any range keeps it canonical and unions"""
    s = h.rangeset("s", size=5)
    r = h.range("r", size=5)
    x = h.ord("x", 5)
    before = h.snapshot(s)
    was = h.set_member(before, x)
    ret = s.add(r)
    h.ensure("add returns the set itself", ret is s)
    h.set_invariant("after add", s)
    after = h.snapshot(s)
    now = h.set_member(after, x)
    h.ensure("membership is the union", h.iff(now, h.Or(was, sp.member(h, r, x))))
    h.cover("same" if h.iff(now, was) else "grow")


@contract("C03.clear")
def clear(h):
    s = h.rangeset("s")
    s.clear()
    h.ensure("empty after clear", h.And(s.is_empty(), h.eq(h.len(s), 0)))
    h.set_invariant("after clear", s)


@contract("C03.snapshot_independent", covers=["done"])
def snapshot_independent(h):
    """an immutable copy is unaffected by later additions and clears"""
    s = h.rangeset("s")
    r = h.range("r")
    x = h.ord("x")
    c = s.immutable_copy()
    was = h.set_member(h.snapshot(c), x)
    h.ensure("the copy has the same members", h.iff(was, h.set_member(h.snapshot(s), x)))
    n = h.len(c)
    if h.choice("then", ["add", "clear"]) == "add":
        s.add(r)
    else:
        s.clear()
    h.ensure("members of the copy are unchanged", h.iff(h.set_member(h.snapshot(c), x), was))
    h.ensure("size of the copy is unchanged", h.eq(h.len(c), n))
    h.cover("done")




@contract("C03.history", prove=False, rand=6000, runs=15000, scope="histories of <=2 (exhaustive) / <=7 (random) mutations")
def history(h):
    rm = h.mod(RANGE)
    s = rm.RangeSet.create_mutable()
    n = h.size("n", 1, 2, 7)
    size = 3 if h.rng is None else 6
    snaps, others = [], []
    live = []
    for i in range(n):
        before = list(live)
        live2 = _history_step(h, s, i, live, size, others)
        live = live2
        h.set_invariant("after every mutation", s)
        want = sp.coalesce(h, live)
        h.ensure("sets added are unchanged", all(list(o.as_ranges()) == was for o, was in others))
        h.ensure("the stored ranges are the coalesced union", sp.same_bounds(h, sp.bounds_of(h, list(s.as_ranges())), want), repr(s))
        h.ensure("len", len(s) == len(want) and s.is_empty() == (not want))
        for c, w in snaps:
            h.ensure("earlier immutable copies are unchanged", sp.same_bounds(h, sp.bounds_of(h, list(c.as_ranges())), w), repr(c))
        snaps.append((s.immutable_copy(), want))
    b = rm.ImmutableRangeSet.builder()
    for r in live:
        b.add(r)
    built = b.build()
    h.ensure("a builder yields the same set", sp.same_bounds(h, sp.bounds_of(h, list(built.as_ranges())), sp.coalesce(h, live)))
    if live:
        b.add(live[0].span(rm.Range.all()))
        h.ensure("a built set is unaffected by further use of its builder", sp.same_bounds(h, sp.bounds_of(h, list(built.as_ranges())), sp.coalesce(h, live)))


def _history_step(h, s, i, live, size, others):
    ops = ["add", "add_all", "add_all_set", "clear", "add_self", "add_other"] if h.rng is not None else ["add", "add_all"]
    op = h.choice("op%d" % i, ops)
    if op == "add":
        r = h.range("r%d" % i, size=size)
        s.add(r)
        return live + [r]
    if op == "add_all":
        rs = h.ranges("rs%d" % i, 0, 1 if h.rng is None else 2, 4, size=size)
        s.add_all(iter(rs) if h.bool("iter%d" % i) else rs)
        return live + rs
    if op == "add_all_set":
        rs = h.ranges("rs%d" % i, 0, 2, 4, size=size)
        other = h.mod(RANGE).RangeSet.create_mutable().add_all(rs)
        if h.bool("immutable%d" % i):
            other = other.immutable_copy()
        was = list(other.as_ranges())
        s.add_all(other)
        h.ensure("the set added is unchanged", list(other.as_ranges()) == was)
        others.append((other, was))
        return live + rs
    if op == "add_other":
        # more to a set added before: no change of this one
        for j, (other, was) in enumerate(others):
            if hasattr(other, "add"):
                other.add(h.range("more%d" % i, size=size))
                others[j] = (other, list(other.as_ranges()))
        return live
    if op == "add_self":
        s.add_all(s.as_ranges() if h.bool("view%d" % i) else s)
        return live
    s.clear()
    return []
