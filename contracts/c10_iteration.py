"""C10: iteration helpers -- only, get_only, drop, windowed, non_none, tiling, flattening, limited display."""
import itertools

from pyvc.harness import contract

IT = "vistautils.iter_utils"
OPTS = dict(modules=[IT, "vistautils.collection_utils", "vistautils.misc_utils", "vistautils.iterutils"])


class EqAll:
    """equal to everything, unequal to nothing"""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 0

    def __repr__(self):
        return "<equal to all>"


class NoEq:
    """refuses to be compared, and has no truth value"""

    def __eq__(self, o):
        raise RuntimeError("compared")

    __ne__ = __eq__

    def __bool__(self):
        raise RuntimeError("no truth value")

    def __hash__(self):
        return 1

    def __repr__(self):
        return "<incomparable>"


POOL = [0, 1, None, "", EqAll(), NoEq(), (), float("nan")]


def same(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def items(h, name="xs", hi=3, wide=9):
    if h.symbolic:
        return h.any_list(name)
    n = h.size(name + ".n", 0, hi, wide)
    return [POOL[h.choice(name, range(len(POOL)))] for _ in range(n)]


KINDS = ["list", "iterator", "reiterable", "generator", "tuple"]
ONESHOT = ("iterator", "generator")


@contract("C10.only", covers=["one", "none", "many"], scope="up to 3 elements (random: 9), including elements with hostile equality", **OPTS)
def only(h):
    xs = items(h)
    n = h.len(xs)
    kind = h.choice("as", KINDS)
    which = h.choice("function", ["only", "get_only"])
    f = h.mod(IT).only if which == "only" else h.mod("vistautils.collection_utils").get_only
    k, r = h.outcome(f, h.give(kind, xs))
    h.ensure("accepted iff there is exactly one element", h.iff(k == "return", n == 1), (which, r))
    if k == "return":
        h.cover("one")
        h.ensure("the one element is returned", h.same(r, h.at(xs, 0)), r)
    else:
        if n == 0:
            h.cover("none")
        else:
            h.cover("many")
        h.ensure("otherwise a ValueError", isinstance(r, ValueError), repr(r))


@contract("C10.drop", covers=["some left", "none left", "rejected"], scope="up to 3 elements (random: 9), skips -1..4", **OPTS)
def drop(h):
    xs = items(h)
    n = h.int("skip", small=(-1, 4), wide=(-2, 12))
    kind = h.choice("as", KINDS)
    k, r = h.outcome(h.mod(IT).drop, h.give(kind, xs), n)
    h.ensure("rejected iff the number is negative", h.iff(k == "raise", n < 0), r)
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(r, ValueError), repr(r))
        return
    left = h.ite(n < h.len(xs), h.len(xs) - n, 0)
    if left > 0:
        h.cover("some left")
    else:
        h.cover("none left")
    h.ensure("an iterator gives an iterator, an iterable an iterable", hasattr(r, "__next__") == (kind in ONESHOT))
    for turn in (1,) if kind in ONESHOT else (1, 2):
        h.ensure_sequence("exactly the elements after the first n", h.items(r), left, lambda i: h.at(xs, n + i), kind)


def window_invariants(h, xs, w):
    """before iteration i of the sliding loops the deque holds the window from position i on"""
    n = h.len(xs)
    m = h.ite(w < n, w, n)

    def sliding(env, i):
        return h.deque_of(env), i, m

    def shrinking(env, i):
        return h.deque_of(env), n - m + i, m - i

    def inv(lid, window, extra):
        def state(env, i):
            d, a, k = window(env, i)
            h.put(d, k, lambda j: h.at(xs, a + j))
            return {}

        def check(env, i, say):
            d, a, k = window(env, i)
            say("the window has the right length", h.And(h.len(d) == k, extra(k)))
            h.ensure_sequence("loop invariant of %s: the window's elements" % lid, d, k, lambda j: h.at(xs, a + j))

        h.invariant(lid, state, check, lambda env: [h.deque_of(env)])

    inv("iter_utils._complete_windows#1", sliding, lambda k: k == w)
    inv("iter_utils._possibly_incomplete_windows#1", sliding, lambda k: k >= 1)
    inv("iter_utils._possibly_incomplete_windows#2", shrinking, lambda k: k >= 1)


@contract("C10.windows", covers=["partial", "complete", "too wide", "rejected"], scope="up to 4 elements (random: 12), windows of -1..5", **OPTS)
def windows(h):
    xs = items(h, hi=4, wide=12)
    w = h.int("window", small=(-1, 5), wide=(0, 14))
    partial = h.bool("partial")
    kind = h.choice("as", KINDS)
    n = h.len(xs)
    window_invariants(h, xs, w)
    h.instantiate(n - 1)
    k, r = h.outcome(lambda: h.mod(IT).windowed(h.give(kind, xs), w, partial_windows=partial))
    h.ensure("rejected iff the window holds nothing", h.iff(k == "raise", w < 1), r)
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(r, ValueError), repr(r))
        return
    if partial:
        count = n
        h.cover("partial")
    else:
        count = h.ite(w <= n, n - w + 1, 0)
        h.cover("complete")
    if w > n:
        h.cover("too wide")

    def window(g, i):
        h.ensure("each window is a tuple", h.is_a(g, tuple), g)
        h.ensure_sequence("each window is the elements from its position on", g, h.ite(i + w < n, w, n - i), lambda j: h.at(xs, i + j))

    h.ensure("an iterator gives an iterator, an iterable an iterable", hasattr(r, "__next__") == (kind in ONESHOT))
    for turn in (1,) if kind in ONESHOT else (1, 2):
        h.ensure_sequence("one window for each starting position, in order", h.items(r), count, None, each=window)


@contract("C10.tiling", covers=["some", "none"], scope="up to 4 elements (random: 12)", **OPTS)
def tiling(h):
    xs = items(h, hi=4, wide=12)
    kind = h.choice("as", KINDS)
    n = h.len(xs)
    window_invariants(h, xs, 2)
    got = h.items(h.mod("vistautils.iterutils").tile_with_pairs(h.give(kind, xs)))
    if n >= 2:
        h.cover("some")
    else:
        h.cover("none")

    def pair(g, i):
        h.ensure_sequence("each pair is an element and the one after it", g, 2, lambda j: h.at(xs, i + j))

    h.ensure_sequence("one pair for each two neighbours, in order", got, h.ite(n >= 2, n - 1, 0), None, each=pair)


@contract("C10.lazy", prove=False, scope="windows of 1..3 over an endless iterator", **OPTS)
def lazy(h):
    m = h.mod(IT)
    w = h.int("window", small=(1, 3), wide=(1, 6))
    k = h.size("windows taken", 0, 3, 8)
    partial = h.bool("partial")

    def endless():
        for i in itertools.count():
            if i > 500:
                raise RuntimeError("read on without need")
            yield i

    got = list(itertools.islice(m.windowed(endless(), w, partial_windows=partial), k))
    h.ensure("windows of an endless iterator", got == [tuple(range(i, i + w)) for i in range(k)], got)
    got = list(itertools.islice(m.drop(endless(), w), k))
    h.ensure("an endless iterator without its first elements", got == list(range(w, w + k)), got)
    got = list(itertools.islice(m.non_none(endless()), k))
    h.ensure("an endless iterator without Nones", got == list(range(k)), got)


@contract("C10.non_none", covers=["dropped", "kept"], scope="up to 3 elements (random: 9)", **OPTS)
def non_none(h):
    xs = items(h)
    kind = h.choice("as", KINDS)

    def wanted(i):
        if h.same(h.at(xs, i), None):
            h.cover("dropped")
            return []
        h.cover("kept")
        return [h.at(xs, i)]

    h.ensure_filtered("exactly the elements which are not None, in order", h.mod(IT).non_none(h.give(kind, xs)), h.len(xs), wanted)


@contract("C10.flatten", scope="up to 2 lists of up to 2 elements (random: 5 of 5)", **OPTS)
def flatten(h):
    xss = h.nested_lists("xs", lambda name: items(h, name, hi=2, wide=5))
    kind = h.choice("as", ["list", "iterator", "reiterable", "tuple"])
    inner = h.choice("inner", ["list", "iterator", "reiterable"])
    r = h.mod("vistautils.misc_utils").flatten_once_to_list(h.give(kind, h.map_seq(xss, lambda xs: h.give(inner, xs))))
    h.ensure("a list", h.is_a(r, list))
    h.ensure_flat("the concatenation of the parts", r, xss)


@contract("C10.limited_display", covers=["shortened", "whole", "rejected"], scope="up to 3 elements (random: 9), limits -1..4", **OPTS)
def limited(h):
    xs = items(h)
    lim = h.int("limit", small=(-1, 4), wide=(-2, 12))
    kind = h.choice("as", KINDS)
    k, r = h.outcome(h.mod("vistautils.misc_utils").str_list_limited, h.give(kind, xs), lim)
    h.ensure("rejected iff the limit is negative", h.iff(k == "raise", lim < 0), r)
    n = h.len(xs)
    show = lambda m: ("join", ", ", m, lambda i: [("repr", h.at(xs, i))])
    if k == "raise":
        h.cover("rejected")
        h.ensure("rejection is a ValueError", isinstance(r, ValueError), repr(r))
    elif n <= lim:
        h.cover("whole")
        h.ensure_text("a short list is shown whole", r, ["[", show(n), "]"], r)
    else:
        h.cover("shortened")
        h.ensure_text("a long list is shown up to the limit, with the number of items left out", r, ["[", show(lim), " and ", ("int", n - lim), " more]"], r)
