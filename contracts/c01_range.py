"""C01: a Range denotes exactly the set of values its bounds describe."""
import fractions

from pyvc import spec as sp
from pyvc.harness import RANGE_SHAPES, build_range, contract

RANGE = "vistautils.range"


def _spec_member(h, shape, a, b, x):
    """membership written from the notation table of the documentation"""
    lowc = {"closed_open": 1, "closed": 1, "open": 0, "open_closed": 0, "greater_than": 0, "at_least": 1}
    upc = {"closed_open": 0, "closed": 1, "open": 0, "open_closed": 1, "less_than": 0, "at_most": 1}
    cs = []
    if shape in lowc:
        cs.append(h.Or(a < x, h.eq(a, x)) if lowc[shape] else a < x)
    if shape in upc:
        cs.append(h.Or(x < b, h.eq(x, b)) if upc[shape] else x < b)
    return h.And(*cs)


def _make(h, shape, a, b):
    R = h.mod(RANGE).Range
    if shape in ("closed_open", "closed", "open", "open_closed"):
        return getattr(R, shape)(a, b)
    if shape in ("less_than", "at_most"):
        return getattr(R, shape)(b)
    if shape in ("greater_than", "at_least"):
        return getattr(R, shape)(a)
    return R.all()


@contract("C01.construct", covers=["accepted", "rejected"])
def construct(h):
    """every factory: accepted iff upper>=lower and not (v..v); then membership = notation table"""
    shape = h.choice("shape", RANGE_SHAPES)
    a, b = h.ord("a"), h.ord("b")
    both = shape in ("closed_open", "closed", "open", "open_closed")
    ok = True if not both else h.Not(h.Or(b < a, h.And(h.eq(a, b), shape == "open")))
    k, r = h.outcome(_make, h, shape, a, b)
    h.ensure("factory accepts exactly the valid bounds", h.iff(k == "return", ok), r)
    if k == "raise":
        h.ensure("rejection is a ValueError", isinstance(r, ValueError), r)
        h.cover("rejected")
        return
    h.cover("accepted")
    x = h.ord("x")
    h.ensure("membership matches the notation table", h.iff(x in r, _spec_member(h, shape, a, b, x)))
    h.ensure("the described bounds are valid", sp.valid(h, r))
    h.ensure("bounds agree with membership", h.iff(sp.member(h, r, x), _spec_member(h, shape, a, b, x)))


@contract("C01.accessors", covers=["bounded", "unbounded"])
def accessors(h):
    shape = h.choice("shape", RANGE_SHAPES)
    a, b = h.ord("a"), h.ord("b")
    if shape in ("closed_open", "closed", "open", "open_closed"):
        h.assume(h.Not(h.Or(b < a, h.And(h.eq(a, b), shape == "open"))))
    r = _make(h, shape, a, b)
    BT = h.mod(RANGE).BoundType
    has_lo = shape not in ("less_than", "at_most", "all")
    has_hi = shape not in ("greater_than", "at_least", "all")
    h.ensure("has_lower_bound", h.iff(r.has_lower_bound(), has_lo))
    h.ensure("has_upper_bound", h.iff(r.has_upper_bound(), has_hi))
    if has_lo:
        h.cover("bounded")
        h.ensure("lower endpoint", h.eq(r.lower_endpoint, a))
        want = BT.closed() if shape in ("closed_open", "closed", "at_least") else BT.open()
        h.ensure("lower bound type", r.lower_bound_type is want)
    else:
        h.cover("unbounded")
        h.ensure_raises("lower endpoint of unbounded", ValueError, lambda: r.lower_endpoint)
    if has_hi:
        h.ensure("upper endpoint", h.eq(r.upper_endpoint, b))
        want = BT.closed() if shape in ("open_closed", "closed", "at_most") else BT.open()
        h.ensure("upper bound type", r.upper_bound_type is want)
    else:
        h.ensure_raises("upper endpoint of unbounded", ValueError, lambda: r.upper_endpoint)
    h.ensure("open and closed flip", BT.open().flip() is BT.closed() and BT.closed().flip() is BT.open())


@contract("C01.member")
def member(h):
    r = h.range("r")
    x = h.ord("x")
    h.ensure("x in r iff x lies between the bounds", h.iff(x in r, sp.member(h, r, x)))


@contract("C01.convex")
def convex(h):
    r = h.range("r")
    x, y, z = h.ord("x"), h.ord("y"), h.ord("z")
    h.assume(h.And(h.Not(y < x), h.Not(z < y)))
    h.assume(h.And(x in r, z in r))
    h.ensure("values between two members are members", y in r)


@contract("C01.empty", covers=["empty", "nonempty"])
def empty(h):
    r = h.range("r")
    x = h.ord("x")
    e = r.is_empty()
    h.ensure("is_empty iff the bounds coincide", h.iff(e, sp.empty(h, r)))
    h.ensure("an empty range has no member", h.implies(e, h.Not(sp.member(h, r, x))))
    if e:
        h.cover("empty")
        h.ensure("only [v..v) and (v..v] are empty", h.And(r.has_lower_bound(), r.has_upper_bound()))
        h.ensure("endpoints of an empty range coincide", h.eq(r.lower_endpoint, r.upper_endpoint))
    else:
        h.cover("nonempty")


@contract("C01.cut_order")
def cut_order(h):
    """all six comparison operators on bounds are the lexicographic total order"""
    r, s = h.range("r"), h.range("s")
    pairs = {
        "ll": (r._lower_bound, s._lower_bound, sp.lo(h, r), sp.lo(h, s)),
        "lu": (r._lower_bound, s._upper_bound, sp.lo(h, r), sp.hi(h, s)),
        "ul": (r._upper_bound, s._lower_bound, sp.hi(h, r), sp.lo(h, s)),
        "uu": (r._upper_bound, s._upper_bound, sp.hi(h, r), sp.hi(h, s)),
    }
    a, b, A, B = pairs[h.choice("which", ["ll", "lu", "ul", "uu"])]
    lt, eq = sp.blt(h, A, B), sp.beq(h, A, B)
    h.ensure("<", h.iff(a < b, lt))
    h.ensure("<=", h.iff(a <= b, h.Or(lt, eq)))
    h.ensure(">", h.iff(a > b, h.Not(h.Or(lt, eq))))
    h.ensure(">=", h.iff(a >= b, h.Not(lt)))
    h.ensure("==", h.iff(a == b, eq))
    h.ensure("!=", h.iff(a != b, h.Not(eq)))


@contract("C01.eq_hash", covers=["equal", "different"])
def eq_hash(h):
    r = h.range_real("r")
    s = h.range_real("s")
    eq = r == s
    h.ensure("equality is equality of the bounds", h.iff(eq, sp.same(h, r, s)))
    h.ensure("!= is the negation of ==", h.iff(r != s, h.Not(eq)))
    if eq:
        h.cover("equal")
        h.ensure("equal ranges have equal hashes", h.eq(h.hash(r), h.hash(s)))
    else:
        h.cover("different")
    h.ensure("a range never equals a non-range", h.Not(r == 5) and h.Not(r == "x") and h.Not(r is None))


def _spellings(i):
    return [i, float(i), fractions.Fraction(i)] + ([bool(i)] if i in (0, 1) else [])


@contract("C01.spellings", prove=False, covers=["equal", "different"], scope="endpoints 0 to 2, written as integers, floats, fractions and booleans")
def spellings(h):
    """endpoints which are equal are the same endpoint, whatever their type and however they print"""
    rm = h.mod("vistautils.range")

    def one(name):
        shape = h.choice(name + ".shape", RANGE_SHAPES)
        a, n = h.int(name + ".lo", small=(0, 1), wide=(0, 2)), h.int(name + ".length", small=(0, 1), wide=(0, 2))
        if shape == "open":
            h.assume(n > 0)
        lo, hi = h.choice(name + ".lo as", _spellings(a)), h.choice(name + ".hi as", _spellings(a + n))
        key = (shape, a if shape in RANGE_SHAPES[:4] or shape.startswith(("greater", "at_least")) else None, a + n if shape in RANGE_SHAPES[:4] or shape.startswith(("less", "at_most")) else None)
        return build_range(rm, shape, lo, hi), key

    r, kr = one("r")
    s, ks = one("s")
    eq = r == s
    h.cover("equal" if eq else "different")
    h.ensure("equal iff of equal endpoints in equal positions", bool(eq) == (kr == ks), (r, s))
    h.ensure("!= is the negation of ==", bool(r != s) != bool(eq), (r, s))
    h.ensure("equal ranges have equal hashes", not eq or hash(r) == hash(s), (r, s))


@contract("C01.none", covers=["none"])
def none_rejected(h):
    r = h.range("r")
    h.ensure_raises("None is rejected as a value", ValueError, lambda: None in r)
    h.cover("none")
