"""Specification vocabulary over ranges, usable symbolically and concretely.

A bound is described as (inf, e, side): inf=-1/0/1, e the endpoint, side False = just below the
endpoint, True = just above it.  Concretely it is read off through the public accessors of Range.
"""


class CB:
    """concrete bound"""

    __slots__ = ("inf", "e", "side")

    def __init__(self, inf, e, side):
        self.inf, self.e, self.side = inf, e, side

    def __repr__(self):
        return {-1: "-inf", 1: "+inf"}.get(self.inf) or "%r%s" % (self.e, "+" if self.side else "-")


def lo(h, r):
    if h.symbolic:
        return h.M.cut_terms(r._lower_bound)
    rm = h.mod("vistautils.range")
    if not r.has_lower_bound():
        return CB(-1, None, False)
    return CB(0, r.lower_endpoint, r.lower_bound_type is rm.BoundType.open())


def hi(h, r):
    if h.symbolic:
        return h.M.cut_terms(r._upper_bound)
    rm = h.mod("vistautils.range")
    if not r.has_upper_bound():
        return CB(1, None, False)
    return CB(0, r.upper_endpoint, r.upper_bound_type is rm.BoundType.closed())


def blt(h, a, b):
    if h.symbolic:
        return h.C.mkbool(h.M.cut_lt(a, b))
    if a.inf != b.inf:
        return a.inf < b.inf
    if a.inf != 0:
        return False
    return a.e < b.e or (a.e == b.e and not a.side and b.side)


def beq(h, a, b):
    if h.symbolic:
        return h.C.mkbool(h.M.cut_eq(a, b))
    if a.inf != b.inf:
        return False
    return a.inf != 0 or (a.e == b.e and a.side == b.side)


def ble(h, a, b):
    return h.Or(blt(h, a, b), beq(h, a, b))


def above(h, c, x):
    """the value x lies above bound c"""
    if h.symbolic:
        return h.C.mkbool(h.M.val_above(c, x.t if hasattr(x, "t") else x))
    if c.inf != 0:
        return c.inf < 0
    return c.e < x or (c.e == x and not c.side)


def member(h, r, x):
    return h.And(above(h, lo(h, r), x), h.Not(above(h, hi(h, r), x)))


def empty(h, r):
    return beq(h, lo(h, r), hi(h, r))


def same(h, r, s):
    return h.And(beq(h, lo(h, r), lo(h, s)), beq(h, hi(h, r), hi(h, s)))


def encloses(h, r, s):
    return h.And(ble(h, lo(h, r), lo(h, s)), ble(h, hi(h, s), hi(h, r)))


def connected(h, r, s):
    return h.And(ble(h, lo(h, r), hi(h, s)), ble(h, lo(h, s), hi(h, r)))


def valid(h, r):
    L, U = lo(h, r), hi(h, r)
    if h.symbolic:
        z3 = h.z3
        NEG, POS = h.M.NEG, h.M.POS
        return h.C.mkbool(z3.And(NEG <= L.p, L.p < POS, NEG < U.p, U.p <= POS, L.p <= U.p))
    return ble(h, L, U)


def cmp_key(h):
    import functools

    def c(a, b):
        return -1 if blt(h, a, b) else (0 if beq(h, a, b) else 1)

    return functools.cmp_to_key(c)


def coalesce(h, rs):
    """Concrete oracle: the disjoint unconnected nonempty ranges whose union is the union of rs, as
    a sorted list of (lo, hi)."""
    items = [(lo(h, r), hi(h, r)) for r in rs if not empty(h, r)]
    key = cmp_key(h)
    items.sort(key=lambda p: key(p[0]))
    out = []
    for a, b in items:
        if out and ble(h, a, out[-1][1]):
            if blt(h, out[-1][1], b):
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


def bounds_of(h, rs):
    return [(lo(h, r), hi(h, r)) for r in rs]


def same_bounds(h, xs, ys):
    return len(xs) == len(ys) and all(beq(h, a[0], b[0]) and beq(h, a[1], b[1]) for a, b in zip(xs, ys))


def show(rs):
    return repr([repr(r) for r in rs])
