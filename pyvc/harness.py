"""The `h` object handed to contracts.

One contract text, several ways of running it:
  SymH       all inputs symbolic, every `ensure` is a proof obligation          (deductive check)
  ConcreteH  inputs enumerated exhaustively in a small scope, then drawn at random; the real,
             untransformed code is executed                           (bounded stand-in, replay)
"""
import importlib
import os
import random
import sys
import time
import traceback


class Skip(BaseException):
    """assume() failed on a concrete input."""


class Failed(BaseException):
    def __init__(self, label, detail=""):
        BaseException.__init__(self, label, detail)
        self.label = label
        self.detail = detail


REGISTRY = {}


class Contract:
    def __init__(self, name, fn, opts):
        self.name = name
        self.fn = fn
        self.prop = name.split(".")[0]
        self.opts = opts


def contract(name, **opts):
    """opts: prove(bool) run symbolically; concrete(bool); covers: labels that must be reachable;
    runs/rand: budgets for the bounded stand-in; scope: text stating the bound; bound: text, if the
    symbolic run is itself bounded in some dimension; sym_limit_s."""

    def deco(fn):
        REGISTRY[name] = Contract(name, fn, opts)
        return fn

    return deco


class Uninhabited(Exception):
    pass


# --------------------------------------------------------------------------- concrete elements
class OnlyLt:
    """A totally ordered value type with nothing but its order and a consistent ==/hash."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        if not isinstance(o, OnlyLt):
            return NotImplemented
        return self.v < o.v

    def __le__(self, o):
        return self.v <= o.v if isinstance(o, OnlyLt) else NotImplemented

    def __gt__(self, o):
        return self.v > o.v if isinstance(o, OnlyLt) else NotImplemented

    def __ge__(self, o):
        return self.v >= o.v if isinstance(o, OnlyLt) else NotImplemented

    def __eq__(self, o):
        return isinstance(o, OnlyLt) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "E%s" % self.v

    def __reduce__(self):
        return OnlyLt, (self.v,)


class Item:
    """something with a span; equality does not look at the span"""

    def __init__(self, span, name):
        self.span = span
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Item) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<item %s %s>" % (self.name, self.span)


def _date(i):
    import datetime

    return datetime.date(2000, 6, 15) + datetime.timedelta(days=i)


def _frac(i):
    from fractions import Fraction

    return Fraction(i, 3)


def _str(i):
    return "%05d" % (50000 + i)


ORD_KINDS = [
    ("int", lambda i: i),
    ("onlylt", OnlyLt),
    ("str", _str),
    ("float", lambda i: i / 2.0),
    ("date", _date),
    ("fraction", _frac),
    ("tuple", lambda i: (0, i)),
    ("bigint", lambda i: i * 10**20),
    ("bytes", lambda i: _str(i).encode()),
]

RANGE_SHAPES = (
    "closed_open",
    "closed",
    "open",
    "open_closed",
    "less_than",
    "at_most",
    "greater_than",
    "at_least",
    "all",
)


def build_range(rm, shape, a, b):
    R = rm.Range
    if shape in ("closed_open", "closed", "open", "open_closed"):
        return getattr(R, shape)(a, b)
    if shape in ("less_than", "at_most"):
        return getattr(R, shape)(b)
    if shape in ("greater_than", "at_least"):
        return getattr(R, shape)(a)
    return R.all()


def _range_from_bounds(rm, L, U):
    shape = {
        (-1, 1): "all",
        (-1, 0): "at_most" if U.side else "less_than",
        (0, 1): "greater_than" if L.side else "at_least",
    }.get((L.inf, U.inf))
    if shape is None:
        shape = {
            (False, False): "closed_open",
            (False, True): "closed",
            (True, False): "open",
            (True, True): "open_closed",
        }[(L.side, U.side)]
    return build_range(rm, shape, L.e, U.e)


class BaseH:
    symbolic = False

    def mod(self, name):
        return importlib.import_module(name)

    # -- spec connectives (no forking)
    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return a == b

    def merged(self, f):
        """f(), as one value (symbolically: all paths of f merged)"""
        return f()

    def by_contract(self, obj, method):
        """obj, with the one-argument predicate `method` known to its callers only as *some* pure
        predicate of the range it is given (its own contract is proved separately)"""
        return obj

    def outcome(self, f, *a, **k):
        """('return', value) or ('raise', exception) -- of the code under contract"""
        try:
            return ("return", f(*a, **k))
        except Exception as e:  # noqa: B902
            return ("raise", e)

    def ensure_raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc as e:
            self.ensure(label, True)
            return e
        except Exception as e:  # noqa: B902
            self.fail(label, "raised %r, expected %s" % (e, exc))
            return e
        self.fail(label, "did not raise %s" % (exc,))
        return None

    def same_type(self, a, b):
        return type(a) is type(b)

    def is_a(self, x, cls):
        return isinstance(x, cls)

    def value(self, name, pool):
        """an arbitrary object; bounded runs take it from the pool"""
        return pool[self.choice(name, range(len(pool)))]

    def value_list(self, name, pool, hi=2, wide=5):
        return [self.value(name, pool) for _ in range(self.size(name + ".n", 0, hi, wide))]

    def truthy(self, x):
        return bool(x)

    def equal(self, a, b):
        """a == b, by a's own notion"""
        return a == b

    def issub(self, a, b):
        return issubclass(a, b)

    def forall(self, n, f):
        """is f(i) true of all i < n (a case split)"""
        return all(f(i) for i in range(n))

    def spread(self, xs):
        """a sequence as positional arguments"""
        return xs

    # -- opaque objects and sequences of them
    def same(self, a, b):
        """the same object"""
        return a is b

    def at(self, xs, i):
        return xs[i]

    def give(self, kind, xs):
        """the sequence xs, as a list, a tuple, an iterator or an iterable of another kind"""
        return {
            "list": lambda: list(xs),
            "tuple": lambda: tuple(xs),
            "iterator": lambda: iter(list(xs)),
            "generator": lambda: (x for x in xs),
            "reiterable": lambda: Reiterable(xs),
        }[kind]()

    def items(self, it):
        """everything an iterable gives"""
        return list(it)

    def ensure_sequence(self, label, got, n, at, detail="", each=None):
        """the sequence `got` is at(0), ..., at(n - 1), object for object (or: each(got[i], i) for all i)"""
        self.ensure(label + ": as many", len(got) == n, (len(got), n, detail))
        for i in range(n):
            if each is not None:
                each(got[i], i)
            else:
                self.ensure(label + ": each", got[i] is at(i), (i, got[i], detail))


    def ensure_filtered(self, label, got, n, f, detail=""):
        """`got` is, for i = 0, ..., n - 1 in this order, the elements of f(i)"""
        want = [x for i in range(n) for x in f(i)]
        got = list(got)
        self.ensure(label, len(got) == len(want) and all(a is b for a, b in zip(got, want)), (got, want, detail))

    def nested_lists(self, name, item, hi=2, wide=5):
        return [item(name + "%d" % i) for i in range(self.size(name + ".n", 0, hi, wide))]

    def map_seq(self, xs, f):
        return [f(x) for x in xs]

    def ensure_flat(self, label, got, xss, detail=""):
        """`got` is the concatenation of xss"""
        got = list(got)
        want = [x for xs in xss for x in xs]
        self.ensure(label, len(got) == len(want) and all(a is b for a, b in zip(got, want)), (got, want, detail))

    def invariant(self, lid, state, check, owned=None):
        pass

    def instantiate(self, i):
        """ghost: use what is known of all indices at this one"""

    # text a contract expects: literals, ("int", n), ("repr", x), ("join", sep, n, f) with f(i) -> parts
    def text_of(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            elif p[0] == "int":
                out.append("%d" % p[1])
            elif p[0] == "repr":
                out.append(repr(p[1]))
            elif p[0] == "join":
                out.append(p[1].join(self.text_of(p[3](i)) for i in range(p[2])))
        return "".join(out)

    def ensure_text(self, label, got, parts, detail=""):
        want = self.text_of(parts)
        self.ensure(label, got == want, (got, want, detail))


class Reiterable:
    """an iterable which is neither sized nor a sequence; each iteration starts afresh"""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(list(self.xs))


class ConcreteH(BaseH):
    """Decision-tree driven concrete inputs."""

    def __init__(self, prefix, rng=None, fixed=None, tier="quick"):
        self.decisions = prefix  # list of [taken_index, n]
        self.pos = 0
        self.rng = rng  # None => exhaustive mode
        self.fixed = fixed or {}
        self.log = []
        self.covers = set()
        self.ensures = []
        self.tier = tier
        self.ord_kind = None
        self.ords = []
        self.cleanup = []
        self._n = 0
        self._content = {}
        self._keep = []

    # -- primitive choice
    def _pick(self, name, options, weight=None):
        options = list(options)
        if name in self.fixed:
            v = self.fixed[name]
            for o in options:
                if o == v:
                    return o
            return v
        if not options:
            raise Skip()
        if self.rng is not None:
            return options[self.rng.randrange(len(options))]
        if self.pos < len(self.decisions):
            i, n = self.decisions[self.pos]
            if n != len(options):
                raise RuntimeError("nondeterministic contract: %s" % name)
        else:
            i = 0
            self.decisions.append([0, len(options)])
        self.pos += 1
        return options[i]

    def note(self, name, v):
        self.log.append((name, v))
        return v

    def choice(self, name, options):
        v = self._pick(name, options)
        return self.note(name, v)

    def case(self, name, options):
        return self.choice(name, options)

    def bool(self, name):
        return self.choice(name, [False, True])

    def int(self, name, lo=None, hi=None, small=(-1, 3), wide=None):
        """lo/hi: bounds that are part of the property; small: scope of the exhaustive stand-in."""
        if self.rng is not None and name not in self.fixed:
            w = wide or (small[0] - 20, small[1] + 30)
            a = w[0] if lo is None else max(w[0], lo)
            b = w[1] if hi is None else min(w[1], hi)
            if self.rng.random() < 0.4:
                a2, b2 = max(a, small[0]), min(b, small[1])
                if a2 <= b2:
                    a, b = a2, b2
            return self.note(name, self.rng.randint(a, b))
        a = small[0] if lo is None else max(small[0], lo)
        b = small[1] if hi is None else min(small[1], hi)
        return self.note(name, self._pick(name, range(a, b + 1)))

    def ord(self, name, size=4):
        if self.ord_kind is None:
            k = 0
            if "ord_kind" in self.fixed:
                k = [n for n, _ in ORD_KINDS].index(self.fixed["ord_kind"])
            elif self.rng is not None:
                k = self.rng.randrange(len(ORD_KINDS))
            else:
                # exhaustive mode alternates plain ints and the minimal value type
                k = self._pick("ord_kind", [0, 1])
            self.ord_kind = ORD_KINDS[k]
            self.log.append(("ord_kind", self.ord_kind[0]))
        if name in self.fixed:
            i = self.fixed[name]
        elif self.rng is not None:
            if self.ords and self.rng.random() < 0.5:
                i = self.rng.choice(self.ords) + self.rng.choice([0, 0, 1, -1])
            else:
                i = self.rng.randint(-size, size) if self.rng.random() < 0.6 else self.rng.randint(-50, 50)
        else:
            i = self._pick(name, range(size))
        self.ords.append(i)
        self.log.append((name, i))
        return self.ord_kind[1](i)

    def val(self, name):
        self._n += 1
        return "v:" + name

    def text(self, name, alphabet="ab", max_len=2, wide_len=6):
        if name in self.fixed:
            return self.note(name, self.fixed[name])
        if self.rng is not None:
            n = self.rng.randint(0, wide_len)
            return self.note(name, "".join(self.rng.choice(alphabet) for _ in range(n)))
        n = self._pick(name + ".len", range(max_len + 1))
        s = "".join(self._pick("%s.%d" % (name, i), alphabet) for i in range(n))
        return self.note(name, s)

    def size(self, name, lo, hi, wide=None):
        """length of a bounded structure"""
        if name in self.fixed:
            return self.note(name, self.fixed[name])
        if self.rng is not None:
            return self.note(name, self.rng.randint(lo, wide if wide is not None else hi))
        return self.note(name, self._pick(name, range(lo, hi + 1)))

    def range(self, name, nonempty=False, bounded=False, size=4, shapes=None):
        rm = self.mod("vistautils.range")
        shape = self._pick(name + ".shape", shapes or (RANGE_SHAPES[:4] if bounded else RANGE_SHAPES))
        self.log.append((name + ".shape", shape))
        a = b = None
        if shape in RANGE_SHAPES[:4] or shape in ("greater_than", "at_least"):
            a = self.ord(name + ".lo", size)
        if shape in RANGE_SHAPES[:4] or shape in ("less_than", "at_most"):
            b = self.ord(name + ".hi", size)
        if a is not None and b is not None:
            if b < a:
                raise Skip()
            if a == b and (shape == "open" or (nonempty and shape != "closed")):
                raise Skip()
        return build_range(rm, shape, a, b)

    range_real = range

    def range_list(self, name, hi=2, wide=7, **kw):
        """a sequence of arbitrary ranges, any length"""
        return self.ranges(name, 0, hi, wide, **kw)

    # -- range sets: an arbitrary reachable range set
    def rangeset(self, name, hi=2, wide=7, size=4, immutable=None):
        rm = self.mod("vistautils.range")
        if name in self.fixed:
            if self.ord_kind is None:
                self.ord_kind = ORD_KINDS[0]
            rs = [
                build_range(
                    rm,
                    sh,
                    None if a is None else self.ord_kind[1](a),
                    None if b is None else self.ord_kind[1](b),
                )
                for sh, a, b in self.fixed[name]
            ]
            self.log.append((name, self.fixed[name]))
        elif self.rng is not None and self.rng.random() < 0.6:
            rs = self.ladder(name, wide)
        else:
            rs = self.ranges(name, 0, hi, wide, size=size)
        if immutable is None:
            immutable = False
        if immutable:
            s = rm.ImmutableRangeSet.builder().add_all(rs).build()
        else:
            s = rm.RangeSet.create_mutable().add_all(rs)
        self._content[id(s)] = rs
        self._keep.append(s)
        return s

    def ladder(self, name, wide):
        """random mode: up to `wide` nonempty pairwise unconnected ranges, in any order"""
        rng = self.rng
        rm = self.mod("vistautils.range")
        self.ord("%s.at" % name)  # fixes the kind of elements
        n = rng.randint(0, wide)
        c = 2 * self.ords[-1] + rng.randint(-6, 1)
        out = []
        for i in range(n):
            lo = c + rng.choice([1, 1, 1, 2, 2, 3, 5])
            up = lo + rng.choice([1, 1, 2, 2, 3, 4, 7])
            c = up
            a = None if i == 0 and rng.random() < 0.15 else lo // 2
            b = None if i == n - 1 and rng.random() < 0.15 else up // 2
            if a is None:
                shape = "all" if b is None else ("at_most" if up % 2 else "less_than")
            elif b is None:
                shape = "greater_than" if lo % 2 else "at_least"
            else:
                shape = ("open", "open_closed", "closed_open", "closed")[2 * (lo % 2 == 0) + up % 2]
            self.ords += [x for x in (a, b) if x is not None]
            out.append((shape, a, b))
        rng.shuffle(out)
        self.log.append((name, out))
        k = self.ord_kind[1]
        return [build_range(rm, sh, None if a is None else k(a), None if b is None else k(b)) for sh, a, b in out]

    def content(self, s):
        """stored ranges as the documentation defines them (oracle over what was put in)"""
        from . import spec as sp

        rm = self.mod("vistautils.range")
        rs = self._content.get(id(s))
        if rs is None:
            return list(s.as_ranges())
        out = []
        for L, U in sp.coalesce(self, rs):
            out.append(_range_from_bounds(rm, L, U))
        return out

    def snapshot(self, s):
        return list(s.as_ranges())

    def set_invariant(self, label, s):
        from . import spec as sp

        rs = list(s.as_ranges())
        for r in rs:
            self.ensure(label + ": stored ranges are nonempty", not sp.empty(self, r), sp.show(rs))
        for i in range(len(rs)):
            for j in range(i + 1, len(rs)):
                self.ensure(
                    label + ": stored ranges are sorted, disjoint and unconnected",
                    sp.blt(self, sp.hi(self, rs[i]), sp.lo(self, rs[j])),
                    sp.show(rs),
                )

    # -- range maps
    def rangemap(self, name, hi=3, wide=6, size=4):
        """an arbitrary range map, and its content as a list of (range, value)"""
        from . import spec as sp

        rm = self.mod("vistautils.range")
        if self.rng is not None and self.rng.random() < 0.6:
            rs = self.ladder(name, wide)
        else:
            rs = self.ranges(name, 0, hi, wide, size=size)
        for i in range(len(rs)):
            self.assume(not sp.empty(self, rs[i]))
            for j in range(i):
                self.assume(not sp.connected(self, rs[i], rs[j]))
        # values that Python takes for false are values too
        odd = ["", 0, (), frozenset(), b""] if self.bool(name + ".falsy values") else []
        pairs = [(r, odd[i] if i < len(odd) else "v%d" % i) for i, r in enumerate(rs)]
        how = self.choice(name + ".how", ["function", "builder"])
        if how == "function":
            return rm.immutablerangemap(pairs), pairs
        b = rm.ImmutableRangeMap.builder()
        for k, v in pairs:
            b.put(k, v)
        return b.build(), pairs

    def each_entry(self, content, f):
        """goal: f(range, value) for every entry"""
        return all(bool(f(r, v)) for r, v in content)

    def some_entry(self, content, f):
        return any(bool(f(r, v)) for r, v in content)

    def is_value(self, res, v):
        return res is not None and res == v

    def span_index(self, name, disjoint, hi=3, wide=7, small=(0, 3)):
        """an arbitrary span index, and its content as (span, item) pairs"""
        sm = self.mod("vistautils.span")
        items = []
        n = self.size(name + ".n", 0, hi, wide)
        top = small[1] if n <= hi else small[1] + 2 * n
        for i in range(n):
            a = self.int("%s.start" % name, small=(small[0], top), wide=(small[0], top))
            b = a + self.int("%s.length" % name, small=(1, 4), wide=(1, 6))
            items.append(Item(sm.Span(a, b), i))
        if disjoint:
            for i in range(n):
                for j in range(i):
                    self.assume(items[i].span.end <= items[j].span.start or items[j].span.end <= items[i].span.start)
        src = iter(items) if self.bool(name + ".iterator") else list(items)
        ix = sm.HasSpanIndex.index_disjoint(src) if disjoint else sm.HasSpanIndex.index(src)
        return ix, [(x.span, x) for x in items]

    def set_member(self, snap, x):
        from . import spec as sp

        return any(bool(sp.member(self, r, x)) for r in snap)

    def some(self, snap, pred):
        return any(bool(pred(r)) for r in snap)

    some_in = some

    def stored(self, snap, r):
        from . import spec as sp

        return any(bool(sp.same(self, q, r)) for q in snap)

    def result_has(self, result, r, same=None):
        from . import spec as sp

        same = same or (lambda a, b: sp.same(self, a, b))
        return any(bool(same(q, r)) for q in result)

    def each_result(self, result, pred):
        return all(bool(pred(r)) for r in result)

    def once(self, label, result):
        """the result is a set: nothing is reported twice"""
        from collections.abc import Set

        self.ensure(label, isinstance(result, Set) and len(set(result)) == len(list(result)))

    def span_list(self, name, hi=3, wide=7, small=(0, 3)):
        S = self.mod("vistautils.span").Span
        n = self.size(name + ".n", 0, hi, wide)
        out = []
        for i in range(n):
            a = self.int("%s%d.start" % (name, i), small=small)
            b = self.int("%s%d.end" % (name, i), small=small)
            self.assume(a < b)
            out.append(S(a, b))
        return out

    def iterator(self, xs):
        return iter(xs)

    def len(self, xs):
        return len(xs)

    def each(self, xs, f):
        """goal: f holds for every element"""
        return all(bool(f(x)) for x in xs)

    each_hyp = each  # the same as a hypothesis

    def hash(self, x):
        return hash(x)

    def ranges(self, name, lo=0, hi=2, wide=7, **kw):
        n = self.size(name + ".n", lo, hi, wide)
        return [self.range("%s%d" % (name, i), **kw) for i in range(n)]

    def assume(self, c):
        if not c:
            raise Skip()

    def ensure(self, label, c, detail=""):
        self.ensures.append(label)
        if not c:
            raise Failed(label, detail)

    def fail(self, label, detail=""):
        raise Failed(label, detail)

    def cover(self, label):
        self.covers.add(label)

    def tmpdir(self):
        import tempfile
        import shutil

        d = tempfile.mkdtemp(prefix="pyvc-")
        self.cleanup.append(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def held_files(self):
        """the scratch files this process still has open"""
        import os

        out = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                x = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if "/pyvc-" in x and "(deleted)" not in x:
                out.append(x)
        return out

    def done(self):
        for f in self.cleanup:
            f()


def _enum_next(decisions, used):
    ds = decisions[:used]
    while ds and ds[-1][0] + 1 >= ds[-1][1]:
        ds.pop()
    if not ds:
        return None
    ds[-1][0] += 1
    return ds


class ConcreteResult:
    def __init__(self):
        self.runs = 0
        self.skipped = 0
        self.exhausted = False
        self.random_runs = 0
        self.ensures = {}
        self.covers = set()
        self.failure = None
        self.samples = []
        self.distinct = set()
        self.wall = 0.0

    def as_dict(self):
        d = dict(self.__dict__)
        d["distinct"] = len(self.distinct)
        d["covers"] = sorted(self.covers)
        return d


def _one(c, h):
    """returns None or a failure dict"""
    try:
        try:
            c.fn(h)
        finally:
            h.done()
    except Skip:
        return "skip"
    except Failed as e:
        return {
            "contract": c.name,
            "label": e.label,
            "detail": str(e.detail)[:2000],
            "inputs": [(n, _safe(v)) for n, v in h.log],
        }
    except RecursionError as e:
        return _exc_failure(c, h, e)
    except Exception as e:  # noqa: B902
        return _exc_failure(c, h, e)
    return None


def _exc_failure(c, h, e):
    return {
        "contract": c.name,
        "label": "no unexpected exception",
        "detail": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
        "inputs": [(n, _safe(v)) for n, v in h.log],
    }


def _safe(v):
    if isinstance(v, (int, str, float, bool, type(None))):
        return v
    return repr(v)[:300]


def run_concrete(c, tier, seed, budget_s, max_runs=None, random_runs=None):
    res = ConcreteResult()
    t0 = time.monotonic()
    quick = tier == "quick"
    max_runs = max_runs or c.opts.get("runs", 20000) * (1 if quick else 10)
    random_runs = random_runs or c.opts.get("rand", 3000) * (1 if quick else 20)
    exhaustive_budget = budget_s * 0.6
    if tier == "search":  # a proof failed: look for a failing input, at random only
        max_runs, random_runs = 0, 10**9
    prefix = []
    while prefix is not None and res.runs < max_runs:
        if time.monotonic() - t0 > exhaustive_budget:
            break
        h = ConcreteH(prefix, tier=tier)
        f = _one(c, h)
        res.runs += 1
        if f == "skip":
            res.skipped += 1
        elif f is not None:
            f["mode"] = "exhaustive"
            f["decisions"] = [list(d) for d in h.decisions[: h.pos]]
            res.failure = f
            break
        else:
            _account(res, h)
        prefix = _enum_next(h.decisions, h.pos)
    res.exhausted = prefix is None
    if res.failure is None:
        for i in range(random_runs):
            if time.monotonic() - t0 > budget_s:
                break
            s = "%d/%s/%d" % (seed, c.name, i)
            h = ConcreteH([], rng=random.Random(s), tier=tier)
            f = _one(c, h)
            res.random_runs += 1
            if f == "skip":
                res.skipped += 1
            elif f is not None:
                f["mode"] = "random"
                f["rng"] = s
                res.failure = f
                break
            else:
                _account(res, h)
    res.wall = time.monotonic() - t0
    return res


def _account(res, h):
    for e in h.ensures:
        res.ensures[e] = res.ensures.get(e, 0) + 1
    res.covers |= h.covers
    if h.ensures:
        res.distinct.add(hash(repr(h.log)))
    if len(res.samples) < 3 or (res.runs % 997 == 0 and len(res.samples) < 8):
        res.samples.append([(n, _safe(v)) for n, v in h.log][:12])


def replay_concrete(c, failure, tier="quick"):
    """Re-run one recorded failing input on the real code; returns the failure or None."""
    if failure.get("mode") == "random":
        h = ConcreteH([], rng=random.Random(failure["rng"]), tier=tier)
    elif failure.get("mode") == "model":
        h = ConcreteH([], fixed=failure["fixed"], tier=tier)
    else:
        h = ConcreteH([list(d) for d in failure["decisions"]], tier=tier)
    f = _one(c, h)
    return f if isinstance(f, dict) else None


# --------------------------------------------------------------------------- symbolic provider
class SymH(BaseH):
    symbolic = True

    def __init__(self, run):
        from . import core, models, symbuiltins

        self.C, self.M, self.S = core, models, symbuiltins
        self.z3 = core.z3
        self.run = run
        self.covers = set()
        self.tier = run.tier
        self._n = 0
        self._patches = []
        self.inputs = core.cur().inputs

    # inputs
    def _reg(self, name, kind, term):
        self.inputs.append((name, kind, term))

    def choice(self, name, options):
        v = self.C.cur().choose(list(options), name)
        self._reg(name, "choice", v)
        return v

    case = choice

    def bool(self, name):
        t = self.z3.Bool(name)
        self._reg(name, "bool", t)
        return self.C.SymBool(t)

    def int(self, name, lo=None, hi=None, small=None, wide=None):
        t = self.z3.Int(name)
        self._reg(name, "int", t)
        if lo is not None:
            self.C.cur().add(t >= lo)
        if hi is not None:
            self.C.cur().add(t <= hi)
        return self.C.SymInt(t)

    def ord(self, name, size=None):
        t = self.z3.Int(name)
        self._reg(name, "ord", t)
        self.M.value_axiom(t)
        return self.C.SymOrd(t)

    def val(self, name):
        t = self.z3.Const(name, self.C.VAL)
        return self.C.SymVal(t, name)

    def text(self, *a, **k):
        raise self.C.Unsupported("symbolic text")

    def size(self, name, lo, hi, wide=None):
        return self.choice(name, range(lo, hi + 1))

    def range(self, name, nonempty=False, bounded=False, size=None, shapes=None):
        """An arbitrary valid range (class invariant of Range assumed; its establishment by every
        constructor is the contract C01.construct)."""
        self.mod("vistautils.range")
        z3, M, C = self.z3, self.M, self.C
        p = C.cur()
        lo, hi = M.CutT(z3.Int(name + ".lo")), M.CutT(z3.Int(name + ".hi"))
        NEG, POS = M.NEG, M.POS
        if bounded:
            p.add(z3.And(NEG < lo.p, hi.p < POS))
        p.axiom(NEG < POS)
        p.add(z3.And(NEG <= lo.p, lo.p < POS, NEG < hi.p, hi.p <= POS))
        p.add(M.cut_lt(lo, hi) if nonempty else M.cut_le(lo, hi))
        self._reg(name, "range", (lo, hi))
        return M.mkrange(lo, hi)

    def range_real(self, name, nonempty=False, shapes=None):
        """built by the real factories from symbolic endpoints"""
        rm = self.mod("vistautils.range")
        shape = self.choice(name + ".shape", shapes or RANGE_SHAPES)
        a = self.ord(name + ".lo")
        b = self.ord(name + ".hi")
        if shape in RANGE_SHAPES[:4]:
            self.assume(self.Not(b < a))
            if shape == "open" or (nonempty and shape != "closed"):
                self.assume(a < b)
        return build_range(rm, shape, a, b)

    def range_list(self, name, hi=2, wide=7, nonempty=False, **kw):
        self.mod("vistautils.range")
        z3, M, C, S = self.z3, self.M, self.C, self.S
        p = C.cur()
        flo = z3.Function(name + "_lo", z3.IntSort(), z3.IntSort())
        fhi = z3.Function(name + "_hi", z3.IntSort(), z3.IntSort())
        n = z3.Int(name + "_n")
        p.axiom(n >= 0)
        p.axiom(M.NEG < M.POS)

        def inv(i):
            a, b = flo(i), fhi(i)
            return z3.Implies(
                z3.And(i >= 0, i < n),
                z3.And(M.NEG <= a, a < M.POS, M.NEG < b, b <= M.POS, (a < b) if nonempty else (a <= b)),
            )

        S.add_forall(p, inv)
        seq = S.SymSeq(n, lambda i: M.mkrange(M.CutT(flo(i)), M.CutT(fhi(i))))
        self._reg(name, "symlist", n)
        return seq

    def rangeset(self, name, hi=None, wide=None, size=None, immutable=None):
        """A range set of any size satisfying the representation invariant (established by create,
        add, clear and build, and assumed here: C03)."""
        rm = self.mod("vistautils.range")
        base = self.M.BaseSeq(name)
        sd = self.M.SymSortedDict(base.n, base.lo, base.hi, name)
        self._reg(name, "rangeset", base)
        cls = rm._ImmutableSortedDictRangeSet if immutable else rm._MutableSortedDictRangeSet
        return cls(sd)

    def rangemap(self, name, hi=None, wide=None, size=None):
        rm = self.mod("vistautils.range")
        base = self.M.BaseSeq(name)
        self._reg(name, "rangemap", base)
        d = self.M.SymRangeDict(base, name)
        sd = self.M.SymSortedDict(base.n, base.lo, base.hi, name)
        m = object.__new__(rm.ImmutableRangeMap)
        object.__setattr__(m, "rng_to_val", d)
        object.__setattr__(m, "range_set", rm._ImmutableSortedDictRangeSet(sd))
        return m, d

    def each_entry(self, content, f):
        p = self.C.cur()
        if not isinstance(content, self.M.SymRangeDict):
            i = content.fresh(p)
            return self.C.mkbool(self.z3.Implies(content.domain(i), self._b(f(*content.entry(i)))))
        i = p.const("any", self.z3.IntSort())
        self.S.index_term(p, i)
        sd = content.sd
        return self.C.mkbool(
            self.z3.Implies(
                self.z3.And(i >= 0, i < sd.n), self._b(f(sd.value(i), content.val(i)))
            )
        )

    def some_entry(self, content, f):
        z3 = self.z3
        p = self.C.cur()
        if not isinstance(content, self.M.SymRangeDict):
            alts = [z3.And(content.domain(t), self._b(f(*content.entry(t)))) for t in content.terms(p)]
            return self.C.mkbool(z3.Or(*alts)) if alts else False
        sd = content.sd
        alts = [
            z3.And(t >= 0, t < sd.n, self._b(f(sd.value(t), content.val(t))))
            for t in list(self.S.quant(p).terms)
        ]
        return self.C.mkbool(z3.Or(*alts)) if alts else False

    def span_index(self, name, disjoint):
        """an arbitrary span index of any size, and its content"""
        rm, sm = self.mod("vistautils.range"), self.mod("vistautils.span")
        mk = lambda a, b: self.raw_span(sm, a, b)  # noqa: E731
        if not disjoint:
            d = self.M.SymSpanMultiDict(name, mk)
            self._reg(name, "spanindex", d)
            x = object.__new__(sm._OverLappingHasSpanIndex)
            object.__setattr__(x, "_span_to_item_index", d)
            return x, d
        base = self.M.SpanSeq(name)
        self._reg(name, "spanindex", base)
        d = self.M.SymRangeDict(base, name)
        m = object.__new__(rm.ImmutableRangeMap)
        object.__setattr__(m, "rng_to_val", d)
        object.__setattr__(m, "range_set", rm._ImmutableSortedDictRangeSet(self.M.SymSortedDict(base.n, base.lo, base.hi, name)))
        x = object.__new__(sm._DisjointHasSpanIndex)
        object.__setattr__(x, "_range_to_item_index", m)
        return x, self.M.SpanContent(base, d, mk)

    def is_value(self, res, v):
        if res is None:
            return False
        return self.C.mkbool(res.t == v.t)

    def sd(self, s):
        for v in vars(s).values():
            if isinstance(v, self.M.SymSortedDict):
                return v
        raise self.C.Unsupported("no sorted dictionary inside the range set")

    def snapshot(self, s):
        return self.sd(s).copy()

    content = snapshot

    def set_invariant(self, label, s):
        z3, M, C, S = self.z3, self.M, self.C, self.S
        sd = self.sd(s)
        p = C.cur()
        for c in sd.coherent:
            self.ensure(label + ": key is the lower bound", C.mkbool(c))
        i, j = p.const("i", z3.IntSort()), p.const("j", z3.IntSort())
        S.index_term(p, i)
        S.index_term(p, j)
        lo, hi = sd.lo(i), sd.hi(i)
        self.ensure(
            label + ": stored ranges are nonempty",
            C.mkbool(
                z3.Implies(
                    z3.And(i >= 0, i < sd.n),
                    z3.And(M.NEG <= lo.p, lo.p < hi.p, hi.p <= M.POS),
                )
            ),
        )
        self.ensure(
            label + ": stored ranges are sorted, disjoint and unconnected",
            C.mkbool(z3.Implies(z3.And(i >= 0, i < j, j < sd.n), M.cut_lt(hi, sd.lo(j)))),
        )
        self.ensure(label + ": size is not negative", C.mkbool(sd.n >= 0))

    def set_member(self, snap, x):
        """exists a stored range containing x, by the canonical witness: the last range beginning at
        or below x (C03.member_lemma proves that every containing range is this one)"""
        z3, M, C = self.z3, self.M, self.C
        b = snap._bisect(M.SymCut(M.below_v(x.t)), True)
        w = z3.simplify(b - 1)
        return C.mkbool(z3.And(w >= 0, w < snap.n, M.in_range_t(snap.lo(w), snap.hi(w), x.t)))

    def some(self, snap, pred):
        """existential goal, by witnesses among the index terms of the path"""
        z3, C, S = self.z3, self.C, self.S
        p = C.cur()
        alts = []
        for t in list(S.quant(p).terms):
            alts.append(z3.And(t >= 0, t < snap.n, self._b(pred(snap.value(t)))))
        return C.mkbool(z3.Or(*alts)) if alts else False

    def some_in(self, xs, pred):
        s = self.S.as_symseq(xs)
        z3 = self.z3
        p = self.C.cur()
        alts = [z3.And(s.domain(t), self._b(pred(s.at(t)))) for t in list(self.S.quant(p).terms)]
        return self.C.mkbool(z3.Or(*alts)) if alts else False

    def each(self, xs, f):
        if isinstance(xs, self.M.SymSortedDict):
            xs = xs.values()
        return self._each(xs, f)

    def stored(self, snap, r):
        M, C, z3 = self.M, self.C, self.z3
        lo, hi = M.range_terms(r)
        b, pres = snap._find(M.SymCut(lo))
        return C.mkbool(z3.And(pres, M.cut_eq(snap.hi(b), hi)))

    def _chunks(self, result):
        if isinstance(result, self.M.SymSetView):
            return result.chunks
        if isinstance(result, (self.S.SymComp, self.S.SymSeq)):
            return [result]
        if isinstance(result, self.S.EList) and result.segs is not None:
            return [x.comp if isinstance(x, self.S.GenChunk) else x for x in result.segs]
        return list(result)

    def result_has(self, result, r, same=None):
        from . import spec as sp

        same = same or (lambda a, b: sp.same(self, a, b))
        z3, C, S = self.z3, self.C, self.S
        p = C.cur()
        alts = []
        for ch in self._chunks(result):
            if isinstance(ch, S.SymComp):
                off = getattr(ch.seq, "off", None)
                for t in list(S.quant(p).terms):
                    for u in [t] if off is None else [t, z3.simplify(t - off)]:
                        for g, e in ch.members_at(u):
                            alts.append(z3.And(ch.seq.domain(u), g, self._b(same(e, r))))
            else:
                alts.append(self._b(same(ch, r)))
        return C.mkbool(z3.Or(*alts)) if alts else False

    def each_result(self, result, pred):
        z3, C, S = self.z3, self.C, self.S
        p = C.cur()
        goals = []
        for ch in self._chunks(result):
            if isinstance(ch, S.SymComp):
                j = p.const("res", z3.IntSort())
                S.index_term(p, j)
                if isinstance(ch.seq, S.PairSeq):
                    inner = p.const("resin", z3.IntSort())
                    S.index_term(p, inner)
                    j = S.pair_term(p, j, inner)
                off = getattr(ch.seq, "off", None)
                if off is not None:
                    S.index_term(p, z3.simplify(off + j))
                for g, e in ch.members_at(j):
                    goals.append(z3.Implies(z3.And(ch.seq.domain(j), g), self._b(pred(e))))
            else:
                goals.append(self._b(pred(ch)))
        return C.mkbool(z3.And(*goals)) if goals else True

    def once(self, label, result):
        """by the type of the result (contract of the immutable set)"""
        from immutablecollections import ImmutableSet

        self.ensure(label, isinstance(result, (self.M.SymSetView, ImmutableSet)))

    def span_list(self, name, hi=3, wide=None, small=None):
        """a sequence of arbitrary spans, any length"""
        sm = self.mod("vistautils.span")
        z3, C, S = self.z3, self.C, self.S
        f = z3.Function(name + "_start", z3.IntSort(), z3.IntSort())
        g = z3.Function(name + "_end", z3.IntSort(), z3.IntSort())
        n = z3.Int(name + "_n")
        p = C.cur()
        p.axiom(n >= 0)
        S.add_forall(p, lambda i: z3.Implies(z3.And(i >= 0, i < n), f(i) < g(i)))
        self._reg(name, "symlist", n)
        return S.SymSeq(n, lambda i: self.raw_span(sm, C.SymInt(f(i)), C.SymInt(g(i))))

    def raw_span(self, sm, a, b):
        s = object.__new__(sm.Span)
        object.__setattr__(s, "start", a)
        object.__setattr__(s, "end", b)
        return s

    def iterator(self, xs):
        s = self.S.as_symseq(xs)
        return self.S.SymSeqIter(s) if s is not None else iter(xs)

    def len(self, xs):
        return self.S.sym_len(xs)

    def _each(self, xs, f):
        """goal position: for an arbitrary index"""
        s = self.S.as_symseq(xs)
        if s is None:
            return self.And(*[f(x) for x in xs])
        p = self.C.cur()
        i = p.const("any", self.z3.IntSort())
        self.S.index_term(p, i)
        return self.C.mkbool(self.z3.Implies(s.domain(i), self._b(f(s.at(i)))))

    def each_hyp(self, xs, f):
        if isinstance(xs, self.M.SymSortedDict):
            xs = xs.values()
        return self._each_hyp(xs, f)

    def _each_hyp(self, xs, f):
        """hypothesis position (negative polarity): conjunction over the index terms in scope"""
        s = self.S.as_symseq(xs)
        if s is None:
            return self.And(*[f(x) for x in xs])
        p = self.C.cur()
        terms = list(self.S.quant(p).terms)
        return self.C.mkbool(
            self.z3.And(*[self.z3.Implies(s.domain(i), self._b(f(s.at(i)))) for i in terms] or [self.z3.BoolVal(True)])
        )

    def hash(self, x):
        S = self.S
        old, S.HashMode.uf = S.HashMode.uf, True
        try:
            return S.sym_hash(x)
        finally:
            S.HashMode.uf = old

    def ranges(self, name, lo=0, hi=2, wide=None, **kw):
        n = self.size(name + ".n", lo, hi)
        return [self.range("%s%d" % (name, i), **kw) for i in range(n)]

    # opaque objects
    @property
    def A(self):
        from . import anymodels

        return anymodels

    def any(self, name):
        """an arbitrary object"""
        t = self.z3.Const(name, self.A.ANY)
        self._reg(name, "any", t)
        return self.A.SymAny(t)

    def any_list(self, name):
        """a sequence of any length of arbitrary objects"""
        s = self.A.any_seq(name)
        self._reg(name, "any", s.n)
        return s

    def is_a(self, x, cls):
        r = self.S.sym_isinstance(x, cls)
        return r

    def value(self, name, pool):
        return self.any(name)

    def value_list(self, name, pool, hi=None, wide=None):
        return self.any_list(name)

    def truthy(self, x):
        return bool(x)

    def issub(self, a, b):
        return self.S.sym_issubclass(a, b)

    def forall(self, n, f):
        p, z3, C, S = self.C.cur(), self.z3, self.C, self.S
        n = C.I(n)
        if p.choose([True, False], "forall"):
            S.add_forall(p, lambda i: z3.Implies(z3.And(i >= 0, i < n), C.B(f(C.mkint(i)))))
            if p.ex.solver.check(p.pc) == "unsat":
                raise C.Infeasible()
            return True
        i = p.const("w", z3.IntSort())
        S.index_term(p, i)
        p.assume(z3.And(i >= 0, i < n, z3.Not(C.B(f(C.mkint(i))))))
        return False

    def spread(self, xs):
        return (self.S.Spread(xs),)

    def ite(self, c, a, b):
        if isinstance(c, self.C.SymBool) and all(isinstance(x, (int, self.C.SymInt)) for x in (a, b)):
            return self.C.mkint(self.z3.If(c.t, self.C.I(a), self.C.I(b)))
        return a if c else b

    def same(self, a, b):
        return self.C.mkbool(self.A.same_object(a, b))

    def at(self, xs, i):
        return xs.at(self.C.I(i))

    def give(self, kind, xs):
        S = self.S
        return {
            "list": lambda: xs,
            "tuple": lambda: self.A.SymTuple(xs.n, xs.at),
            "iterator": lambda: S.SymSeqIter(xs),
            "generator": lambda: S.SymSeqIter(xs),
            "reiterable": lambda: self.A.SymReiterable(xs),
        }[kind]()

    def items(self, it):
        S = self.S
        if isinstance(it, (list, tuple)) and not (isinstance(it, S.EList) and it.segs is not None):
            return self.fixed_seq(it)
        if S.symiter(it):
            s = S.consume(it)
            if s is None:
                raise self.C.Unsupported("items of %s" % type(it).__name__)
            return s
        if not hasattr(it, "__next__"):
            return self.items(iter(it))
        x = S._segments(it)
        if isinstance(x, S.EList) and x.segs is not None:
            return S.concat(x.segs)
        return self.fixed_seq(x)

    def fixed_seq(self, xs):
        xs = list(xs)

        def at(i):
            i = self.z3.simplify(i)
            for j, x in enumerate(xs[:-1]):
                if self.C.cur().decide(i == j):
                    return x
            return xs[-1]

        return self.S.SymSeq(self.z3.IntVal(len(xs)), at)

    def ensure_sequence(self, label, got, n, at, detail="", each=None):
        z3, C, S = self.z3, self.C, self.S
        n = C.I(n)
        self.ensure(label + ": as many", C.mkbool(got.n == n), detail)
        p = C.cur()
        i = p.const("pos", z3.IntSort())
        S.index_term(p, i)
        if p.ex.solver.check(p.pc, i >= 0, i < n) == "unsat":
            return
        p.assume(z3.And(i >= 0, i < n))
        if each is not None:
            return each(got.at(i), C.mkint(i))
        self.ensure(label + ": each", self.same(got.at(i), at(C.mkint(i))), detail)

    def ensure_text(self, label, got, parts, detail=""):
        from . import textmodels as T

        def build(parts):
            out = []
            for p in parts:
                if isinstance(p, str):
                    out.append(p)
                elif p[0] == "join":
                    f = p[3]
                    out.append(("join", p[1], self.S.SymSeq(self.C.I(p[2]), lambda i, f=f: build(f(self.C.mkint(i))))))
                elif p[0] == "int" and not isinstance(p[1], self.C.SymInt):
                    out.append("%d" % p[1])
                else:
                    out.append(p)
            return T.SymText(out)

        T.ensure_same(self, label, got, build(parts), detail)

    # objects of a class whose fields are known, strings by value, mappings
    @property
    def MM(self):
        from . import mapmodels

        return mapmodels

    def model_class(self, cls, fields):
        """objects of the class have these fields: name -> function of the object's term"""
        self.MM.class_models()[cls] = fields

    def string(self, name):
        """an arbitrary string"""
        t = self.z3.Const(name, self.A.ANY)
        self._reg(name, "any", t)
        return self.MM.SymStr(t)

    def instance(self, name, cls):
        x = self.any(name)
        self.assume(self.is_a(x, cls))
        return x

    def fn(self, name, *sorts):
        s = {"any": self.A.ANY, "int": self.z3.IntSort(), "bool": self.z3.BoolSort()}
        return self.z3.Function(name, *[s[x] for x in sorts])

    def strings_in_lists(self, env):
        """lists held by variables hold strings (an invariant put in place and, by `check_lists`, kept)"""
        p = self.C.cur()
        for v in env.values():
            if type(v) is self.S.EList and (v.segs is not None or len(v) == 0):
                n = p.const("strings", self.z3.IntSort())
                p.axiom(n >= 0)
                f = self.z3.Function(str(n) + "_at", self.z3.IntSort(), self.A.ANY)
                v.segs = None
                list.clear(v)
                v._bulk(self.S._as_comp(self.S.SymSeq(n, lambda i, f=f: self.MM.SymStr(f(i)))))

    def strings(self, name, distinct=True):
        """a sequence of any length of arbitrary strings"""
        f = self.fn(name + "_at", "int", "any")
        n = self.z3.Int(name + "_n")
        p = self.C.cur()
        p.axiom(n >= 0)
        self._reg(name, "any", n)
        if distinct:
            pos = self.fn(name + "_pos", "any", "int")
            self.always(lambda i: self.z3.Implies(self.z3.And(i >= 0, i < n), pos(f(i)) == i))
        return self.S.SymSeq(n, lambda i: self.MM.SymStr(f(i)))

    def position(self, xs, name):
        """an arbitrary position of a sequence"""
        i = self.C.cur().const(name, self.z3.IntSort())
        self.S.index_term(self.C.cur(), i)
        self.assume(self.C.mkbool(self.z3.And(i >= 0, i < xs.n)))
        return self.C.mkint(i)

    def length(self, xs):
        return xs.__pyvc_len__() if hasattr(xs, "__pyvc_len__") else len(xs)

    def exists(self, n, f):
        """does it hold at one of the positions which have been spoken of"""
        z3, C = self.z3, self.C
        n = C.I(n)
        return C.mkbool(z3.Or(*[z3.And(t >= 0, t < n, C.B(f(C.mkint(t)))) for t in list(self.S.quant(C.cur()).terms)] or [False]))

    def exists_key(self, m, f, at=None):
        """does it hold of one of the mapping's keys (those which have been spoken of; or at the positions given)"""
        z3, C = self.z3, self.C
        p, seen, alts = C.cur(), set(), []
        for x in p.store.get("all_maps", ()):
            for t in list(self.S.quant(p).terms) if at is None else [C.z3.IntVal(j) for j in at]:
                k = x.key(t)
                if k.get_id() not in seen:
                    seen.add(k.get_id())
                    alts.append(z3.And(t >= 0, t < x.n, m.has(x.key_at(t)), C.B(f(k))))
        return C.mkbool(z3.Or(*alts or [False]))

    def speak_of(self, *keys):
        """the keys are asked of every mapping there is (those which enumerate sets among them)"""
        for m in self.C.cur().store.get("all_maps", ()):
            for k in keys:
                m.has(self.A.any_term(k))

    def two(self, n, f):
        """does it hold at two of the positions which have been spoken of"""
        z3, C = self.z3, self.C
        n = C.I(n)
        ts = list(self.S.quant(C.cur()).terms)
        fs = [z3.And(t >= 0, t < n, C.B(f(C.mkint(t)))) for t in ts]
        return C.mkbool(z3.Or(*[z3.And(fs[i], fs[j], ts[i] != ts[j]) for i in range(len(ts)) for j in range(i)] or [False]))

    # sets, lists and relations of strings
    @property
    def G(self):
        from . import graphmodels

        return graphmodels

    @property
    def T(self):
        from . import textmodels

        return textmodels

    @property
    def SM(self):
        from . import sortmodels

        return sortmodels

    def string_pairs(self, name):
        """a sequence of any length of pairs of strings"""
        f, g = self.fn(name + "_from", "int", "any"), self.fn(name + "_to", "int", "any")
        n = self.z3.Int(name + "_n")
        self.C.cur().axiom(n >= 0)
        self._reg(name, "any", n)
        return self.S.SymSeq(n, lambda i: (self.MM.SymStr(f(i)), self.MM.SymStr(g(i))))

    def fresh_fn(self, name, *sorts):
        p = self.C.cur()
        p.store["fresh_fns"] = p.store.get("fresh_fns", 0) + 1
        return self.fn("%s%s!%d" % (p.prefix, name, p.store["fresh_fns"]), *sorts)

    def list_var(self, env, name):
        v = self.var(env, name)
        if type(v) is not self.S.EList:
            raise self.C.Unsupported("variable %r is no list" % name)
        return v

    def dict_var(self, env, name):
        v = self.var(env, name)
        if type(v) is not self.S.EDict:
            raise self.C.Unsupported("variable %r is no dictionary" % name)
        return v

    def map_of(self, d):
        return d.segs if d.segs is not None else self.MM.from_dict(dict(dict.items(d)))

    def put_map(self, d, has, get):
        dict.clear(d)
        d.segs = self.MM.derived(has, get)
        return d.segs

    def put_list(self, lst, members):
        """the list holds each string of which `members` is true once, in an arbitrary order"""
        r = self.G.arbitrary_set(members)
        lst._set(r.keys())
        return r

    def put_bag(self, lst, members):
        """the list holds the strings of which `members` is true, each at least once"""
        r = self.G.arbitrary_bag(members)
        lst._set(r.keys())
        return r

    def any_map(self, name, get=None, **k):
        return self.MM.any_map(name, get, **k)

    def var(self, env, name):
        if name not in env:
            raise self.C.Unsupported("no variable %r in the loop" % name)
        return env[name]

    def always(self, f):
        """a fact about every integer, instantiated for the indices which occur"""
        self.S.add_forall(self.C.cur(), f)

    # replacing callees by their contracts, and loop invariants
    def patch(self, obj, name, value):
        slot = name.startswith("__") and name.endswith("defaults__")
        self._patches.append((obj, name, getattr(obj, name) if slot else obj.__dict__.get(name, self)))
        setattr(obj, name, value)

    def recursive(self, name, stub):
        """calls which the nested function makes of itself are answered by its contract"""
        self.C.cur().store.setdefault("inner", {})[name] = self.S.Inner(stub)

    def nested(self, name, stub):
        """all calls of the nested function are answered by its contract"""
        i = self.C.cur().store.setdefault("inner", {})[name] = self.S.Inner(stub)
        i.depth = 1

    def undo(self):
        for obj, name, old in reversed(self._patches):
            if old is self:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        del self._patches[:]

    def _comp(self, it):
        S = self.S
        h = getattr(it, "__pyvc_comp__", None)
        if h is not None and h() is not None:
            return h()
        if isinstance(it, S.SymComp):
            if it.kind == "gen":
                S.consume_comp(it)
            return it
        if isinstance(it, type((i for i in ()))):
            r = S._segments(it)
            if isinstance(r, S.EList) and r.segs is not None:
                return self._comp(r)
            raise self.C.Unsupported("a generator of a fixed number of elements")
        if hasattr(it, "__iter__") and not S.symiter(it) and not hasattr(it, "__next__") and not isinstance(it, (list, tuple)):
            return self._comp(iter(it))
        raise self.C.Unsupported("not a filtered sequence: %s" % type(it).__name__)

    def _members(self, comp, m):
        p = self.C.cur()
        out = []
        groups = {}
        for g, x in comp.members_at(m):
            groups.setdefault(g.get_id(), (g, []))[1].append(x)
        for g, xs in groups.values():
            if p.decide(g):
                out += xs
        return out

    def ensure_filtered(self, label, got, n, f, detail=""):
        z3, C, S = self.z3, self.C, self.S
        n = C.I(n)
        none = type(got) is S.EList and got.segs is None and len(got) == 0
        if not none:
            comp = self._comp(got)
            self.ensure(label + ": nothing beyond", C.mkbool(comp.seq.n == n), detail)
        p = C.cur()
        i = p.const("pos", z3.IntSort())
        S.index_term(p, i)
        if p.ex.solver.check(p.pc, i >= 0, i < n) == "unsat":
            return
        p.assume(z3.And(i >= 0, i < n))
        have = [] if none else self._members(comp, i)
        want = f(C.mkint(i))
        self.ensure(label + ": as many for each", len(have) == len(want), (have, want, detail))
        for a, b in zip(have, want):
            self.ensure(label + ": each", self.same(a, b), detail)

    def nested_lists(self, name, item, hi=2, wide=5):
        z3, C = self.z3, self.C
        INT = z3.IntSort()
        f = z3.Function(name + "_at", INT, INT, self.A.ANY)
        ln = z3.Function(name + "_len", INT, INT)
        n = z3.Int(name + "_n")
        p = C.cur()
        p.axiom(n >= 0)
        self.S.add_forall(p, lambda i: ln(i) >= 0)
        self._reg(name, "any", n)
        return self.S.SymSeq(n, lambda i: self.S.SymSeq(ln(i), lambda j: self.A.SymAny(f(i, j))))

    def map_seq(self, xs, f):
        return self.S.SymSeq(xs.n, lambda i: f(xs.at(i)))

    def ensure_flat(self, label, got, xss, detail=""):
        z3, C, S = self.z3, self.C, self.S
        comp = self._comp(got)
        p = C.cur()
        if not isinstance(comp.seq, S.PairSeq):
            raise C.Unsupported("not a nested comprehension")
        i, j = p.const("outer", z3.IntSort()), p.const("inner", z3.IntSort())
        S.index_term(p, i)
        S.index_term(p, j)
        m = S.pair_term(p, i, j)
        inside = z3.And(i >= 0, i < xss.n, j >= 0, j < xss.at(i).n)
        self.ensure(label + ": one element for each", C.mkbool(comp.seq.domain(m) == inside), detail)
        if p.ex.solver.check(p.pc, inside) == "unsat":
            return
        p.assume(inside)
        have = self._members(comp, m)
        self.ensure(label + ": exactly one", len(have) == 1, detail)
        self.ensure(label + ": each", self.same(have[0], xss.at(i).at(j)), detail)

    def ensure_parts(self, label, got, n, f, each):
        """`got` is the concatenation of f(0), ..., f(n - 1), each of them a sequence; `each` compares elements"""
        z3, C, S = self.z3, self.C, self.S
        comp = self._comp(got)
        p = C.cur()
        if not isinstance(comp.seq, S.PairSeq):
            raise C.Unsupported("not a nested comprehension")
        i, j = p.const("outer", z3.IntSort()), p.const("inner", z3.IntSort())
        S.index_term(p, i)
        S.index_term(p, j)
        m = S.pair_term(p, i, j)
        part = f(C.mkint(i))
        inside = z3.And(i >= 0, i < C.I(n), j >= 0, j < part.n)
        for k in (i, j):
            part.at(k)  # what is known of the elements
        self.ensure(label + ": one element for each", C.mkbool(comp.seq.domain(m) == inside))
        if p.ex.solver.check(p.pc, inside) == "unsat":
            return
        p.assume(inside)
        have = self._members(comp, m)
        self.ensure(label + ": exactly one", len(have) == 1)
        each(have[0], part.at(j))

    def filtered(self, xs, pred):
        """what a generator gives which yields the elements of a sequence satisfying `pred`"""
        z3, p = self.z3, self.C.cur()
        k = p.const("k", z3.IntSort())
        x = xs.at(k)
        return self.S.SymComp(xs, k, [(self.C.B(pred(x)), [x])], "gen")

    def instantiate(self, i):
        self.S.index_term(self.C.cur(), self.C.I(i))

    def deque_of(self, env):
        """the one deque among the variables of a function"""
        ds = {id(v): v for v in env.values() if isinstance(v, self.A.SymDeque)}
        if len(ds) != 1:
            raise self.C.Unsupported("%d deques" % len(ds))
        return next(iter(ds.values()))

    def put(self, d, n, at):
        d.put(self.C.I(n), lambda i: at(self.C.mkint(i)))

    def invariant(self, lid, state, check, owned=None):
        p = self.C.cur()
        inv = p.store.setdefault("invariants", {})[lid] = self.S.Invariant(self, lid, state, check, owned)
        return inv

    # spec connectives
    def _b(self, x):
        return self.C.B(x)

    def And(self, *xs):
        return self.C.mkbool(self.z3.And(*[self._b(x) for x in xs])) if xs else True

    def Or(self, *xs):
        return self.C.mkbool(self.z3.Or(*[self._b(x) for x in xs])) if xs else False

    def Not(self, x):
        return self.C.mkbool(self.z3.Not(self._b(x)))

    def implies(self, a, b):
        return self.C.mkbool(self.z3.Implies(self._b(a), self._b(b)))

    def iff(self, a, b):
        return self.C.mkbool(self._b(a) == self._b(b))

    def eq(self, a, b):
        return self.C.call_merged(lambda: a == b)

    def merged(self, f):
        return self.C.call_merged(f)

    def by_contract(self, obj, method):
        z3, M, C = self.z3, self.M, self.C
        f = z3.Function("contract_" + method, z3.IntSort(), z3.IntSort(), z3.BoolSort())

        def stub(me, r):
            lo, hi = M.range_terms(r)
            return C.mkbool(f(lo.p, hi.p))

        cls = type(obj)
        sub = type(cls.__name__, (cls,), {method: stub, "__slots__": ()})
        new = object.__new__(sub)
        for k in _fields(obj):
            object.__setattr__(new, k, getattr(obj, k))
        return new

    def assume(self, c):
        if isinstance(c, self.C.SymBool):
            self.C.cur().assume(c.t)
        elif not c:
            raise self.C.Infeasible()

    def ensure(self, label, c, detail=""):
        self.run.obligation(label, c, detail)

    def fail(self, label, detail=""):
        self.run.obligation(label, False, detail)
        raise self.C.Infeasible()

    def cover(self, label):
        """reachability (vacuity guard): the path condition here must be satisfiable"""
        if label not in self.covers and label not in self.run.covers:
            p = self.C.cur()
            if p.ex.solver.check(p.pc) == "unsat":
                raise self.C.Infeasible()
            self.covers.add(label)

    def tmpdir(self):
        raise self.C.Unsupported("file system")

    def outcome(self, f, *a, **k):
        try:
            return ("return", f(*a, **k))
        except Exception as e:  # noqa: B902
            if _proxy_artifact(e):
                raise self.C.Unsupported("proxy reached C code: %r" % (e,))
            return ("raise", e)


def _fields(o):
    out = list(getattr(o, "__dict__", {}))
    for k in type(o).__mro__:
        sl = k.__dict__.get("__slots__", ())
        for n in [sl] if isinstance(sl, str) else sl:
            if n not in ("__dict__", "__weakref__") and hasattr(o, n):
                out.append(n)
    return out


def _proxy_artifact(e):
    """an exception which tells of the engine or of a contract's stub, or one raised because of that"""
    seen = 0
    while e is not None and seen < 10:
        if _artifact(e):
            return True
        e, seen = e.__cause__ or e.__context__, seen + 1
    return False


def _of_a_stub(o):
    """an object whose class a contract has made (classes defined at a contract file's top level are data)"""
    c = o if isinstance(o, type) else type(o)
    return "<locals>" in c.__qualname__ and not c.__module__.startswith("vistautils")


def _is_proxy(x):
    from . import core

    return isinstance(x, core.Sym) or type(x).__module__.startswith("pyvc.")


def _artifact(e):
    if not isinstance(e, (TypeError, AttributeError)):
        return False
    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None and not isinstance(e.obj, (str, bytes)) and _of_a_stub(e.obj):
        return True
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is not None and os.path.dirname(tb.tb_frame.f_code.co_filename) != os.path.dirname(__file__):
        import dis

        if dis.opname[tb.tb_frame.f_code.co_code[tb.tb_lasti]] == "RAISE_VARARGS":
            return False  # raised by a statement of the code, whatever its message says
        if isinstance(e, TypeError) and dis.opname[tb.tb_frame.f_code.co_code[tb.tb_lasti]].startswith("CALL") and "argument" not in str(e).replace("arg 1", "") and any(_is_proxy(x) for x in tb.tb_frame.f_locals.values()):
            return True  # a function in C which may have been given one of ours
    s = str(e)
    return any(
        n in s
        for n in ("Sym", "Poison", "GenChunk", "SymOrd", "SymInt", "SymBool", "SymVal", "SymCut", "SymSeq", "SymComp", "_SDView")
    )
