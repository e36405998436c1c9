"""pyvc core: path exploration of real Python code over symbolic leaves.

The functions under contract are executed by CPython itself (the source in /repo, loaded
through pyvc.loader); the leaves of their inputs are *symbolic proxies* whose operations build
SMT terms.  A proxy truth value that is not decided by the path condition forks the path; the
explorer re-executes the contract until every feasible path has been visited.  `ensure` on a path
generates the proof obligation  path-condition => goal  and hands it to the solver.
"""
import itertools
import math
import sys
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


# ----------------------------------------------------------------------------- control signals
class Control(BaseException):
    """Engine control flow; derives from BaseException so code under test cannot swallow it."""


class Unsupported(Control):
    """The code did something to a symbolic value that the engine does not model."""


class Infeasible(Control):
    """The current path condition became unsatisfiable (an `assume` cut the path)."""


class LimitReached(Control):
    pass


# ----------------------------------------------------------------------------- solver facade
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.by_backend = {}


STATS = Stats()


def _cvc5_check(assertions, timeout_s):
    """second opinion: dump to SMT-LIB and run cvc5 / z3-new as processes."""
    import os
    import subprocess
    import tempfile

    s = z3.Solver()
    s.add(*assertions)
    text = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        name = f.name
    try:
        for cmd, label in (
            (["cvc5", "--tlimit=%d" % (timeout_s * 1000), name], "cvc5"),
            (["z3-new", "-T:%d" % timeout_s, name], "z3-new"),
        ):
            try:
                out = subprocess.run(
                    cmd, capture_output=True, text=True, timeout=timeout_s + 5
                ).stdout.split()
            except Exception:
                continue
            if out and out[0] in ("sat", "unsat"):
                return out[0], label
    finally:
        os.unlink(name)
    return "unknown", None


class SolverStack:
    """Incremental solver which reuses the longest common prefix of consecutive queries."""

    def __init__(self, timeout_ms=8000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.stack = []  # ast refs kept alive
        self.timeout_ms = self.now_ms = timeout_ms
        self.branch_ms = timeout_ms  # for checks whether a path is feasible: unknown counts as feasible

    def sync(self, pc):
        n = 0
        for a, b in zip(self.stack, pc):
            if a is b or a.eq(b):
                n += 1
            else:
                break
        if n < len(self.stack):
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)

    def check(self, pc, *extra, full=False):
        t = time.perf_counter()
        self.sync(pc)
        ms = self.timeout_ms if full else self.branch_ms
        if ms != self.now_ms:
            self.s.set("timeout", ms)
            self.now_ms = ms
        STATS.queries += 1
        r = self.s.check(*extra)
        STATS.solver_s += time.perf_counter() - t
        if r == z3.sat:
            return "sat"
        if r == z3.unsat:
            return "unsat"
        STATS.unknown += 1
        return "unknown"

    def model(self):
        return self.s.model()


# ----------------------------------------------------------------------------- the explorer
class Decision:
    __slots__ = ("taken", "alts", "label")

    def __init__(self, taken, alts, label):
        self.taken = taken
        self.alts = alts  # remaining alternatives (list of python values)
        self.label = label


class Path:
    """State of one path (one re-execution)."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.decisions = prefix
        self.pos = 0
        self.pc = []
        self.inputs = []  # (name, kind, term)
        self.fresh_ix = 0
        self.lits = {}  # ast id -> bool known along the path
        self.axioms = []  # facts valid independently of the path (instances of assumed contracts)
        self.axpos = set()  # their positions in pc
        self.prefix = ""
        self.notes = []
        self.hyps = []  # quantified hypotheses (callables instantiated on demand)
        self.store = {}  # per-path scratch for models

    # -- naming
    def fresh(self, base):
        self.fresh_ix += 1
        tag = ""
        if self.prefix:
            # in a nested exploration names must identify the branch they were made on, because
            # their defining facts are exported to the enclosing path
            tag = "".join(
                "%d" % d.taken if isinstance(d.taken, (bool, int)) else "x%s" % (d.taken,)
                for d in self.decisions[: self.pos]
            )
        return "%s!%s%s#%d" % (base, self.prefix, tag, self.fresh_ix)

    def const(self, base, sort):
        """Fresh constant; inside an abstract loop iteration a fresh function of its index."""
        name = self.fresh(base)
        ixs = self.store.get("loop_ix", ())
        if ixs:
            f = z3.Function(name, *([z3.IntSort()] * len(ixs)), sort)
            return f(*ixs)
        return z3.Const(name, sort)

    # -- constraints
    def add(self, cond):
        """Add a fact to the path condition (no feasibility check)."""
        c = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self._learn(c, True)

    def axiom(self, cond):
        """A fact that holds on every path (never part of a path's guard)."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if c.get_id() in self.lits and self.lits[c.get_id()][0]:
            return
        self.axpos.add(len(self.pc))
        self.pc.append(c)
        self._learn(c, True)
        self.axioms.append(c)

    def _learn(self, c, val):
        if z3.is_not(c):
            self._learn(c.arg(0), not val)
            return
        if val and z3.is_and(c):
            for ch in c.children():
                self._learn(ch, True)
        if not val and z3.is_or(c):
            for ch in c.children():
                self._learn(ch, False)
        self.lits[c.get_id()] = (val, c)

    def assume(self, cond):
        self.add(cond)
        if self.ex.solver.check(self.pc) == "unsat":
            raise Infeasible()

    # -- decisions
    def choose(self, options, label=""):
        """Unconstrained nondeterministic choice (all options feasible)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d.taken
        d = Decision(options[0], options[1:], label)
        self.decisions.append(d)
        self.pos += 1
        return d.taken

    def decide(self, term):
        """Truth value of a z3 Bool term on this path; forks if both are feasible."""
        t = z3.simplify(term)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        neg = False
        core = t
        if z3.is_not(core):
            core = core.arg(0)
            neg = True
        k = self.lits.get(core.get_id())
        if k is not None:
            return k[0] != neg
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            val = d.taken
            if d.label == "forced":
                self._learn(t if val else z3.simplify(z3.Not(t)), True)
                return val
        else:
            self.ex.tick()
            can_t = self.ex.solver.check(self.pc, t) != "unsat"
            if not can_t:
                # implied false: record as a forced decision so that replays stay aligned
                can_f = True
            else:
                can_f = self.ex.solver.check(self.pc, z3.Not(t)) != "unsat"
            if can_t and can_f:
                d = Decision(True, [False], str(t)[:80])
            else:
                d = Decision(can_t, [], "forced")
            self.decisions.append(d)
            self.pos += 1
            val = d.taken
            if d.label == "forced":
                self._learn(t if val else z3.simplify(z3.Not(t)), True)
                return val
        self.add(t if val else z3.Not(t))
        return val


class Obligation:
    __slots__ = ("name", "status", "detail", "model", "backend", "decisions")

    def __init__(self, name, status, backend="", detail="", model=None, decisions=None):
        self.name = name
        self.status = status  # discharged | refuted | unknown
        self.backend = backend
        self.detail = detail
        self.model = model
        self.decisions = decisions


class Explorer:
    """Depth-first exploration by re-execution."""

    def __init__(self, max_paths=200000, deadline=None, solver=None, timeout_ms=8000):
        self.solver = solver or SolverStack(timeout_ms)
        self.max_paths = max_paths
        self.deadline = deadline
        self.paths = 0
        self.infeasible = 0

    def tick(self):
        if self.deadline and time.monotonic() > self.deadline:
            raise LimitReached("time")

    def run(self, body, on_end=None):
        """body(path) -> anything; explores all paths. Returns number of completed paths."""
        global CUR
        prefix = []
        while True:
            self.tick()
            self.paths += 1
            if self.paths > self.max_paths:
                raise LimitReached("paths")
            p = Path(self, prefix)
            saved = CUR
            CUR = p
            try:
                r = body(p)
                if on_end:
                    on_end(p, r)
            except Infeasible:
                self.infeasible += 1
            finally:
                CUR = saved
            # backtrack
            ds = p.decisions[: p.pos]
            while ds and not ds[-1].alts:
                ds.pop()
            if not ds:
                return
            ds[-1].taken = ds[-1].alts.pop(0)
            prefix = ds


CUR = None  # current path


def cur():
    if CUR is None:
        raise Unsupported("symbolic operation outside of an exploration")
    return CUR


# ----------------------------------------------------------------------------- proxies
def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base of all symbolic proxies."""

    __slots__ = ()

    def __index__(self):
        raise Unsupported("symbolic value used as a machine index by C code")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def B(x):
    """z3 Bool of a python bool / SymBool / z3 bool."""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    if x is True or x is False:
        return z3.BoolVal(x)
    if x is None:
        return z3.BoolVal(False)
    raise Unsupported("not a boolean: %r" % (type(x),))


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t == B(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.t != B(o))
        return True

    def __hash__(self):
        return 0

    def __and__(self, o):
        return SymBool(z3.And(self.t, B(o)))

    def __or__(self, o):
        return SymBool(z3.Or(self.t, B(o)))

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, B(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __repr__(self):
        return "<symbool>"


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def I(x):
    """z3 Int of a python int / SymInt."""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymOrd):
        return x.t
    raise Unsupported("not an int: %r" % (type(x),))


def _intlike(o):
    return isinstance(o, (int, SymInt, SymBool))


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


QUOTIENT = [None]  # int / float, an opaque object (anymodels)


class SymInt(Sym):
    """A mathematical integer (Python int semantics)."""

    __slots__ = ("t",)
    pyclass = int

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t != 0)

    def __hash__(self):
        return 0

    def _cmp(self, o, f):
        if _intlike(o) or isinstance(o, SymOrd):
            return mkbool(f(self.t, I(o)))
        if type(o) is float and math.isfinite(o):  # exact, as in Python
            return mkbool(f(z3.ToReal(self.t), z3.RealVal(str(Fraction(o)))))
        return NotImplemented

    def __truediv__(self, o):
        if type(o) is float and math.isfinite(o) and o:
            return QUOTIENT[0](self.t, o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def _ar(self, o, f):
        if _intlike(o):
            return mkint(f(self.t, I(o)))
        return NotImplemented

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __invert__(self):
        return mkint(-self.t - 1)

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def _divmod_guard(self, o):
        # z3 div/mod agree with Python floor semantics for a positive divisor
        if not _intlike(o):
            return None
        d = I(o)
        if not mkbool_true(d > 0):
            raise Unsupported("division of a symbolic int by a possibly non-positive divisor")
        return d

    def __mod__(self, o):
        d = self._divmod_guard(o)
        if d is not None and not z3.is_int_value(z3.simplify(d)):
            return mkint(symbolic_mod(self.t, d))
        return NotImplemented if d is None else mkint(self.t % d)

    def __floordiv__(self, o):
        d = self._divmod_guard(o)
        return NotImplemented if d is None else mkint(self.t / d)

    def __repr__(self):
        return "<symint>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symint>"


def symbolic_mod(a, d):
    """a % d for a symbolic d > 0: known to be in range only (what is refuted with it is not believed)"""
    m = z3.Function("py_mod", z3.IntSort(), z3.IntSort(), z3.IntSort())(a, d)
    p = cur()
    p.store["weak"] = True
    p.axiom(z3.And(m >= 0, m < d))
    return m


def mkbool_true(t):
    """fork on t and return bool"""
    return bool(SymBool(t)) if not z3.is_true(z3.simplify(t)) else True


class SymOrd(Sym):
    """An element of an arbitrary total order (modelled by z3 Int; only order is observable).

    Validity for the theory of total orders transfers: every finite total order embeds in the
    integers, and terms here use nothing but < and =.
    """

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return 0

    def __bool__(self):
        raise Unsupported("truth value of an arbitrary ordered element")

    def _o(self, o):
        if isinstance(o, (SymOrd, SymInt)):
            return o.t  # elements of ranges of offsets
        return None

    def __lt__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(self.t < b)

    def __le__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(self.t <= b)

    def __gt__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(self.t > b)

    def __ge__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(self.t >= b)

    def __eq__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(self.t == b)

    def __ne__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else mkbool(self.t != b)

    def __repr__(self):
        return "<ord>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<ord>"


VAL = z3.DeclareSort("Val")
TRUTHY = z3.Function("truthy", VAL, z3.BoolSort())


class SymVal(Sym):
    """An opaque value: only equality (and identity, which is taken to be equality) and an
    undetermined truth value."""

    __slots__ = ("t", "tag")

    def __init__(self, t, tag=None):
        self.t = t
        self.tag = tag

    def __bool__(self):
        return bool(mkbool(TRUTHY(self.t)))  # 0, "" and the like are values too

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if isinstance(o, SymVal):
            return mkbool(self.t == o.t)
        return False

    def __ne__(self, o):
        if isinstance(o, SymVal):
            return mkbool(self.t != o.t)
        return True

    def __pyvc_is__(self, o):
        return self.__eq__(o)

    def __repr__(self):
        return "<val>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<val>"


# ----------------------------------------------------------------------------- summaries
class Outcome:
    __slots__ = ("guard", "kind", "value", "effects")

    def __init__(self, guard, kind, value, effects=()):
        self.guard = guard  # z3 bool
        self.kind = kind  # 'return' | 'raise'
        self.value = value
        self.effects = effects


def summarise(thunk, base_pc=None, max_paths=4000, axioms_out=None):
    """Explore thunk() on its own paths starting from base_pc (default: current pc) and return
    the list of Outcomes. The thunk must not mutate state visible outside."""
    outer = CUR
    if base_pc is None:
        base_pc = list(outer.pc) if outer is not None else []
    outs = []
    # the nested exploration shares the solver (same prefix => cheap)
    ex = Explorer(
        max_paths=max_paths,
        deadline=outer.ex.deadline if outer else None,
        solver=outer.ex.solver if outer else None,
    )
    nested_axioms = []
    if outer is not None:
        outer.fresh_ix += 1
        prefix = "%s%d." % (outer.prefix, outer.fresh_ix)
    else:
        prefix = ""
    def body(p):
        p.pc = list(base_pc)
        p.prefix = prefix or "n."
        if outer is not None:
            p.lits = dict(outer.lits)
            p.store = _fork_store(outer.store)
            p.inputs = outer.inputs
        start_pos = len(p.pc)
        try:
            v = thunk()
            kind = "return"
        except Control:
            raise
        except Exception as e:  # noqa: B902
            v, kind = e, "raise"
        g = [c for i, c in enumerate(p.pc) if i >= start_pos and i not in p.axpos]
        nested_axioms.extend(p.axioms)
        guard = z3.BoolVal(True) if not g else (g[0] if len(g) == 1 else z3.And(*g))
        outs.append(Outcome(guard, kind, v))

    ex.run(body)
    if outer is not None:
        for a in nested_axioms:
            outer.axiom(a)
    if axioms_out is not None:
        axioms_out.extend(nested_axioms)
    return outs


def _fork_store(store):
    """Nested explorations see the outer per-path scratch but do not write to it."""
    return {k: (v.fork() if hasattr(v, "fork") else v) for k, v in store.items()}


def merge_values(alts):
    """alts: list of (guard, value), guards exhaustive. Returns merged value or None if unmergeable"""
    vals = [v for _, v in alts]
    if all(isinstance(v, (bool, SymBool)) for v in vals):
        return mkbool(z3.Or(*[z3.And(g, B(v)) for g, v in alts]))
    if all(isinstance(v, (int, SymInt)) and not isinstance(v, bool) for v in vals):
        t = I(vals[-1])
        for g, v in reversed(alts[:-1]):
            t = z3.If(g, I(v), t)
        return mkint(t)
    if all(isinstance(v, SymOrd) for v in vals):
        t = vals[-1].t
        for g, v in reversed(alts[:-1]):
            t = z3.If(g, v.t, t)
        return SymOrd(z3.simplify(t))
    first = vals[0]
    if all(v is first for v in vals):
        return first
    return NotImplemented


def apply_outcomes(outs):
    """Continue the current path with a summarised call: forks only on exceptional outcomes and
    on unmergeable values."""
    p = cur()
    if not outs:
        raise Infeasible()
    raising = [o for o in outs if o.kind == "raise"]
    normal = [o for o in outs if o.kind == "return"]
    for o in raising:
        if not normal and o is raising[-1]:
            p.add(o.guard)
            raise o.value
        if p.decide(o.guard):
            raise o.value
    if len(normal) == 1:
        return normal[0].value
    m = merge_values([(o.guard, o.value) for o in normal])
    if m is not NotImplemented:
        return m
    # group identical values, fork between groups
    groups = []
    for o in normal:
        for g in groups:
            if g[1] is o.value:
                g[0].append(o.guard)
                break
        else:
            groups.append([[o.guard], o.value])
    for gs, v in groups[:-1]:
        if p.decide(z3.Or(*gs)):
            return v
    p.add(z3.Or(*groups[-1][0]))
    return groups[-1][1]


def call_merged(thunk):
    """Evaluate a pure thunk without forking the current path (strongest postcondition)."""
    return apply_outcomes(summarise(thunk))
