"""Deductive run of one contract: all paths, every obligation sent to the solver."""
import sys
import time
import traceback

from . import core as C
from . import anymodels  # noqa: F401
from . import textmodels, mapmodels, graphmodels, sortmodels  # noqa: F401
from . import models as M  # noqa: F401
from . import symbuiltins as S
from .harness import SymH, _proxy_artifact
from .core import z3

TOOL = 4


class FnRecorder:
    """Which repository functions were executed under this contract (code objects)."""

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "pyvc")

        def cb(code, off):
            if code.co_filename.startswith(self.root):
                self.seen.add((code.co_filename, code.co_qualname))
            return mon.DISABLE

        mon.register_callback(TOOL, mon.events.PY_START, cb)
        mon.set_events(TOOL, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)

    def names(self):
        out = set()
        for f, q in self.seen:
            if "_pyvc" in q or "<lambda>" in q or "<listcomp>" in q or "<genexpr>" in q or "<module>" in q:
                continue
            mod = f[len(self.root) :].strip("/").replace("/", ".")[:-3]
            out.add(mod + ":" + q)
        return sorted(out)


class SymRun:
    def __init__(self, contract, tier, limit_s, cross=False):
        self.c = contract
        self.tier = tier
        self.limit_s = limit_s
        self.obl = {}  # label -> dict
        self.refuted = []
        self.unsupported = []
        self.covers = set()
        self.paths = 0
        self.completed = 0
        self.infeasible = 0
        self.limit = None
        self.quant_used = False
        self.cross = cross
        self.cross_checked = 0
        self.cross_unknown = 0
        self.functions = []
        self.wall = 0.0
        self.sat_paths = self.sat_tries = 0

    # called through h.ensure
    def obligation(self, label, c, detail=""):
        p = C.cur()
        o = self.obl.setdefault(label, {"discharged": 0, "refuted": 0, "unknown": 0, "trivial": 0})
        if c is True or c == True and not isinstance(c, C.Sym):  # noqa: E712
            o["discharged"] += 1
            o["trivial"] += 1
            return
        if c is False or c is None:
            t = z3.BoolVal(False)
        else:
            t = C.B(c) if isinstance(c, (bool, C.SymBool, z3.BoolRef)) else z3.BoolVal(bool(c))
        if "weak" in p.store or "quant" in p.store and p.store["quant"].insts:
            self.quant_used = True
        r = p.ex.solver.check(p.pc, z3.Not(t), full=True)
        backend = "z3"
        if r == "sat" and "bases" in p.store:
            # the hypotheses are instantiated lazily: instantiate more before believing the model
            r = M.lazy_check(p, t)
        if r == "unknown":
            r, backend = C._cvc5_check(list(p.pc) + [z3.Not(t)], 20)
        if r == "unsat":
            o["discharged"] += 1
            o.setdefault("backend", {}).setdefault(backend, 0)
            o["backend"][backend] += 1
            if self.cross and o["discharged"] <= 12:
                r2, b2 = C._cvc5_check(list(p.pc) + [z3.Not(t)], 20)
                if r2 == "unsat":
                    self.cross_checked += 1
                elif r2 == "sat":
                    raise RuntimeError("back ends disagree on %s" % label)
                else:
                    self.cross_unknown += 1
            p.add(t)
            return
        if r == "sat":
            o["refuted"] += 1
            if len(self.refuted) < 6:
                fixed, text = self._model(p, t, backend)
                self.refuted.append(
                    {
                        "label": label,
                        "detail": str(detail)[:800],
                        "fixed": fixed,
                        "model": text,
                        "goal": str(t)[:600],
                        "quantified": self.quant_used,
                    }
                )
            return
        o["unknown"] += 1

    def _model(self, p, t, backend):
        if backend != "z3":
            return None, "(model from cvc5 not extracted)"
        if p.ex.solver.check(p.pc, z3.Not(t), full=True) != "sat":
            return None, ""
        m = p.ex.solver.model()
        try:
            return model_inputs(m, p.inputs), str(m)[:3000]
        except Exception as e:
            return None, "model extraction: %r\n%s" % (e, str(m)[:2000])

    def go(self):
        t0 = time.monotonic()
        ex = C.Explorer(
            max_paths=self.c.opts.get("max_paths", 400000),
            deadline=t0 + self.limit_s,
            timeout_ms=self.c.opts.get("smt_ms", 10000),
        )

        ex.solver.branch_ms = self.c.opts.get("branch_ms", ex.solver.timeout_ms)

        def body(p):
            del S.EFFECTS[:]
            h = SymH(self)
            try:
                try:
                    self.c.fn(h)
                finally:
                    h.undo()
                    self.covers |= h.covers
            except C.Infeasible:
                raise
            except C.LimitReached:
                raise
            except C.Unsupported as e:
                k = "%s" % e
                if len(self.unsupported) < 20:
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [
                        "%s:%d %s" % (f.filename, f.lineno, f.name)
                        for f in tb
                        if "/vistautils/" in f.filename or "/contracts/" in f.filename
                    ]
                    self.unsupported.append(k + " @ " + " <- ".join(where[-3:]))
                if len(self.unsupported) >= 20:
                    raise C.LimitReached("unsupported")
                return
            except Exception as e:  # noqa: B902
                if p.ex.solver.check(p.pc) == "unsat":
                    raise C.Infeasible()
                text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
                if _proxy_artifact(e) or isinstance(
                    e, (TypeError, AttributeError, z3.Z3Exception, RecursionError, NameError)
                ):
                    self.unsupported.append("exception %r under symbolic execution\n%s" % (e, text))
                    if len(self.unsupported) >= 20:
                        raise C.LimitReached("unsupported")
                    return
                self.obligation("no unexpected exception", False, text)
                return
            if not self.sat_paths and self.sat_tries < 3:
                # vacuity guard: some completed path is shown feasible (covers guard the rest)
                self.sat_tries += 1
                if p.ex.solver.check(p.pc, full=True) == "sat":
                    self.sat_paths += 1
            self.completed += 1

        try:
            with FnRecorder(_repo_root()) as rec:
                try:
                    ex.run(body)
                finally:
                    self.functions = rec.names()
        except C.LimitReached as e:
            self.limit = str(e)
        self.paths = ex.paths
        self.infeasible = ex.infeasible
        self.wall = time.monotonic() - t0

    def verdict(self):
        missing = [x for x in self.c.opts.get("covers", []) if x not in self.covers]
        n = sum(o["discharged"] + o["refuted"] + o["unknown"] for o in self.obl.values())
        if self.refuted:
            return "refuted"
        if self.limit or self.unsupported:
            return "undecided"
        if any(o["unknown"] for o in self.obl.values()):
            return "undecided"
        if n == 0 or self.completed == 0 or missing or not (self.sat_paths or self.covers):
            return "vacuous"
        return "proved"

    def as_dict(self):
        return {
            "verdict": self.verdict(),
            "obligations": self.obl,
            "refuted": self.refuted,
            "unsupported": self.unsupported[:6],
            "paths": self.paths,
            "completed_paths": self.completed,
            "infeasible_paths": self.infeasible,
            "limit": self.limit,
            "covers": sorted(self.covers),
            "functions": self.functions,
            "wall_s": self.wall,
            "solver_s": C.STATS.solver_s,
            "queries": C.STATS.queries,
            "cross_checked": self.cross_checked,
            "cross_unknown": self.cross_unknown,
            "cut_contracts": dict(M.PROVED_CUT_CONTRACTS),
        }


def _repo_root():
    from .loader import REPO

    return REPO


def _val(m, t):
    return m.eval(t, model_completion=True)


def model_inputs(m, inputs):
    """Concrete inputs for the replay from a solver model (elements of the order are integers)."""
    fixed = {}
    vals = []

    def num(t):
        return _val(m, t).as_long()

    NEG, POS = num(M.NEG), num(M.POS)
    pend = []
    for name, kind, term in inputs:
        if kind == "choice":
            fixed[name] = term
        elif kind == "bool":
            fixed[name] = z3.is_true(_val(m, term))
        elif kind == "int":
            fixed[name] = num(term)
        elif kind == "ord":
            vals.append(num(term))
            pend.append((name, vals[-1]))
        elif kind == "range":
            shape, lo, hi = _range_model(NEG, POS, num(term[0].p), num(term[1].p))
            fixed[name + ".shape"] = shape
            for sfx, v in ((".lo", lo), (".hi", hi)):
                if v is not None:
                    vals.append(v)
                    pend.append((name + sfx, v))
        elif kind == "rangeset":
            n = num(term.n)
            if n > 8:
                return None
            items = []
            for i in range(n):
                i = z3.IntVal(i)
                it = _range_model(NEG, POS, num(term.lo(i).p), num(term.hi(i).p))
                items.append(list(it))
                vals += [x for x in it[1:] if x is not None]
            pend.append((name, items))
        elif kind == "any":
            return None
        elif kind == "symlist":
            n = num(term)
            if n > 8:
                return None
            fixed[name + ".n"] = n
    order = {r: 2 * i for i, r in enumerate(sorted(set(vals)))}
    for name, r in pend:
        if isinstance(r, list):
            fixed[name] = [
                [s, None if a is None else order[a], None if b is None else order[b]] for s, a, b in r
            ]
        else:
            fixed[name] = order[r]
    if vals:
        fixed["ord_kind"] = "int"
    return fixed


def _range_model(NEG, POS, lo, hi):
    if lo == NEG and hi == POS:
        return "all", None, None
    if lo == NEG:
        return ("at_most" if hi % 2 else "less_than"), None, hi // 2
    if hi == POS:
        return ("greater_than" if lo % 2 else "at_least"), lo // 2, None
    return (
        {(0, 0): "closed_open", (0, 1): "closed", (1, 0): "open", (1, 1): "open_closed"}[
            (lo % 2, hi % 2)
        ],
        lo // 2,
        hi // 2,
    )
