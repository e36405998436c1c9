"""Mechanical extraction of the code under verification.

Every run reads the vistautils sources from /repo's working tree, parses them, applies the
transformation below and compiles the result; the functions that are verified are these compiled
functions.  The transformation is purely mechanical and, on non-symbolic operands, meaning
preserving (checked on every run by the differential self-test in pyvc.selftest):

  T1  `a is b` / `a is not b`       -> _pyvc_is(a, b)          (same result unless a proxy is involved)
  T2  `for x in it: body else: e`   -> `if _pyvc_symiter(it)` cut-point form, otherwise the original loop;
      `while c: body`               -> cut-point form if the contract states an invariant for it, otherwise
                                       the original loop
  T3  comprehensions/generators with one `for` over a symbolic sequence -> _pyvc_comp(...)
  T4  module builtins isinstance, len, range, list, tuple, hash, set, sorted, enumerate, reversed,
      any, all, zip ... are shadowed by versions which delegate to the builtin unless a proxy is involved
  T5  list, dict and set displays and list(), dict(), set() calls give the same values, as subclasses which
      notice when they are changed inside an abstract loop iteration; assignments to attributes and
      items announce themselves for the same reason
  T6  "..." % x, "...".join(x), "...".format(x), f"..." give the same text, and a symbolic text if a proxy is involved
  T7  a function with *args starts by `args = _pyvc_varargs(args)`, the identity unless the contract passes
      a symbolic sequence of arguments
  T8  calls of a function defined within a function can be answered by its contract
  T9  a function which reads the target variable of a loop of an enclosing function is told its value
  T10 docstrings/annotations are kept, nothing is dropped.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

from . import symbuiltins as SB

REPO = os.environ.get("PYVC_REPO", "/repo")


class Transformer(ast.NodeTransformer):
    def __init__(self, module=""):
        self.n = 0
        self.scope = [module]
        self.loops = {}

    # T1 ------------------------------------------------------------------
    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            return node
        if len(node.ops) != 1:
            return node
        return _at(
            node,
            _call("_pyvc_is" if isinstance(node.ops[0], ast.Is) else "_pyvc_isnot", node.left, node.comparators[0]),
        )

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in SHADOWED:
            node.func = ast.copy_location(
                ast.Name("_pyvc_" + node.func.id, ast.Load()), node.func
            )
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and _is_text(f.value) and len(node.args) == 1 and not node.keywords:
            return _at(node, _call("_pyvc_join", f.value, node.args[0]))
        if isinstance(f, ast.Attribute) and f.attr == "format" and _is_text(f.value):
            c = _call("_pyvc_format", f.value, *node.args)
            c.keywords = node.keywords
            return _at(node, c)
        return node

    # T6 ------------------------------------------------------------------
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and _is_text(node.left):
            return _at(node, _call("_pyvc_fmod", node.left, node.right))
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec or ast.Constant("")
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return _at(node, _call("_pyvc_fstr", *parts))

    # T5 ------------------------------------------------------------------
    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not self.in_function:
            return node
        return _at(node, _call("_pyvc_mklist", node))

    def visit_Dict(self, node):
        self.generic_visit(node)
        return _at(node, _call("_pyvc_mkdict", node)) if self.in_function else node

    def visit_Set(self, node):
        self.generic_visit(node)
        return _at(node, _call("_pyvc_mkset", node)) if self.in_function else node

    def _announce(self, node, targets):
        """the objects whose attributes or items the statement assigns (names only: anything else is
        reached through a name of the same statement)"""
        out = []
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    base = x.value
                    while isinstance(base, (ast.Attribute, ast.Subscript)):
                        base = base.value
                    if isinstance(base, ast.Name):
                        out.append(_at(node, ast.Expr(_call("_pyvc_mut", ast.Name(base.id, ast.Load())))))
        return out + [node]

    def visit_Assign(self, node):
        targets = list(node.targets)
        self.generic_visit(node)
        return self._announce(node, targets)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return self._announce(node, [node.target])

    def visit_AnnAssign(self, node):
        ann = _copy1(node.annotation)
        self.generic_visit(node)
        node.annotation = ann
        return self._announce(node, [node.target])

    def visit_Delete(self, node):
        self.generic_visit(node)
        return self._announce(node, node.targets)

    # T2 ------------------------------------------------------------------
    def _loop_id(self):
        k = self.loops.setdefault(".".join(self.scope), [0])
        k[0] += 1
        return "%s#%d" % (".".join(self.scope), k[0])

    def _body_fn(self, fn, arg, head, stmts, assigned):
        prelude = []
        for v in assigned:
            # the value of a variable which carries state, as the invariant gives it
            prelude.append(
                ast.If(
                    test=ast.Compare(ast.Constant(v), [ast.In()], [ast.Name("_pyvc_st", ast.Load())]),
                    body=[
                        ast.Assign(
                            targets=[ast.Name(v, ast.Store())],
                            value=ast.Subscript(ast.Name("_pyvc_st", ast.Load()), ast.Constant(v), ast.Load()),
                        )
                    ],
                    orelse=[],
                )
            )
        return ast.FunctionDef(
            name=fn,
            args=ast.arguments(
                posonlyargs=[],
                args=[ast.arg(arg), ast.arg("_pyvc_st")],
                kwonlyargs=[],
                kw_defaults=[],
                defaults=[ast.Tuple([], ast.Load())],
            ),
            body=[*prelude, *head, *stmts, _sig("next")],
            decorator_list=[],
            type_params=[],
        )

    def _after(self, res, assigned, orelse):
        out = []
        for v in assigned:
            out.append(
                ast.Assign(
                    targets=[ast.Name(v, ast.Store())],
                    value=ast.Call(
                        func=ast.Attribute(ast.Name(res, ast.Load()), "var", ast.Load()),
                        args=[ast.Constant(v)],
                        keywords=[],
                    ),
                )
            )

        def kind(x):
            return ast.Compare(
                ast.Attribute(ast.Name(res, ast.Load()), "kind", ast.Load()), [ast.Eq()], [ast.Constant(x)]
            )

        out.append(
            ast.If(
                test=kind("return"),
                body=[ast.Return(ast.Attribute(ast.Name(res, ast.Load()), "value", ast.Load()))],
                orelse=[],
            )
        )
        if orelse:
            out.append(ast.If(test=kind("next"), body=_copy(orelse), orelse=[]))
        return out

    def _closures(self, captured, targets, assigned):
        """a function defined outside the loop which reads a variable the loop assigns: it is told the value
        of the loop's target; of other variables that is not supported"""
        setters, tell = [], []
        for v in sorted(set(captured) & set(assigned)):
            if v in targets and not self.loop_depth:
                self.n += 1
                name = "_pyvc_tell%d" % self.n
                setters.append(
                    ast.FunctionDef(
                        name=name,
                        args=ast.arguments(posonlyargs=[], args=[ast.arg("_pyvc_v")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=[ast.Nonlocal([v]), ast.Assign(targets=[ast.Name(v, ast.Store())], value=ast.Name("_pyvc_v", ast.Load()))],
                        decorator_list=[],
                        type_params=[],
                    )
                )
                tell.append(ast.Expr(_call(name, ast.Name(v, ast.Load()))))
            else:
                tell.append(ast.Expr(_call("_pyvc_captured", ast.Constant(v))))
        return setters, tell

    def visit_For(self, node):
        lid = self._loop_id()
        captured = self.captured.get(id(node), ())
        self.loop_depth += 1
        self.generic_visit(node)
        self.loop_depth -= 1
        gen = _has_yield(node.body)
        if _has_yield(node.orelse):
            return node
        self.n += 1
        it = "_pyvc_it%d" % self.n
        fn = "_pyvc_body%d" % self.n
        res = "_pyvc_res%d" % self.n
        assigned = sorted(_assigned([node.target]) | _assigned(node.body))
        body = _BodyRewriter().rewrite(node.body, assigned)
        setters, tell = self._closures(captured, _assigned([node.target]), assigned)
        # def _pyvc_bodyN(_pyvc_elem, _pyvc_st=()): target = _pyvc_elem; body...; return ('next', None, locals())
        fdef = self._body_fn(
            fn, "_pyvc_elem", [ast.Assign(targets=[node.target], value=ast.Name("_pyvc_elem", ast.Load())), *tell], body, assigned
        )
        run = _call(
            "_pyvc_genloop" if gen else "_pyvc_loop",
            ast.Name(it, ast.Load()),
            ast.Name(fn, ast.Load()),
            ast.Constant(lid),
            ast.Call(ast.Name("locals", ast.Load()), [], []),
        )
        if gen:
            run = ast.YieldFrom(run)
        orig = ast.For(
            target=node.target,
            iter=ast.Name(it, ast.Load()),
            body=node.body,
            orelse=node.orelse,
            type_comment=None,
        )
        out = [
            ast.Assign(targets=[ast.Name(it, ast.Store())], value=node.iter),
            ast.If(
                test=_call("_pyvc_symiter", ast.Name(it, ast.Load())),
                body=[
                    *setters,
                    fdef,
                    ast.Assign(targets=[ast.Name(res, ast.Store())], value=run),
                    *self._after(res, assigned, node.orelse),
                ],
                orelse=[orig],
            ),
        ]
        return [_at(node, x) for x in out]

    def visit_While(self, node):
        lid = self._loop_id()
        captured = self.captured.get(id(node), ())
        self.loop_depth += 1
        self.generic_visit(node)
        self.loop_depth -= 1
        if _has_yield(node.orelse) or not self.in_function:
            return node
        gen = _has_yield(node.body)
        self.n += 1
        fn = "_pyvc_body%d" % self.n
        res = "_pyvc_res%d" % self.n
        assigned = sorted(_assigned(node.body) | _assigned([node.test]))
        body = _BodyRewriter().rewrite(node.body, assigned)
        head = [ast.If(test=ast.UnaryOp(ast.Not(), _copy1(node.test)), body=[_sig("exit")], orelse=[])]
        setters, tell = self._closures(captured, set(), assigned)
        fdef = self._body_fn(fn, "_pyvc_elem", [*tell, *head], body, assigned)
        run = _call(
            "_pyvc_genwhile" if gen else "_pyvc_while",
            ast.Name(fn, ast.Load()),
            ast.Constant(lid),
            ast.Call(ast.Name("locals", ast.Load()), [], []),
        )
        if gen:
            run = ast.YieldFrom(run)
        return _at(
            node,
            ast.If(
                test=_call("_pyvc_hasinv", ast.Constant(lid)),
                body=[
                    fdef,
                    ast.Assign(targets=[ast.Name(res, ast.Store())], value=run),
                    *self._after(res, assigned, node.orelse),
                ],
                orelse=[node],
            ),
        )

    # T3 ------------------------------------------------------------------
    def _comp(self, node, kind):
        if isinstance(node, ast.DictComp):
            elt = ast.Tuple([node.key, node.value], ast.Load())
        else:
            elt = node.elt
        g0 = node.generators[0]
        if any(g.is_async for g in node.generators):
            return node
        # generator function over ONE element of the first iterable
        # lambda <elem>: [elt for target in (elem,) <rest of the generators> ]
        one = ast.ListComp(
            elt=_copy1(elt),
            generators=[
                ast.comprehension(
                    target=_copy1(g0.target),
                    iter=ast.Tuple([ast.Name("_pyvc_elem", ast.Load())], ast.Load()),
                    ifs=[_copy1(x) for x in g0.ifs],
                    is_async=0,
                )
            ]
            + [
                ast.comprehension(
                    target=_copy1(g.target),
                    iter=_copy1(g.iter),
                    ifs=[_copy1(x) for x in g.ifs],
                    is_async=0,
                )
                for g in node.generators[1:]
            ],
        )
        if len(node.generators) > 1:
            # inner generators may themselves be symbolic: transform them recursively
            inner = node.generators[1:]
            inner_comp = ast.ListComp(elt=_copy1(elt), generators=[_copy1(g) for g in inner])
            inner_t = self._comp(inner_comp, "list")
            one = ast.ListComp(
                elt=inner_t,
                generators=[
                    ast.comprehension(
                        target=_copy1(g0.target),
                        iter=ast.Tuple([ast.Name("_pyvc_elem", ast.Load())], ast.Load()),
                        ifs=[_copy1(x) for x in g0.ifs],
                        is_async=0,
                    )
                ],
            )
            nested = True
        else:
            nested = False
        lam = ast.Lambda(
            args=ast.arguments(
                posonlyargs=[],
                args=[ast.arg("_pyvc_elem")],
                kwonlyargs=[],
                kw_defaults=[],
                defaults=[],
            ),
            body=one,
        )
        # the iterable of the first generator must be evaluated exactly once
        self.n += 1
        itv = "_pyvc_ci%d" % self.n
        orig = _copy1(node)
        orig.generators[0].iter = ast.Name(itv, ast.Load())
        # (lambda it: symbolic(it) if symiter(it) else <orig over it>)(iter)
        whole = ast.Call(
            func=ast.Lambda(
                args=ast.arguments(
                    posonlyargs=[],
                    args=[ast.arg(itv)],
                    kwonlyargs=[],
                    kw_defaults=[],
                    defaults=[],
                ),
                body=ast.IfExp(
                    test=ast.Call(
                        func=ast.Name("_pyvc_symiter", ast.Load()),
                        args=[ast.Name(itv, ast.Load())],
                        keywords=[],
                    ),
                    body=ast.Call(
                        func=ast.Name("_pyvc_comp", ast.Load()),
                        args=[
                            ast.Name(itv, ast.Load()),
                            lam,
                            ast.Constant(kind),
                            ast.Constant(nested),
                        ],
                        keywords=[],
                    ),
                    orelse=orig,
                ),
            ),
            args=[g0.iter if kind == "gen" else _call("_pyvc_iterable", g0.iter)],
            keywords=[],
        )
        return ast.fix_missing_locations(ast.copy_location(whole, node))

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return self._safe_comp(node, "list")

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)
        return self._safe_comp(node, "gen")

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._safe_comp(node, "set")

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._safe_comp(node, "dict")

    def _safe_comp(self, node, kind):
        for sub in ast.walk(node):
            if isinstance(sub, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                return node
        if self.in_class_scope:
            return node
        return self._comp(node, kind)

    in_class_scope = False
    in_function = 0

    def visit_ClassDef(self, node):
        # class-level expressions keep their own scope rules: only transform functions inside
        new = []
        self.scope.append(node.name)
        depth, self.in_function = self.in_function, 0
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                st = self.visit(st)
            if isinstance(st, list):
                new.extend(st)
            else:
                new.append(st)
        node.body = new
        self.in_function = depth
        self.scope.pop()
        return node

    captured = {}
    loop_depth = 0

    def visit_FunctionDef(self, node):
        # do not touch decorators/defaults
        if not self.in_function:
            self.captured = _captured(node)
        depth, self.loop_depth = self.loop_depth, 0
        body = []
        self.scope.append(node.name)
        self.in_function += 1
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        if node.args.vararg:
            v = node.args.vararg.arg
            at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and len(body) > 1 else 0
            body.insert(at, _at(node, ast.Assign([ast.Name(v, ast.Store())], _call("_pyvc_varargs", ast.Name(v, ast.Load())))))
        node.body = body
        self.in_function -= 1
        if self.in_function and not _has_yield(body):
            node.decorator_list.append(_at(node, _call("_pyvc_inner", ast.Constant(".".join(self.scope)))))
        self.scope.pop()
        self.loop_depth = depth
        return node


SHADOWED = ("list", "tuple", "bool", "set", "dict", "str", "type")


def _is_text(node):
    return isinstance(node, ast.Constant) and isinstance(node.value, str)


def _call(name, *args):
    return ast.Call(func=ast.Name(name, ast.Load()), args=list(args), keywords=[])


def _at(node, new):
    return ast.fix_missing_locations(ast.copy_location(new, node))


def _copy1(n):
    import copy

    return copy.deepcopy(n)


def _copy(ns):
    return [_copy1(n) for n in ns]


def _sig(kind, value=None):
    return ast.Return(
        ast.Tuple(
            [
                ast.Constant(kind),
                value or ast.Constant(None),
                ast.Call(ast.Name("locals", ast.Load()), [], []),
            ],
            ast.Load(),
        )
    )


class _BodyRewriter(ast.NodeTransformer):
    """Loop body -> function body: continue/break/return become signals."""

    def rewrite(self, body, assigned):
        out = []
        for st in _copy(body):
            r = self.visit(st)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_For(self, node):
        # inner loops keep their own break/continue, but a `return` inside must be rewritten
        r = _ReturnOnly()
        node.body = [r.visit(x) for x in node.body]
        node.orelse = [r.visit(x) for x in node.orelse]
        return node

    visit_While = visit_For

    def visit_Continue(self, node):
        return _sig("next")

    def visit_Break(self, node):
        return _sig("break")

    def visit_Return(self, node):
        return _sig("return", node.value)


class _ReturnOnly(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        return node

    visit_Lambda = visit_FunctionDef

    def visit_Return(self, node):
        # already-rewritten signals are tuples of 3 with locals(); harmless to re-wrap only originals
        return _sig("return", node.value)


def _assigned(nodes):
    names = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and not n.id.startswith("_pyvc"):
                names.add(n.id)

        def visit_FunctionDef(self, n):
            if not n.name.startswith("_pyvc"):
                names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

    for n in nodes:
        V().visit(n)
    return names


def _captured(fn):
    """for each loop of a function: the names read by functions nested in it outside the loop"""
    reads = []  # (nested function's nodes, names)
    for g in ast.walk(fn):
        if g is not fn and isinstance(g, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            own = set()
            if not isinstance(g, ast.GeneratorExp):
                a = g.args
                own = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                if isinstance(g, ast.FunctionDef):
                    own |= _assigned(g.body)
                    own -= {v for x in ast.walk(g) if isinstance(x, (ast.Nonlocal, ast.Global)) for v in x.names}
            else:
                own = {x.id for x in ast.walk(g) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            reads.append((g, {x.id for x in ast.walk(g) if isinstance(x, ast.Name)} - own))
    out = {}
    for loop in ast.walk(fn):
        if isinstance(loop, (ast.For, ast.While)):
            inside = {id(x) for x in ast.walk(loop)}
            # the function the loop stands in, and those around it, are not told: they run the loop themselves
            out[id(loop)] = set().union(*[names for g, names in reads if id(g) not in inside and not any(x is loop for x in ast.walk(g))])
    return out


def _has_yield(body):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        visit_YieldFrom = visit_Yield
        visit_Await = visit_Yield

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass

    v = V()
    for b in body:
        v.visit(b)
    return v.found


def transform_source(src, filename, module=""):
    tree = ast.parse(src, filename)
    tree = Transformer(module.replace("vistautils.", "")).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        module.__dict__.update(SB.MODULE_INJECT)
        code = transform_source(src, self.path, self.fullname)
        exec(code, module.__dict__)
        SB.after_load(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "vistautils" and not fullname.startswith("vistautils."):
            return None
        parts = fullname.split(".")
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f), submodule_search_locations=[base]
            )
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(fullname, f)
            )
        return None


def install():
    for k in list(sys.modules):
        if k == "vistautils" or k.startswith("vistautils."):
            del sys.modules[k]
    sys.meta_path.insert(0, _Finder())
    SB.patch_libraries()
