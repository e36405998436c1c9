"""C15: loading parameters from YAML -- interpolation, included files, validation."""
import os
import sys

sys.path.insert(0, os.path.dirname(__file__))
from params_common import ABSENT, PAR, is_ns, params_model, plain, private_get_by_contract, same_tree, tree, walk  # noqa: E402
from c12_parameters_unify import Conflict, unified  # noqa: E402

from pyvc.harness import contract  # noqa: E402

import yaml  # noqa: E402

OPTS = dict(modules=["vistautils.range", "vistautils._graph", PAR])


class Bad(Exception):
    """the documentation says that loading fails"""


NAME = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-")


def parts(s):
    """the text split into literal strings and the names between %s: [("text", …), ("name", …), …]"""
    out, i = [], 0
    while i < len(s):
        if s[i] == "%":
            j = i + 1
            while j < len(s) and (s[j] in NAME or s[j].isalnum()):
                j += 1
            if j > i + 1 and j < len(s) and s[j] == "%":
                out.append(("name", s[i + 1 : j]))
                i = j + 1
                continue
        out.append(("text", s[i]))
        i += 1
    return out


class Interpolation:
    """what the documentation says"""

    def __init__(self, own, context, env):
        self.own, self.context, self.env = own, context, env
        self.doing = []

    def interpolate(self, v, at):
        if is_ns(v):
            return {k: self.at(at + (k,)) for k in v}
        if not isinstance(v, str):
            return v
        ps = parts(v)
        if len(ps) == 1 and ps[0][0] == "name":
            return self.look_up(ps[0][1])
        out = ""
        for kind, s in ps:
            if kind == "name":
                s = self.look_up(s)
                if not isinstance(s, str):
                    raise Bad("non-string within a string")
            out += s
        return out

    def at(self, comps):
        """the interpolated value of the parameter at the given path"""
        if comps in self.doing:
            raise Bad("cycle")
        self.doing.append(comps)
        try:
            return self.interpolate(walk(self.own, comps), comps)
        finally:
            self.doing.pop()

    def look_up(self, name):
        comps = tuple(name.split("."))
        for i in range(1, len(comps)):
            v = walk(self.own, comps[:i])
            if v is not ABSENT and not is_ns(v):
                raise Bad("a leaf on the path")
        v = walk(self.own, comps)
        if v is not ABSENT and v is not None:
            v = self.at(comps)
            if v is not None:  # null counts as absent
                return v
        v = walk(self.context, comps)
        if v is not ABSENT:
            return v
        if len(comps) == 1 and name in self.env:
            return self.env[name]
        raise Bad("missing")

    def all(self):
        return {k: self.at((k,)) for k in self.own}


class Environment:
    """extra environment variables for the duration of a block"""

    def __init__(self, extra):
        self.extra = extra

    def __enter__(self):
        self.before = {k: os.environ.get(k) for k in self.extra}
        os.environ.update(self.extra)

    def __exit__(self, *a):
        for k, v in self.before.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


REFS = ["a", "b", "c", "n.a", "n.b", "n", "E", "zz", "n.zz", "a.b", "n.m.a"]


def value(h, name="value"):
    k = h.choice(name + ".kind", ["placeholder", "text", "leaf", "null"])
    if k == "placeholder":
        return "%" + h.choice(name + ".of", REFS) + "%"
    if k == "text":
        return h.choice(name + ".before", ["", "x", "%", "x y"]) + "%" + h.choice(name + ".of", REFS) + "%" + h.choice(name + ".after", ["-", "%a%", "%%", " %b", "% %a%", ""])
    if k == "leaf":
        return h.choice(name + ".leaf", ["plain", 7, "", 0, False, 2.5, ["%a%", 1], [], "50%", "100% of 100%"])
    return None


def document(h, name="doc", keys=("a", "b", "c", "n", "E"), depth=2, hi=3, wide=5, val=value):
    out = {}
    for _ in range(h.size(name + ".n", 0, hi, wide)):
        k = h.choice(name + ".key", keys)
        if k in out:
            continue
        if k in ("n", "m"):
            out[k] = document(h, name + ".n", ("a", "b", "m"), depth - 1, 2, 3, val) if depth else {}
        else:
            out[k] = val(h)
    return out


def expected(own, context, env):
    done = Interpolation(own, context, env).all()
    return unified(context, done)


@contract("C15.interpolation", prove=False, covers=["loaded", "failed", "from context", "from environment", "kept as it is", "within text"], scope="documents of up to 3 parameters a level (random: 5), 3 levels", runs=30000, rand=20000, cost=5, **OPTS)
def interpolation(h):
    m = h.mod(PAR)
    own = document(h)
    env_on = h.bool("environment")
    ctx = {}
    if h.bool("with context"):
        ctx = document(h, "context", val=lambda h: h.choice("context value", ["C", 5, "", None, "%E%", ["l"]]))
    env = {"E": h.choice("E", ["env", ""])}
    if h.bool("dotted variable"):
        env["n.a"] = "wrong"
    if h.bool("variable hidden by a parameter"):
        env["b"] = "B"
    loader = m.YAMLParametersLoader() if env_on else m.YAMLParametersLoader(interpolate_environmental_variables=False)
    text = yaml.safe_dump(own, sort_keys=False)
    try:
        want = expected(own, ctx, env if env_on else {})
    except (Bad, Conflict) as e:
        want = e
    with Environment(env):
        c = m.Parameters.from_mapping(ctx)
        k, r = h.outcome(lambda: loader.load_string(text, included_context=c)) if ctx or h.bool("empty context given") else h.outcome(loader.load_string, text)
    if isinstance(want, Exception):
        h.cover("failed")
        h.ensure("a failing interpolation or unification is an IOError", k == "raise" and isinstance(r, IOError), (own, ctx, repr(want), r))
        return
    h.cover("loaded")
    h.ensure("each parameter has its interpolated value, and nothing else is there", k == "return" and same_tree(plain(r), want), (own, ctx, env_on, want, r))
    h.ensure("the context is not changed", same_tree(plain(c), ctx))
    if want != unified(ctx, own):
        h.cover("within text" if any(isinstance(v, str) and len(parts(v)) > 1 and ("name" in dict(parts(v))) for v in own.values()) else "kept as it is")
        flat = repr(own)
        if "%E%" in flat and "E" not in own and "E" not in ctx:
            h.cover("from environment")
        if any("%" + x + "%" in flat and x not in own and x in ctx for x in "abc"):
            h.cover("from context")


def chain_length(h):
    return h.size("length", 1, 4, 12)


@contract("C15.chains", prove=False, covers=["cycle", "resolved"], scope="chains and cycles of up to 4 parameters (random: 12) in any order", **OPTS)
def chains(h):
    """interpolation reaches through any number of parameters, in whatever order they are given"""
    m = h.mod(PAR)
    n = chain_length(h)
    closed = h.bool("closed")
    names = ["p%d" % i for i in range(n)]
    spelled = {x: (x if not h.bool("in a namespace") else "n." + x) for x in names}
    end = h.choice("end", ["v", 3, "", 0, False, ["x"]])
    partial = isinstance(end, str) and h.bool("partial")
    order = list(names)
    for i in range(n - 1):
        j = h.int("swap", small=(i, n - 1), wide=(i, n - 1))
        order[i], order[j] = order[j], order[i]
    flat = {}
    for i, x in enumerate(names):
        if i + 1 < n:
            ref = "%" + spelled[names[i + 1]] + "%"
        elif closed:
            ref = "%" + spelled[names[0]] + "%"
        else:
            ref = None
        flat[x] = end if ref is None else ("<" + ref + ">" if partial else ref)
    doc = {}
    for x in order:
        if spelled[x] != x:
            doc.setdefault("n", {})[x] = flat[x]
        else:
            doc[x] = flat[x]
    k, r = h.outcome(m.YAMLParametersLoader().load_string, yaml.safe_dump(doc, sort_keys=False))
    if closed:
        h.cover("cycle")
        h.ensure("a cycle is an IOError", k == "raise" and isinstance(r, IOError), (doc, r))
        return
    h.cover("resolved")
    for i, x in enumerate(names):
        want = end if not partial else "<" * (n - 1 - i) + end + ">" * (n - 1 - i)
        got = r.get(spelled[x], object) if k == "return" else r
        h.ensure("each parameter has the value at the end of the chain", k == "return" and type(got) is type(want) and got == want, (doc, r))


@contract("C15.spelling", prove=False, covers=["placeholder", "none", "repeated"], scope="names of up to 2 characters (random: 5), up to 3 references in a value (random: 9)", **OPTS)
def spelling(h):
    """what counts as a name, wherever its value comes from, and any number of references in one value"""
    m = h.mod(PAR)
    name = h.text("name", "a-_1\u00e9A %/", 2, 5)
    h.assume(name)
    n = h.size("times", 1, 2, 9)
    where = h.choice("where", ["document", "context", "environment"])
    ref = "%" + name + "%"
    doc = {"r": ref, "s": h.choice("between", ["", "x", " ", "%"]).join([ref] * n) + h.choice("after", ["", "."])}
    ctx, env = {}, {}
    h.assume(name not in doc)
    if where == "environment":
        h.assume("\u00e9" not in name and name not in os.environ)
        env[name] = "v w"
    else:
        (doc if where == "document" else ctx)[name] = h.choice("value", ["v w", "", "50%"])
    if n > 1:
        h.cover("repeated")
    try:
        want = expected(doc, ctx, {**os.environ, **env})
    except Bad as e:
        want = e
    with Environment(env):
        k, r = h.outcome(lambda: m.YAMLParametersLoader().load_string(yaml.safe_dump(doc, sort_keys=False, allow_unicode=True), included_context=m.Parameters.from_mapping(ctx)))
    if isinstance(want, Exception):
        h.ensure("a failure is an IOError", k == "raise" and isinstance(r, IOError), (doc, ctx, want, r))
        return
    h.cover("placeholder" if want["r"] != ref else "none")
    h.ensure("each reference is replaced", k == "return" and same_tree(plain(r), want), (doc, ctx, env, want, r))


@contract("C15.includes", prove=False, covers=["loaded", "failed", "nested", "overridden"], scope="up to 4 files, each including up to 2 others", runs=3000, rand=3000, modules=["vistautils.range", "vistautils._graph", PAR])
def includes(h):
    m = h.mod(PAR)
    import pathlib

    d = pathlib.Path(h.tmpdir())
    files = ["top.params", "one.params", "sub/two.params", "sub/three.params"]
    (d / "sub").mkdir()
    docs, inc = {}, {}
    n = h.size("files", 1, 3, 4)
    small = lambda h: h.choice("v", ["plain", 7, "%a%", "%b%-x", "%E%", None, "%n.a%"])  # noqa: E731
    for i in range(n):
        docs[i] = document(h, "doc%d" % i, ("a", "b", "n"), 1, 2, 3, small)
        # a file includes later files only
        inc[i] = [h.choice("included", range(i + 1, n)) for _ in range(h.size("includes", 0, 2, 3))] if i + 1 < n else []
    for i in range(n):
        raw = dict(docs[i])
        here = (d / files[i]).parent
        if inc[i] or h.bool("empty includes"):
            raw["_includes"] = [
                str(d / files[j]) if h.bool("absolute") else os.path.relpath(d / files[j], here) for j in inc[i]
            ]
            if h.bool("includes first"):
                raw = {"_includes": raw.pop("_includes"), **raw}
        (d / files[i]).write_text(yaml.safe_dump(raw, sort_keys=False), encoding="utf-8")
    missing = n > 1 and h.bool("a file missing")
    if missing:
        (d / files[n - 1]).unlink()
    ctx = h.choice("context", [{}, {"a": "C"}, {"n": {"a": 1}}])
    env = {"E": "env"}

    def load(i, before):
        if missing and i == n - 1:
            raise Bad("no such file")
        for j in inc[i]:
            before = unified(before, load(j, before))
        return expected(docs[i], before, env)

    try:
        want = load(0, ctx)
    except (Bad, Conflict) as e:
        want = e
    given = str(d / files[0]) if h.bool("path as string") else d / files[0]
    ns = h.choice("namespace path", [(), ("x",), ["x", "y"]])
    how = h.choice("context as", ["included_context", "context", "both"])
    kw = {}
    if ctx and how != "both":
        kw[how] = m.Parameters.from_mapping(ctx)
    elif ctx:
        kw = {"context": m.Parameters.from_mapping(ctx), "included_context": m.Parameters.empty()}
    if ns:
        kw["namespace_path"] = ns
    with Environment(env):
        k, r = h.outcome(lambda: m.YAMLParametersLoader().load(given, **kw))
    if ctx and how == "both":
        h.ensure("two contexts are a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
        return
    if isinstance(want, Exception):
        h.cover("failed")
        h.ensure("a failure in any file is an IOError", k == "raise" and isinstance(r, IOError), (docs, inc, want, r))
        return
    h.cover("loaded")
    if any(inc[j] for j in inc[0]):
        h.cover("nested")
    if any(set(docs[0]) & set(docs[j]) for j in inc[0]):
        h.cover("overridden")
    h.ensure("the file and the files it includes are unified, later ones overriding", k == "return" and same_tree(plain(r), want), (docs, inc, ctx, want, r))
    h.ensure("the result has the given namespace path", r.namespace_prefix == tuple(ns), r)


@contract("C15.validation", prove=False, covers=["refused", "accepted", "not a mapping"], scope="documents of depth 3 with keys of any YAML type", **OPTS)
def validation(h):
    m = h.mod(PAR)

    def doc(depth):
        out = {}
        for _ in range(h.size("n", 0, 2, 3)):
            key = h.choice("key", ["a", "b", 1, True, None, 2.5])
            out[key] = doc(depth - 1) if depth and h.bool("nested") else h.choice("value", ["x", 1])
        return out

    def sound(x):
        return not isinstance(x, dict) or all(isinstance(k, str) and sound(v) for k, v in x.items())

    top = h.choice("top", ["mapping", "list", "text", "null", "number", "no YAML", "relative include"])
    if top != "mapping":
        h.cover("not a mapping")
        text = {"list": "- a\n- b\n", "text": "just text\n", "null": "", "number": "7\n", "no YAML": "a: [1\n", "relative include": "_includes: ['x.params']\na: 1\n"}[top]
        k, r = h.outcome(m.YAMLParametersLoader().load_string, text)
        h.ensure("what is no mapping is an IOError", k == "raise" and isinstance(r, IOError), r)
        return
    d = doc(2)
    for _ in range(h.size("levels above", 0, 1, 6)):
        d = {"n": d, "m": 1}
    k, r = h.outcome(m.YAMLParametersLoader().load_string, yaml.safe_dump(d, sort_keys=False))
    if sound(d):
        h.cover("accepted")
        h.ensure("a mapping with string keys is loaded as it is", k == "return" and same_tree(plain(r), d), (d, r))
    else:
        h.cover("refused")
        h.ensure("a key which is no string is an IOError, at any level", k == "raise" and isinstance(r, IOError), (d, r))


# ------------------------------------------------------------------ documents of any size (proofs)
class Abroad:
    """what loading uses of the world outside, by contract: paths, files, YAML, the environment"""

    def __init__(self, h, m):
        self.h, self.m = h, m
        self.failed, self.asked = [], []
        A = h.A
        fn = h.fn
        self.ABS = fn("is_absolute", "any", "bool")
        self.JOIN = fn("join", "any", "any", "any")
        self.RESOLVED, self.TEXT, self.PARENT = fn("resolved", "any", "any"), fn("text_of_file", "any", "any"), fn("parent", "any", "any")
        self.MISSING, self.UNREADABLE = fn("missing", "any", "bool"), fn("unreadable", "any", "bool")
        me = self

        class PathModel(A.SymAny):
            def resolve(self, strict=False):
                if strict is not True:
                    raise h.C.Unsupported("a path which need not exist")
                if h.C.mkbool(me.MISSING(self.t)):
                    me.failed.append("missing")
                    h.cover("missing")
                    raise FileNotFoundError("no such file")
                return PathModel(me.RESOLVED(self.t))

            def read_text(self, encoding=None, errors=None):
                h.ensure("files are read as UTF-8", isinstance(encoding, str) and encoding.lower().replace("_", "-") in ("utf-8", "utf8") and errors in (None, "strict"), (encoding, errors))
                if h.C.mkbool(me.UNREADABLE(self.t)):
                    me.failed.append("unreadable")
                    h.cover("unreadable")
                    raise PermissionError("unreadable")
                return h.MM.SymStr(me.TEXT(self.t))

            def is_absolute(self):
                return me.absolute(self)

            @property
            def parent(self):
                return PathModel(me.PARENT(self.t))

            def __truediv__(self, o):
                return make(self, o)

            def joinpath(self, *o):
                return make(self, *o)

            def __str__(self):
                return "a path"

            def __pyvc_str__(self):
                return h.MM.SymStr(fn("path_as_text", "any", "any")(self.t))

            def __pyvc_isinstance__(self, cls):
                cs = cls if isinstance(cls, tuple) else (cls,)
                return make in cs or object in cs

            __hash__ = None

        class make:
            """Path"""

            def __new__(cls, first, *rest):
                r = PathModel(A.any_term(first))
                for x in rest:
                    r = PathModel(me.JOIN(r.t, A.any_term(x)))
                return r

        self.Path = make
        h.patch(m, "Path", make)

        class Os:
            class path:
                isabs = staticmethod(self.absolute)

            environ = None

        self.os = Os
        h.patch(m, "os", Os)

    def absolute(self, f):
        t = self.h.A.path_term(f)
        self.asked.append(t)
        return self.h.C.mkbool(self.ABS(t))


@contract("C15.load", concrete=False, covers=["included", "nothing included", "absolute", "relative", "loaded", "relative to nothing", "missing", "unreadable", "failing include", "conflict", "refused", "no YAML"], modules=["vistautils.range", "vistautils._graph", PAR])
def load(h):
    """any document with any list of included files, in any environment: over the contracts of YAML, of
    validation, interpolation and unification, and of loading the included files"""
    m = h.mod(PAR)
    A, C, z3 = h.A, h.C, h.z3
    B, I = C.mkbool, C.I
    P = params_model(h)
    world = Abroad(h, m)
    fn = h.fn
    text, base, start, ns = h.string("text"), h.any("directory"), h.instance("context", P), h.any("namespace path")
    h.assume(h.Not(h.same(base, None)))
    CONF, CONFP = fn("conflict", "any", "any", "bool"), fn("conflict_", "any", "any", "bool")
    FAILS, LOAD = fn("load_fails", "any", "any", "any", "bool"), fn("load", "any", "any", "any", "any")
    UNI, MAP, INTER = fn("unified", "any", "any", "any"), fn("as_parameters", "any", "any"), fn("interpolated", "any", "any", "any")
    failure = world.failed

    def of_params(t):
        r = A.SymAny(t)
        h.assume(h.is_a(r, P))
        h.assume(h.Not(h.same(r, None)))
        return r

    # the document
    form = h.choice("document", ["mapping", "no YAML", "refused"])
    listed = form == "mapping" and h.choice("includes", ["some", "none"]) == "some"
    files = h.strings("files", distinct=False)
    KEY = A.const("_includes")
    G = fn("document.value", "any", "any")
    given = h.MM.any_map("document", lambda k: files if listed and C.cur().decide(k == KEY) else A.SymAny(G(k)))
    h.assume(B(given.has(KEY)) if listed else h.Not(B(given.has(KEY))))
    raw = h.S.mkdict({})
    raw.segs = given

    def safe_load(t):
        h.ensure("the text given is parsed", h.same(t, text))
        if form == "no YAML":
            failure.append("YAML")
            raise yaml.YAMLError("no YAML")
        return raw

    class Yaml:
        safe_load = None

    Yaml.safe_load = staticmethod(safe_load)
    h.patch(m, "yaml", Yaml)

    def validate(x):
        if x is not raw:
            raise C.Unsupported("validation of something else")
        validated.append(1)
        if form == "refused":
            failure.append("refused")
            raise OSError("invalid")

    validated = []
    L = m.YAMLParametersLoader
    h.patch(L, "_validate", staticmethod(validate))

    # the files included
    acc = lambda i: fn("loaded_before", "int", "any")(i)  # noqa: E731
    f = lambda i: files.at(i).t  # noqa: E731
    relative = h.choice("relative includes", ["allowed", "not allowed"] if listed else ["allowed"]) == "allowed"

    def path_of(i):
        return z3.If(world.ABS(f(i)), f(i), world.RESOLVED(world.JOIN(base.t, f(i))))

    def one(i):
        p = path_of(i)
        return LOAD(world.TEXT(p), world.PARENT(p), acc(i))

    h.always(lambda i: z3.Implies(z3.And(i >= 0, i < files.n), acc(i + 1) == UNI(acc(i), one(i))))
    C.cur().axiom(acc(z3.IntVal(0)) == start.t)
    h.instantiate(0)
    some = h.int("file")

    def sound(i):
        """nothing fails with this file"""
        p = path_of(i)
        rel = z3.Not(world.MISSING(world.JOIN(base.t, f(i)))) if relative else z3.BoolVal(False)
        return z3.And(z3.Or(world.ABS(f(i)), rel), z3.Not(world.UNREADABLE(p)), z3.Not(FAILS(world.TEXT(p), world.PARENT(p), acc(i))), z3.Not(CONF(acc(i), one(i))))

    real = L._inner_load_from_string

    def inner(self, content, error_string, *, included_context=None, includes_are_relative_to=None, **k):
        if k or self is not loader or included_context is None or includes_are_relative_to is None:
            raise C.Unsupported("options %r" % (k,))
        ts = A.any_term(content), A.any_term(includes_are_relative_to), A.any_term(included_context)
        if B(FAILS(*ts)):
            failure.append("include")
            h.cover("failing include")
            raise OSError("failing include")
        return of_params(LOAD(*ts))

    h.patch(L, "_inner_load_from_string", inner)

    def unify(self, other, *, namespace_prefix=()):
        if not isinstance(other, A.SymAny):
            raise C.Unsupported("unification with a mapping")
        if not isinstance(namespace_prefix, tuple):
            final.append((A.any_term(self), A.any_term(other), A.any_term(namespace_prefix)))
            if B(CONFP(A.any_term(self), A.any_term(other))):
                failure.append("conflict")
                h.cover("conflict")
                raise OSError("conflict")
            return result
        if namespace_prefix:
            raise C.Unsupported("another path")
        if B(CONF(A.any_term(self), A.any_term(other))):
            failure.append("conflict")
            h.cover("conflict")
            raise OSError("conflict")
        return of_params(UNI(A.any_term(self), A.any_term(other)))

    result, final = h.any("result"), []
    h.patch(P, "unify", unify)
    env_on = h.choice("environment", [True, False])
    ENV = h.any_map("environment")
    world.os.environ = ENV
    nested = {}

    def nested_of(t):
        if str(t) not in nested:
            nested[str(t)] = h.MM.term_map("nested", t, facts=lambda o, k: [z3.Not(h.MM.STR_IN(k, A.const(".")))])
        return nested[str(t)]

    h.patch(P, "as_nested_dicts", lambda self: nested_of(A.any_term(self)))
    key = h.string("key")

    def dotted(k):
        return h.MM.STR_IN(k, A.const("."))

    def from_mapping(d, namespace_prefix=()):
        if namespace_prefix != ():
            raise C.Unsupported("a path")
        if isinstance(d, h.S.EDict) and d.segs is not None:
            d = d.segs
        if not isinstance(d, h.MM.SymMap):
            raise C.Unsupported("other mappings")
        token = MAP(A.const("mapping %d" % len(made)))
        made.append((token, d))
        return of_params(token)

    made = []
    h.patch(P, "from_mapping", staticmethod(from_mapping))
    bad_reference = h.choice("interpolation", ["works", "fails"] if form == "mapping" and not listed else ["works"]) == "fails"

    def interpolate(a, b):
        interpolated.append((A.any_term(a), A.any_term(b)))
        if bad_reference:
            failure.append("reference")
            raise m.ParameterError("no such parameter")
        return of_params(INTER(A.any_term(a), A.any_term(b)))

    interpolated = []
    h.patch(L, "_interpolate", staticmethod(interpolate))

    # loops
    def inc_state(env, i):
        i = I(i)
        h.instantiate(i)
        h.assume(h.implies(h.And(some >= 0, B(I(some) < i)), B(sound(I(some)))))
        return {"previously_loaded": of_params(acc(i))}

    def inc_check(env, i, say):
        i = I(i)
        h.instantiate(i - 1)
        say("what has been loaded so far", h.same(h.var(env, "previously_loaded"), A.SymAny(acc(i))))
        say("nothing has failed", h.implies(h.And(some >= 0, B(I(some) < i)), B(sound(I(some)))))

    h.invariant("parameters.YAMLParametersLoader._inner_load_from_string#1", inc_state, inc_check)
    N = files.n if listed else z3.IntVal(0)
    h.instantiate(N)
    before = nested_of(acc(N) if listed else start.t)

    def env_has(upto):
        return lambda k: z3.Or(before.has(k), z3.And(ENV.has(k), ENV.idx(k) < upto, z3.Not(dotted(k))))

    def env_get(k):
        return before.get_at(k) if C.cur().decide(before.has(k)) else ENV.get_at(k)

    def the_dict(env):
        ds = [v for k, v in env.items() if isinstance(v, h.S.EDict) and v is not raw]
        if len(ds) != 1:
            raise C.Unsupported("which dictionary is filled")
        return ds[0]

    def env_state(env, i):
        d = the_dict(env)
        dict.clear(d)
        d.segs = h.MM.derived(env_has(I(i)), env_get)
        return {}

    def env_check(env, i, say):
        d = the_dict(env).segs
        has, want = d.has(key.t), env_has(I(i))(key.t)
        say("the names so far", h.iff(B(has), B(want)))
        if B(z3.And(has, want)):
            say("their values", h.same(d.get_at(key.t), env_get(key.t)))

    inv = h.invariant("parameters.YAMLParametersLoader._inner_load_from_string#2", env_state, env_check, lambda env: [the_dict(env)])
    inv.split = True
    kw = {} if env_on and h.choice("environment by default", [True, False]) else {"interpolate_environmental_variables": env_on}
    loader = L(**kw)
    k, r = h.outcome(lambda: real(loader, text, error_string="here", includes_are_relative_to=world.Path(base) if relative else None, included_context=start, namespace_path=ns))
    if k == "raise":
        h.ensure("a failure is an IOError", isinstance(r, IOError), r)
        if not failure:
            h.cover("relative to nothing")
            h.ensure("there is a reason for refusing", h.Or(*[h.Not(B(world.ABS(t))) for t in world.asked]) if listed and not relative else False, (r, r.__cause__, world.asked, failure))
        if form != "mapping":
            h.cover("no YAML" if form == "no YAML" else "refused")
            h.ensure("a document refused loads nothing", not interpolated)
        return
    h.cover("loaded")
    h.ensure("the document has been validated", form == "mapping" and len(validated) >= 1)
    h.cover("included" if listed else "nothing included")
    h.ensure("a failing interpolation is not accepted", not bad_reference)
    if listed:
        h.ensure("no file included has failed", h.implies(h.And(some >= 0, B(I(some) < files.n)), B(sound(I(some)))))
        if h.And(some >= 0, B(I(some) < files.n)):
            h.cover("absolute" if B(world.ABS(f(I(some)))) else "relative")
    h.ensure("interpolated and unified once", len(final) == 1 and len(interpolated) == 1 and r is result)
    prev = acc(N) if listed else start.t
    a, b = interpolated[0]
    h.ensure("what was loaded before is overridden by the interpolated document", h.And(B(final[0][0] == prev), B(final[0][1] == INTER(a, b))))
    h.ensure("under the namespace path given", B(final[0][2] == ns.t))
    own = [d for t, d in made if t.eq(a)]
    ctx = [d for t, d in made if t.eq(b)]
    if len(own) != 1 or len(ctx) != 1:
        raise C.Unsupported("parameters made otherwise")
    own, ctx = own[0], ctx[0]
    what = h.choice("claim", ["document", "context"])
    if what == "document":
        h.ensure("the document interpolated has its keys, but for the includes", h.iff(B(own.has(key.t)), B(z3.And(given.has(key.t), key.t != KEY))))
        if B(own.has(key.t)):
            h.ensure("and their values", h.same(own.get_at(key.t), A.SymAny(G(key.t))))
    else:
        seen = z3.And(ENV.has(key.t), z3.Not(dotted(key.t))) if env_on else z3.BoolVal(False)
        h.ensure("names are looked up in what was loaded before, and then in the environment unless switched off", h.iff(B(ctx.has(key.t)), B(z3.Or(before.has(key.t), seen))))
        if B(ctx.has(key.t)):
            h.ensure("what was loaded before hides the environment", h.same(ctx.get_at(key.t), before.get_at(key.t) if B(before.has(key.t)) else ENV.get_at(key.t)))


@contract("C15.given", concrete=False, covers=["file", "string", "both contexts", "unreadable"], modules=["vistautils.range", "vistautils._graph", PAR])
def given(h):
    """loading a file or a text, over the contract of C15.load"""
    m = h.mod(PAR)
    A, C = h.A, h.C
    B = C.mkbool
    P = params_model(h)
    world = Abroad(h, m)
    L = m.YAMLParametersLoader
    calls = []
    result = h.any("result")
    EMPTY = h.instance("no parameters", P)
    fails = h.choice("loading", ["works", "fails"]) == "fails"

    def inner(self, content, error_string, *, included_context=None, includes_are_relative_to=None, namespace_path=()):
        calls.append((self, content, included_context, includes_are_relative_to, namespace_path))
        if fails:
            raise OSError("failing")
        return result

    h.patch(L, "_inner_load_from_string", inner)
    default = P.empty()
    h.patch(P, "empty", staticmethod(lambda **k: EMPTY if not k else (_ for _ in ()).throw(C.Unsupported("options"))))
    loader = L()
    kw = {}
    ns = h.any("namespace path")
    if h.choice("namespace path given", [True, False]):
        kw["namespace_path"] = ns
    c1, c2 = h.instance("context", P), h.instance("another context", P)
    if h.choice("what", ["file", "string"]) == "file":
        h.cover("file")
        which = h.choice("context", ["none", "included_context", "context", "both", "none explicitly"])
        if which in ("included_context", "both"):
            kw["included_context"] = c1
        if which in ("context", "both"):
            kw["context"] = c2
        if which == "none explicitly":
            kw.update(included_context=None, context=None)
        t = h.string("path")
        as_text = h.choice("path as", ["text", "path"]) == "text"
        k, r = h.outcome(lambda: loader.load(t if as_text else world.Path(t), **kw))
        if which == "both":
            h.cover("both contexts")
            h.ensure("two contexts are a ParameterError", k == "raise" and isinstance(r, m.ParameterError) and not calls, r)
            return
        if B(world.UNREADABLE(t.t)):
            h.cover("unreadable")
            h.ensure("a file which cannot be read is an IOError", k == "raise" and isinstance(r, IOError), r)
            return
        want = {"included_context": c1, "context": c2}.get(which, EMPTY)
        content, base = A.SymAny(world.TEXT(t.t)), A.SymAny(world.PARENT(t.t))
    else:
        h.cover("string")
        content, base = h.string("text"), None
        which = h.choice("context", ["none", "given"])
        if which == "given":
            kw["included_context"] = c1
        k, r = h.outcome(lambda: loader.load_string(content, **kw))
        want = c1 if which == "given" else default
    h.ensure("loaded once by this loader", len(calls) == 1 and calls[0][0] is loader, calls)
    _, got, ctx, rel, path = calls[0]
    h.ensure("the text is that of the file, or the one given", h.same(got, content))
    if want is default:
        h.ensure("without a context there are no parameters before", isinstance(ctx, P) and not len(ctx._data) and not ctx.namespace_prefix, ctx)
    else:
        h.ensure("with the context given", h.same(ctx, want))
    h.ensure("included files are relative to the file's directory; to none for a text", rel is None if base is None else h.same(rel, base))
    h.ensure("the namespace path is the one given", h.same(path, ns) if "namespace_path" in kw else path == (), path)
    if fails:
        h.ensure("a failure is an IOError", k == "raise" and isinstance(r, IOError), r)
    else:
        h.ensure("the result is that of loading", k == "return" and r is result, r)


@contract("C15.keys", concrete=False, covers=["not a mapping", "key", "below", "accepted"], modules=["vistautils.range", "vistautils._graph", PAR])
def keys(h):
    """one level of the validation of a document of any size and depth, the levels below by the same contract"""
    from collections.abc import Mapping

    m = h.mod(PAR)
    A, C, z3 = h.A, h.C, h.z3
    B, I = C.mkbool, C.I
    L = m.YAMLParametersLoader
    BAD = h.fn("key_which_is_no_text_below", "any", "bool")
    if h.choice("top", ["mapping", "something else"]) == "something else":
        h.cover("not a mapping")
        x = h.any("document")
        h.assume(h.Not(h.is_a(x, Mapping)))
        h.patch(L, "_check_all_keys_strings", staticmethod(lambda *a, **k: None))
        k, r = h.outcome(lambda: L._validate(x))
        h.ensure("what is no mapping is refused", k == "raise" and isinstance(r, Exception), r)
        return
    G = h.fn("document.value", "any", "any")
    d = h.MM.any_map("document", lambda k: A.SymAny(G(k)), at_key=lambda t: A.SymAny(t), facts=lambda k: [])
    real = L._check_all_keys_strings
    above = h.strings("path", distinct=False)

    def by_contract(mapping, path=None):
        if mapping is d:
            # wherever it stands: the path down to it, which is for messages only, is any
            return real(mapping, path if h.choice("where", ["at the top", "below"]) == "at the top" else h.S.sym_list(above))
        if path is not None and not h.S.sym_isinstance(path, (list, tuple)):
            raise C.Unsupported("path of a mapping")
        t = A.any_term(mapping)
        h.ensure("only mappings are looked into", h.is_a(mapping, Mapping))
        if B(BAD(t)):
            raise OSError("a key below")

    h.patch(L, "_check_all_keys_strings", staticmethod(by_contract))
    k, r = h.outcome(lambda: L._validate(d))
    key = h.any("key")
    here = B(d.has(key.t))
    v = A.SymAny(G(key.t))
    bad = h.Or(h.Not(h.is_a(key, str)), h.And(h.is_a(v, Mapping), B(BAD(v.t))))
    if k == "return":
        h.cover("accepted")
        h.ensure("accepted only if every key is a text, at every level", h.implies(here, h.Not(bad)))
        return
    h.ensure("refusal is an IOError", isinstance(r, IOError), r)
    kk = lambda i: A.SymAny(d.key_at(i.t if hasattr(i, "t") else I(i)))  # noqa: E731
    vv = lambda i: A.SymAny(G(kk(i).t))  # noqa: E731
    h.ensure("refused only if some key is no text, here or below", h.exists(C.mkint(d.n), lambda i: h.Or(h.Not(h.is_a(kk(i), str)), h.And(h.is_a(vv(i), Mapping), B(BAD(vv(i).t))))))
    h.cover("key" if h.And(here, h.Not(h.is_a(key, str))) else "below")


INTERPOLATE = "parameters.YAMLParametersLoader._interpolate"


class Pattern:
    """the pattern of placeholders, by contract: texts which are nothing but a placeholder, the number of
    placeholders in a text, and their names"""

    def __init__(self, h):
        A, MM, C = h.A, h.MM, h.C
        self.h = h
        self.PLACE, self.NAME, self.COUNT = h.fn("is_placeholder", "any", "bool"), h.fn("name_at", "any", "int", "any"), h.fn("placeholders", "any", "int")
        me = self

        class Whole(MM.SymStr):
            """%name%"""

            def __init__(self, t, name):
                MM.SymStr.__init__(self, t)
                self.name = name

            def __getitem__(self, i):
                if i != slice(1, -1):
                    raise C.Unsupported("another part of a placeholder")
                return MM.SymStr(self.name)

        class Value(A.SymAny):
            """a value of a parameter"""

            def __getitem__(self, i):
                if i != slice(1, -1) or not h.C.cur().decide(me.PLACE(self.t)):
                    raise C.Unsupported("part of a value")
                return MM.SymStr(me.NAME(self.t, h.z3.IntVal(0)))

        class Match:
            def __init__(self, text, i):
                self.text, self.i = text, i

            def group(self, *g):
                name = me.NAME(self.text, self.i)
                if g in ((), (0,)):
                    return Whole(h.fn("with_percents", "any", "any")(name), name)
                if g == (1,):
                    return MM.SymStr(name)
                raise C.Unsupported("group %r" % (g,))

            def __getitem__(self, g):
                return self.group(g)

        self.Value, self.Match = Value, Match

    def __getattr__(self, name):
        if name.startswith("__") or name == "substitute":
            raise AttributeError(name)
        raise self.h.C.Unsupported("%r of a pattern" % name)

    def facts(self, t):
        """a text which is a placeholder has that one; a text with one is not empty"""
        self.h.C.cur().axiom(self.h.z3.Implies(self.COUNT(t) > 0, self.h.A.TRUTHY(t)))
        self.h.C.cur().axiom(self.h.z3.And(self.COUNT(t) >= 0, self.h.z3.Implies(self.PLACE(t), self.COUNT(t) == 1)))

    def fullmatch(self, v):
        t = self.h.A.any_term(v)
        self.facts(t)
        if not self.h.C.cur().decide(self.PLACE(t)):
            return None
        self.h.cover("placeholder")
        return self.Match(t, self.h.z3.IntVal(0))

    def findall(self, v):
        t = self.h.A.any_term(v)
        self.facts(t)
        return self.h.S.SymSeq(self.COUNT(t), lambda i: self.h.MM.SymStr(self.NAME(t, i)))

    def sub(self, f, v):
        return self.substitute(self.h.A.any_term(v), f)


@contract("C15.replaced", concrete=False, covers=["placeholder", "within text", "no text", "from context", "cycle", "missing", "non-text", "interpolated"], modules=["vistautils.range", "vistautils._graph", PAR])
def replaced(h):
    """the values of any parameters once interpolated, over the contracts of sorting (C14), of the pattern of
    placeholders, of looking up in the context (C11), and of getting and setting a name in nested mappings"""
    m = h.mod(PAR)
    A, C, z3, MM = h.A, h.C, h.z3, h.MM
    B, I = C.mkbool, C.I
    P, Err = params_model(h), m.ParameterError
    find = private_get_by_contract(h)
    L = m.YAMLParametersLoader
    own, ctx = h.instance("parameters", P), h.instance("context", P)
    h.assume(B(own.namespace_prefix.n == 0))
    h.assume(B(ctx.namespace_prefix.n == 0))
    NONE = A.const(None)
    OWN, FINAL = h.fn("own", "any", "any"), h.fn("final", "any", "any")
    n, at, pos = h.z3.Int("order.n"), h.fn("order", "int", "any"), h.fn("position", "any", "int")
    pattern = Pattern(h)
    is_str = lambda t: B(A.INST(t, A.const(str)))  # noqa: E731
    failed = []

    missing = []
    found = P._private_get

    def private_get(self, *a, **k):
        try:
            return found(self, *a, **k)
        except Err:
            missing.append(1)
            raise

    h.patch(P, "_private_get", private_get)

    # what the names in text are replaced by
    def looked_up(name):
        """(fails, value): the final value of the document's parameter, or that of the context"""
        nowhere, v = find(ctx, MM.SymStr(name))
        mine = z3.And(OWN(name) != NONE, FINAL(name) != NONE)
        return z3.And(z3.Not(mine), nowhere.t if hasattr(nowhere, "t") else z3.BoolVal(bool(nowhere))), z3.If(mine, FINAL(name), v.t)

    # the order: all names which are referred to or refer to others, those referred to first
    h.assume(B(n >= 0))

    def listed(k):
        return z3.And(pos(k) >= 0, pos(k) < n, at(pos(k)) == k)

    h.always(lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(pos(at(i)) == i, OWN(at(i)) != NONE, A.INST(at(i), A.const(str)))))

    def refers(i, j):
        """the j-th name in the value at position i comes earlier, if it is one of the document"""
        v = OWN(at(i))
        r = pattern.NAME(v, j)
        C.cur().axiom(z3.Implies(z3.And(i >= 0, i < n, A.INST(v, A.const(str)), j >= 0, j < pattern.COUNT(v), OWN(r) != NONE), z3.And(listed(r), pos(r) < i)))
        C.cur().axiom(A.INST(r, A.const(str)))
        h.S.index_term(C.cur(), pos(r))
        return r

    def final(i):
        """the definition of the final value at position i"""
        v = OWN(at(i))
        pattern.facts(v)
        r = refers(i, z3.IntVal(0))
        _, got = looked_up(r)
        text = h.fn("text_with_final_values", "any", "any")(v)
        C.cur().axiom(z3.Implies(z3.And(i >= 0, i < n), FINAL(at(i)) == z3.If(z3.Not(A.INST(v, A.const(str))), v, z3.If(pattern.PLACE(v), got, text))))

    class Nested:
        """the document as nested mappings: what each name leads to, None if nothing"""

        cur = staticmethod(lambda k: OWN(k))

        def __getitem__(self, key):
            tops.append(self.cur)
            return A.SymAny(h.fn("top_level", "any", "any")(A.any_term(key)))

    nested, tops = Nested(), []
    h.patch(P, "as_nested_dicts", lambda self: nested if self is own else (_ for _ in ()).throw(C.Unsupported("other parameters")))
    now = {}

    def get(d, name):
        if d is not nested:
            raise C.Unsupported("another mapping")
        return pattern.Value(nested.cur(A.any_term(name)))

    def put(d, name, value):
        if d is not nested:
            raise C.Unsupported("another mapping")
        before, k0, v = nested.cur, A.any_term(name), A.any_term(value)
        nested.cur = lambda k: z3.If(k == k0, v, before(k))

    h.nested(INTERPOLATE + ".get_from_nested_dict", get)
    h.nested(INTERPOLATE + ".set_in_nested_dict", put)
    h.nested(INTERPOLATE + ".gather_interpolation_edges", lambda p: gathered.append(p))
    gathered = []
    cyclic = h.choice("cyclic", [False, True])

    class Graph:
        def __init__(self, nodes=(), edges=()):
            h.ensure("the references of the parameters are gathered first", len(gathered) == 1 and gathered[0] is own, gathered)

        def topological_sort(self):
            if cyclic:
                failed.append("cycle")
                raise m.ParameterInterpolationError("cycle") if hasattr(m, "ParameterInterpolationError") else h.mod("vistautils._graph").ParameterInterpolationError("cycle")
            return h.S.SymSeq(n, lambda i: MM.SymStr(at(z3.simplify(n - 1 - i))))

    h.patch(m, "Digraph", Graph)

    def substitute(t, f):
        """re.sub: each placeholder's text is what f gives"""
        j = h.int("placeholder", lo=0)
        pattern.facts(t)
        if h.C.cur().decide(I(j) < pattern.COUNT(t)):
            r = refers(now["i"], I(j))
            fails, want = looked_up(r)
            if h.C.cur().decide(OWN(r) == NONE):
                h.cover("from context")
            now["replaced"] = A.SymAny(want)
            got = f(pattern.Match(t, I(j)))
            h.cover("within text")
            h.ensure("a name is replaced by its final value", h.same(got, A.SymAny(want)))
            h.ensure("which is a text", h.is_a(got, str))
            h.ensure("missing names are not replaced", B(z3.Not(fails)))
        h.ensure("the text is the parameter's", B(t == OWN(at(now["i"]))))
        return MM.SymStr(h.fn("text_with_final_values", "any", "any")(t))

    pattern.substitute = substitute
    h.patch(L, "_INTERPOLATION_REGEX", pattern)

    class Re:
        @staticmethod
        def sub(p, f, text):
            if p is not pattern:
                raise C.Unsupported("another pattern")
            return substitute(A.any_term(text), f)

    h.patch(m, "re", Re)
    probe = h.string("name")

    def current(i):
        return lambda k: z3.If(z3.And(listed(k), pos(k) < i), FINAL(k), OWN(k))

    def state(env, i):
        i = I(i)
        now["i"] = i
        h.S.index_term(C.cur(), i)
        final(i)
        if h.C.cur().decide(z3.And(i >= 0, i < n, z3.Not(A.INST(OWN(at(i)), A.const(str))))):
            h.cover("no text")
        nested.cur = current(i)
        return {}

    def check(env, i, say):
        i = I(i)
        h.S.index_term(C.cur(), pos(probe.t))
        if now:
            h.S.index_term(C.cur(), z3.simplify(i - 1))
        say("the names so far have their final values, the others the document's", B(nested.cur(probe.t) == current(i)(probe.t)))

    h.invariant(INTERPOLATE + "#1", state, check)
    made = []

    def from_mapping(d, namespace_prefix=()):
        made.append((d, namespace_prefix))
        return result

    result = h.any("result")
    h.patch(P, "from_mapping", staticmethod(from_mapping))
    k, r = h.outcome(lambda: L._interpolate(own, ctx))
    if k == "raise":
        if cyclic:
            h.cover("cycle")
            h.ensure("a cycle is refused", failed == ["cycle"], r)
            return
        h.ensure("refusal is a ParameterError", isinstance(r, Err), r)
        if missing:
            h.cover("missing")
        else:
            h.cover("non-text")
            h.ensure("there is a reason for refusing", h.Not(h.is_a(now["replaced"], str)) if "replaced" in now else False, r)
        return
    h.cover("interpolated")
    h.ensure("a cycle is not accepted", not cyclic)
    h.ensure("the result is made once", len(made) == 1 and r is result)
    d, prefix = made[0]
    h.ensure("at the top level", h.length(prefix) == 0 if not isinstance(prefix, tuple) else prefix == ())
    if not isinstance(d, MM.SymMap):
        raise C.Unsupported("another kind of mapping")
    key = h.string("key")
    h.ensure("of the document's keys", h.iff(B(d.has(key.t)), B(own._data.has(key.t))))
    if B(d.has(key.t)):
        h.ensure("with what they have become", h.same(d.get_at(key.t), A.SymAny(h.fn("top_level", "any", "any")(key.t))))
    h.ensure("when all have their final values", h.And(*[B(c(probe.t) == current(n)(probe.t)) for c in tops]))


@contract("C15.gathered", concrete=False, covers=["no text", "refers", "elsewhere"], modules=["vistautils.range", "vistautils._graph", PAR])
def gathered(h):
    """what is handed to sorting: the parameters which refer or are referred to, and who refers to whom"""
    m = h.mod(PAR)
    A, C, z3, MM = h.A, h.C, h.z3, h.MM
    B, I = C.mkbool, C.I
    P = params_model(h)
    L = m.YAMLParametersLoader
    own, ctx = h.instance("parameters", P), h.instance("context", P)
    h.assume(B(own.namespace_prefix.n == 0))
    h.assume(B(ctx.namespace_prefix.n == 0))
    OWN = h.fn("own", "any", "any")
    pattern = Pattern(h)
    h.patch(L, "_INTERPOLATION_REGEX", pattern)
    n, key = h.z3.Int("leaves.n"), h.fn("leaf", "int", "any")
    h.assume(B(n >= 0))

    def leaf(i):
        C.cur().axiom(z3.Implies(z3.And(i >= 0, i < n), z3.Not(A.INST(OWN(key(i)), A.const(P)))))
        return (MM.SymStr(key(i)), pattern.Value(OWN(key(i))))

    h.patch(P, "namespaced_items", lambda self: h.S.SymSeq(n, leaf))
    nested = object()
    h.patch(P, "as_nested_dicts", lambda self: nested)

    def get(d, name):
        if d is not nested:
            raise C.Unsupported("another mapping")
        return pattern.Value(OWN(A.any_term(name)))

    h.nested(INTERPOLATE + ".get_from_nested_dict", get)

    class Stop(Exception):
        pass

    seen = []

    class Graph:
        def __init__(self, nodes=(), edges=()):
            seen.append((nodes, edges))
            raise Stop

    h.patch(m, "Digraph", Graph)
    k, r = h.outcome(lambda: L._interpolate(own, ctx))
    h.ensure("the graph is made", isinstance(r, Stop), r)
    nodes, edges = seen[0]
    def there(t):
        return OWN(t) != A.const(None)

    def refers(i, j):
        v = OWN(key(i))
        return z3.And(i >= 0, i < n, MM.is_str(v), j >= 0, j < pattern.COUNT(v))

    def witnessed(f):
        """of some leaf and placeholder: those spoken of so far"""
        ts = [t for t in h.S.quant(C.cur()).terms]
        return z3.Or(*[f(i, j) for i in ts for j in ts])

    def name(i, j):
        return pattern.NAME(OWN(key(i)), j)

    def same_pair(e, f):
        return h.And(h.same(e[0], f[0]), h.same(e[1], f[1]))

    nodes, edges = seen[0]
    claim = h.choice("claim", ["nothing else", "all"])
    if claim == "nothing else":
        h.ensure(
            "each edge is from a parameter to one it refers to",
            h.each_result(edges, lambda e: B(witnessed(lambda i, j: z3.And(refers(i, j), A.any_term(e[0]) == key(i), A.any_term(e[1]) == name(i, j), there(name(i, j)))))),
        )
        h.ensure(
            "each node is a parameter, or is referred to and there",
            h.each_result(nodes, lambda e: B(witnessed(lambda i, j: z3.Or(z3.And(i >= 0, i < n, A.any_term(e) == key(i)), z3.And(refers(i, j), A.any_term(e) == name(i, j), there(name(i, j))))))),
        )
        return
    i, j = C.cur().const("leaf", z3.IntSort()), C.cur().const("place", z3.IntSort())
    h.S.index_term(C.cur(), i)
    h.S.index_term(C.cur(), j)
    h.S.pair_term(C.cur(), i, j)
    v = OWN(key(i))
    leaf(i)
    pattern.facts(v)
    h.assume(B(z3.And(i >= 0, i < n)))
    if not B(MM.is_str(v)):
        h.cover("no text")
        return
    h.assume(B(refers(i, j)))
    me, to = MM.SymStr(key(i)), MM.SymStr(name(i, j))
    h.ensure("a parameter which refers is a node", h.result_has(nodes, me, h.same))
    pattern.facts(OWN(to.t))
    edge = h.result_has(edges, (me, to), same_pair)
    if B(z3.And(MM.is_str(OWN(to.t)), pattern.COUNT(OWN(to.t)) > 0)):
        # it must be known before
        h.cover("refers")
        MM.SymStr(OWN(to.t))  # a text is there
        h.ensure("so is what it refers to, when that refers to others", h.result_has(nodes, to, h.same))
        h.ensure("with an edge between them", edge)
    else:
        h.cover("elsewhere")
        h.ensure("both ends of an edge are nodes", h.Or(h.Not(edge), h.result_has(nodes, to, h.same)))
