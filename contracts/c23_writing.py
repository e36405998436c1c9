"""C23: parameters written as YAML are loaded back as they were."""
import os
import pathlib
import sys

sys.path.insert(0, os.path.dirname(__file__))
from params_common import PAR, plain, same_tree, tree  # noqa: E402

from pyvc.harness import contract  # noqa: E402

OPTS = dict(modules=["vistautils.range", "vistautils.io_utils", "vistautils._graph", PAR])
# texts YAML would take for something else unless quoted, long and multi-line texts
TEXTS = ["plain", "", " ", "7", "1.5", "true", "null", "~", "yes", "- x", "a: b", "#c", "\u00e9\u4e2d", "two\nlines", "trailing\n", "'", '"', "%", "50%", "2020-01-01", "1_000", "0x1f", "1e3", ".inf", "[a]", "{a}", "*x", "&x", "!x", "|", ">", "w " * 60, "x" * 200, "\t", "\x85", "=", "<<", "0o7", "1:30", "\\", "@"]
LEAVES = TEXTS + [7, 0, -3, 10 ** 20, 1.5, 0.0, 1e300, 1e-7, -2.5e16, True, False, None, [], ["x", 1, None], [[1], ["%"]], (1, 2), pathlib.Path("/a/b"), pathlib.Path("/x/../y"), pathlib.Path("."), pathlib.Path("../z z"), [pathlib.Path("c"), "x"], [{"k": 1}], float("inf")]
KEYS = ["a", "b", "k 1", "7", "true", "\u00e9", "", "null", "-", "_x", "a:b", "#"]


def stored(v):
    """what a value is read back as"""
    if isinstance(v, dict):
        return {k: stored(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [stored(x) for x in v]
    if isinstance(v, pathlib.Path):
        return str(v)
    return v


@contract("C23.round_trip", prove=False, covers=["file", "string", "nested", "path", "empty"], scope="dictionaries of depth 3 with up to 2 keys a level (random: 3)", runs=6000, rand=6000, **OPTS)
def round_trip(h):
    m = h.mod(PAR)
    u = h.mod("vistautils.io_utils")
    d = tree(h, depth=2, leaves=LEAVES, keys=KEYS)
    p = m.Parameters.from_mapping(d)
    want = stored(d)
    if not d:
        h.cover("empty")
    if any(isinstance(v, dict) for v in d.values()):
        h.cover("nested")
    if want != d:
        h.cover("path")
    w = m.YAMLParametersWriter()
    to = h.choice("to", ["string", "file", "file name"])
    if to == "string":
        h.cover("string")
        s = u.CharSink.to_string()
        w.write(p, s)
        k, r = h.outcome(m.YAMLParametersLoader().load_string, s.last_string_written)
        text = s.last_string_written
    else:
        h.cover("file")
        f = pathlib.Path(h.tmpdir()) / "x.params"
        w.write(p, str(f) if to == "file name" else f)
        k, r = h.outcome(m.YAMLParametersLoader().load, f)
        text = f.read_text(encoding="utf-8")
    h.ensure("what is written is loaded back as it was, in order", k == "return" and same_tree(plain(r), want) and order(plain(r)) == order(want), (d, text, r))
    h.ensure("writing changes nothing", same_tree(plain(p), d), d)


def order(d):
    return [(k, order(v)) for k, v in d.items()] if isinstance(d, dict) else None


@contract("C23.refusals", prove=False, covers=["refused"], scope="values which are no parameters, one to three levels deep", **OPTS)
def refusals(h):
    m = h.mod(PAR)
    u = h.mod("vistautils.io_utils")
    bad = h.choice("value", [b"x", bytearray(b"x"), object(), {1, 2}, 1j, [b"x"], ["a", [object()]]])
    d = {"a": bad, "b": 1}
    for _ in range(h.size("levels", 0, 2, 3)):
        d = {"n": d, "b": 1}
    k, r = h.outcome(m.YAMLParametersWriter().write, m.Parameters.from_mapping(d), u.CharSink.to_string())
    h.cover("refused")
    h.ensure("what is no parameter value is a RuntimeError", k == "raise" and isinstance(r, RuntimeError), (bad, r))


@contract("C23.prepare", concrete=False, covers=["path", "mapping", "sequence", "kept", "refused", "refused below"], **OPTS)
def prepare(h):
    """one level of a value prepared for writing, what is below by the same contract"""
    from collections.abc import Mapping, Sequence

    m = h.mod(PAR)
    A, C = h.A, h.C
    B = C.mkbool
    W = m.YAMLParametersWriter
    PRE, BAD = h.fn("prepared", "any", "any"), h.fn("refused", "any", "bool")
    real = W._preprocess_dicts

    def by_contract(self, node):
        t = A.any_term(node)
        if B(BAD(t)):
            raise RuntimeError("refused below")
        return A.SymAny(PRE(t))

    h.patch(W, "_preprocess_dicts", by_contract)
    kind = h.choice("kind", ["mapping", "sequence", "other"])
    if kind == "mapping":
        x = h.any_map("mapping", sample={})
    elif kind == "sequence":
        x = h.any_list("sequence")
    else:
        x = h.any("value")
        h.assume(h.Not(h.is_a(x, Mapping)))
        # strings and bytes are sequences; other sequences are the case above
        h.assume(h.implies(h.is_a(x, Sequence), h.Or(h.is_a(x, str), h.is_a(x, (bytes, bytearray)))))
        for c in (str, bytes, bytearray):
            h.assume(h.implies(h.is_a(x, c), h.is_a(x, Sequence)))
    k, r = h.outcome(lambda: real(W(), x))
    if k == "raise":
        h.ensure("refusal is a RuntimeError", isinstance(r, RuntimeError), r)
    if kind == "other":
        if h.is_a(x, pathlib.Path):
            h.cover("path")
            h.ensure("a path is its text", k == "return" and B(A.any_term(r) == h.T.STR_OF(x.t)), r)
        elif h.Or(h.same(x, None), h.is_a(x, (str, int, float))):
            h.cover("kept")
            h.ensure("a string, number, boolean or null is kept", k == "return" and h.same(r, x), r)
        else:
            h.cover("refused")
            h.ensure("anything else is refused", k == "raise", r)
        return
    if kind == "mapping":
        key = h.string("key")
        some = lambda key: h.And(B(x.has(key)), B(BAD(x.get_at(key).t)))  # noqa: E731
        if k == "raise":
            h.cover("refused below")
            h.ensure("a mapping is refused only if one of its values is", h.exists_key(x, some))
            return
        h.cover("mapping")
        h.ensure("a mapping is accepted only if each of its values is", h.Not(some(key.t)))
        h.ensure("a plain dictionary", isinstance(r, dict), r)
        h.ensure("of exactly its keys", h.iff(key in r, B(x.has(key.t))))
        if B(x.has(key.t)):
            h.ensure("with the values prepared", h.same(r[key], A.SymAny(PRE(x.get_at(key.t).t))))
        i = h.int("position")
        h.assume(h.And(i >= 0, B(C.I(i) < x.n)))
        out = r.segs if isinstance(r, dict) else r
        h.ensure("in their order", h.And(B(out.n == x.n), B(out.key_at(C.I(i)) == x.key_at(C.I(i)))))
        return
    i = h.int("position")
    h.assume(h.And(i >= 0, B(C.I(i) < x.n)))
    h.instantiate(i)
    if k == "raise":
        h.cover("refused below")
        h.ensure("a sequence is refused only if one of its elements is", h.Not(h.forall(x.n, lambda j: h.Not(B(BAD(x.at(C.I(j)).t))))))
        return
    h.cover("sequence")
    h.ensure("a sequence is accepted only if each of its elements is", h.Not(B(BAD(x.at(C.I(i)).t))))
    h.ensure("a plain list", isinstance(r, list), r)
    h.ensure_sequence("its elements, prepared, in order", h.S.consume(r), x.n, lambda j: A.SymAny(PRE(x.at(C.I(j)).t)))


@contract("C23.write", concrete=False, covers=["sink", "path", "file name", "refused"], **OPTS)
def write(h):
    """any parameters, over the contracts of sinks, of PyYAML and of the preparation"""
    from params_common import params_model

    m = h.mod(PAR)
    A, C = h.A, h.C
    B = C.mkbool
    W = m.YAMLParametersWriter
    P = params_model(h)
    PRE, BAD, DICT = h.fn("prepared", "any", "any"), h.fn("refused", "any", "bool"), h.fn("as_nested_dicts", "any", "any")
    log = []

    def by_contract(self, node):
        t = A.any_term(node)
        if B(BAD(t)):
            raise RuntimeError("refused")
        return A.SymAny(PRE(t))

    def dicts(self):
        return A.SymAny(DICT(A.any_term(self)))

    h.patch(W, "_preprocess_dicts", by_contract)
    h.patch(P, "as_nested_dicts", dicts)

    class Opened:
        def __init__(self, sink):
            self.sink, self.open = sink, True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.open = False
            return False

    handles = []

    class Sink:
        """a character sink: opening it empties it"""

        def __init__(self, to):
            self.to = to

        def open(self):
            handles.append(Opened(self))
            return handles[-1]

    class Sinks:
        @staticmethod
        def to_file(x):
            return Sink(x)

    class Yaml:
        @staticmethod
        def dump(data, stream=None, **k):
            # what is dumped is loaded back as it was: plain data, in order unless told to sort
            if k.pop("sort_keys", True):
                h.fail("the order is kept")
            if set(k) - {"default_flow_style", "indent", "width", "allow_unicode"}:
                raise C.Unsupported("options %r" % (k,))
            h.ensure("what is written goes to a sink which is open", isinstance(stream, Opened) and stream.open)
            log.append((data, stream))

        safe_dump = dump

    h.patch(m, "CharSink", Sinks)
    h.patch(m, "yaml", Yaml)
    me = h.instance("parameters", P)
    kind = h.choice("to", ["sink", "path", "file name"])
    h.cover(kind)
    to = Sink("given") if kind == "sink" else pathlib.Path("/a/b") if kind == "path" else "/a/b"
    k, r = h.outcome(lambda: W().write(me, to))
    bad = B(BAD(DICT(A.any_term(me))))
    if k == "raise":
        h.cover("refused")
        h.ensure("refused only if a value cannot be written", h.And(bad, isinstance(r, RuntimeError)), r)
        h.ensure("and then nothing is written", not log)
        return
    h.ensure("accepted only if every value can be written", h.Not(bad))
    h.ensure("written once", len(log) == 1 and len(handles) == 1, (log, handles))
    data, out = log[0]
    h.ensure("what is written is the content of the parameters, prepared", B(A.any_term(data) == PRE(DICT(A.any_term(me)))))
    s = out.sink
    h.ensure("to the sink, or file, given", s is to if kind == "sink" else str(s.to) == "/a/b", s)
    h.ensure("which is closed", not out.open)
