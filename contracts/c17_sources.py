"""C17: key-value sources over mappings, files and archives all give the mapping behind them."""
import io
import pathlib
import tarfile
import zipfile

from pyvc.harness import contract

KV = "vistautils.key_value"
OPTS = dict(modules=["vistautils.range", "vistautils._graph", "vistautils.parameters", "vistautils.io_utils", KV])
KEYS = ["a", "A", "b", "d/c", "\u00e9", "b.txt", "x y"]
TEXTS = ["", "x", "\u00e9\n\u4e2d", "two\nlines\n", "0"]


class Boom(Exception):
    pass


def content(h, hi=3, wide=6, name="n"):
    out = {}
    for _ in range(h.size(name, 0, hi, wide)):
        out[h.choice("key", KEYS)] = h.choice("text", TEXTS)
    return out


def accepts(h, d):
    """a filter on keys: what it accepts, and the function, which records the keys it was asked about"""
    ok = {k for k in KEYS if h.bool("accepted")}
    return ok, lambda k: k in ok


def left_by_exception(h, s):
    """leaving by an exception passes it on and releases what was opened"""
    def use():
        with s:
            raise Boom()

    k, r = h.outcome(use)
    h.ensure("an exception in the block is passed on", k == "raise" and isinstance(r, Boom), r)
    h.ensure("a source which has been left holds no file open", not h.held_files(), h.held_files())


def check_source(h, s, want, absent=("absent", "")):
    """s is an open random-access source for the mapping want"""
    keys = s.keys()
    h.ensure("the keys are those of the mapping", keys is not None and set(keys) == set(want) and len(list(keys)) == len(want), (keys, want))
    for k, v in want.items():
        h.ensure("each key has its value", s[k] == v and s.get(k) == v and s.get(k, "dflt") == v and type(s[k]) is type(v), (k, v))
    for k in absent:
        h.ensure("an absent key has the default", s.get(k) is None and s.get(k, "dflt") == "dflt", k)
        kk, r = h.outcome(lambda: s[k])
        h.ensure("looking up an absent key is a KeyError", kk == "raise" and isinstance(r, KeyError), (k, r))
    check_items(h, s, want)


def check_items(h, s, want, order=None):
    h.ensure("the items are exactly the keys with their values", sorted(s.items()) == sorted(want.items()), want)
    ok, f = accepts(h, want)
    got = list(s.items(f))
    h.ensure("a key filter keeps exactly the keys it accepts", sorted(got) == sorted((k, v) for k, v in want.items() if k in ok), (ok, got))
    h.ensure("a key filter may be given by name", sorted(s.items(key_filter=f)) == sorted(got), got)
    h.ensure("items can be listed again", sorted(s.items()) == sorted(want.items()))


def write_files(d, want):
    out = {}
    for i, (k, v) in enumerate(want.items()):
        p = d / ("f%d.txt" % i)
        p.write_bytes(v.encode("utf-8"))
        out[k] = p
    return out


@contract("C17.file_maps", prove=False, covers=["from mapping", "from map", "binary"], scope="up to 3 files (random: 6)", runs=1500, rand=1200, **OPTS)
def file_maps(h):
    m = h.mod(KV)
    u = h.mod("vistautils.io_utils")
    d = pathlib.Path(h.tmpdir())
    want = content(h)
    paths = write_files(d, want)
    how = h.choice("how", ["from mapping", "from map", "binary"])
    h.cover(how)
    given = h.choice("map given as", ["path", "string", "source"])
    if how == "from mapping":
        k, s = h.outcome(m.KeyValueSource.from_path_mapping, list(paths.items()))
    else:
        if h.bool("written by the library"):
            u.write_doc_id_to_file_map(paths, u.CharSink.to_file(d / "map"))
        else:
            lines = []
            for k, p in paths.items():
                lines.append("%s\t%s\n" % (k, p))
                if h.bool("blank line"):
                    lines.append("\n")
            (d / "map").write_text("".join(lines), encoding="utf-8")
        g = {"path": d / "map", "string": str(d / "map"), "source": u.CharSource.from_file(d / "map")}[given]
        f = m.KeyValueSource.from_doc_id_to_file_map if how == "from map" else m.KeyValueSource.binary_from_doc_id_to_file_map
        k, s = h.outcome(f, g)
    h.ensure("the source can be made", k == "return", s)
    exp = want if how != "binary" else {k: v.encode("utf-8") for k, v in want.items()}
    with s as ss:
        check_source(h, ss, exp)
    check_source(h, s, exp)
    left_by_exception(h, s)


@contract("C17.tar", prove=False, covers=["skipped by name", "skipped by key", "renamed", "directory", "kept"], scope="archives of up to 3 members (random: 6)", runs=2000, rand=1500, **OPTS)
def tar(h):
    m = h.mod(KV)
    d = pathlib.Path(h.tmpdir())
    want = {}
    members = []
    with tarfile.open(d / "x.tgz", "w:gz") as t:
        for i in range(h.size("members", 0, 3, 6)):
            name = h.choice("name", KEYS)
            if name in [x for x, _ in members]:
                continue
            text = h.choice("text", TEXTS)
            if h.bool("directory"):
                h.cover("directory")
                ti = tarfile.TarInfo("dir%d" % i)
                ti.type = tarfile.DIRTYPE
                t.addfile(ti)
            if members and h.bool("link or device"):
                ti = tarfile.TarInfo("other%d" % i)
                ti.type = h.choice("type", [tarfile.SYMTYPE, tarfile.LNKTYPE, tarfile.FIFOTYPE])
                ti.linkname = members[0][0]
                t.addfile(ti)
            members.append((name, text))
            ti = tarfile.TarInfo(name)
            data = text.encode("utf-8")
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
    kind = h.choice("kind", ["str", "byte"])
    kw = {}
    drop, rename = set(), {}
    if h.bool("name filter"):
        drop = {k for k in KEYS if h.bool("dropped")}
        kw["name_filter"] = lambda k: k not in drop
    if h.bool("key function"):
        none = {k for k in KEYS if h.bool("no key")}
        kw["key_function"] = lambda k: None if k in none else "k:" + k
        rename = {k: None if k in none else "k:" + k for k in KEYS}
    src = getattr(m.KeyValueLinearSource, kind + "_linear_source_from_tar_gz")(d / "x.tgz", **kw)
    want = []
    for k, v in members:
        if k in drop:
            h.cover("skipped by name")
            continue
        key = rename.get(k, k)
        if key is None:
            h.cover("skipped by key")
            continue
        h.cover("renamed" if key != k else "kept")
        want.append((key, v if kind == "str" else v.encode("utf-8")))
    kk, r = h.outcome(lambda: list(src.items()))
    h.ensure("a source which is not open is an AssertionError", kk == "raise" and isinstance(r, AssertionError), r)
    ok = {k for k in KEYS + [x for x in rename.values() if x] if h.bool("accepted")}
    with src as s:
        got = list(s.items())
        h.ensure("the regular files of the archive which pass the filters, in order", got == want, (members, got, want))
        got = list(s.items(lambda k: k in ok))
        h.ensure("a key filter keeps exactly the keys it accepts", got == [(k, v) for k, v in want if k in ok], (ok, got))
    with src as s:
        h.ensure("the source can be opened again", list(s.items()) == want, want)
    left_by_exception(h, src)


@contract("C17.interpreted", prove=False, covers=["random access", "linear", "None as value", "keys unknown"], scope="mappings of up to 3 keys (random: 6), interpretation once or twice", **OPTS)
def interpreted(h):
    m = h.mod(KV)
    want = content(h)
    calls = []

    class Source(m.KeyValueSource):
        opened = 0

        def __getitem__(self, k):
            return want[k]

        def get(self, k, _default=None):
            return want.get(k, _default)

        def keys(self):
            return None if hidden else set(want)

        def items(self, key_filter=lambda x: True):
            return ((k, v) for k, v in want.items() if key_filter(k))

        def __enter__(self):
            Source.opened += 1
            return self

        def __exit__(self, *a):
            Source.opened -= 1
            return swallow

    hidden = h.bool("keys unknown")
    swallow = h.bool("swallows exceptions")
    how = h.choice("how", ["random access", "linear"])
    h.cover(how)
    result = h.choice("interpretation", ["pair", "None", "falsy"])

    def f(k, v):
        calls.append((k, v))
        return {"pair": (k, v, len(v)), "None": None, "falsy": ""}[result]

    W = m.KeyValueSource if how == "random access" else m.KeyValueLinearSource
    s = W.interpret_values(Source(), f)
    if h.bool("twice"):
        g = lambda k, v: ("second", k, v)  # noqa: E731
        s = W.interpret_values(s, g)
    else:
        g = lambda k, v: v  # noqa: E731
    exp = {k: g(k, f(k, v)) for k, v in want.items()}
    del calls[:]
    try:
        with s as ss:
            h.ensure("the source beneath is open", Source.opened == 1, Source.opened)
            if how == "random access":
                if hidden:
                    h.cover("keys unknown")
                h.ensure("the keys are those of the source beneath", (ss.keys() is None) if hidden else set(ss.keys()) == set(want), ss.keys())
                for k in KEYS:
                    if k in want:
                        del calls[:]
                        if exp[k] is None:
                            h.cover("None as value")
                        v = ss[k]
                        h.ensure("a value is interpreted with its key", v == exp[k] and calls == [(k, want[k])], (k, v, calls))
                        h.ensure("get gives the same", ss.get(k) == v and ss.get(k, "dflt") == v, k)
                    else:
                        kk, r = h.outcome(lambda: ss[k])
                        h.ensure("an absent key is a KeyError", kk == "raise" and isinstance(r, KeyError), r)
                        h.ensure("an absent key has the default", ss.get(k) is None and ss.get(k, "dflt") == "dflt", k)
            if how == "linear" or not hidden:
                got = sorted(ss.items(), key=lambda kv: kv[0])
                h.ensure("the items are those beneath, interpreted", got == sorted(exp.items(), key=lambda kv: kv[0]), got)
                ok, flt = accepts(h, want)
                got = sorted(ss.items(flt), key=lambda kv: kv[0])
                h.ensure("a key filter keeps exactly the keys it accepts", got == sorted(((k, v) for k, v in exp.items() if k in ok), key=lambda kv: kv[0]), got)
            if h.bool("exception"):
                raise Boom()
            swallow = None
    except Boom:
        h.ensure("an exception is swallowed iff the source beneath swallows it", not swallow)
    else:
        h.ensure("an exception is swallowed iff the source beneath swallows it", swallow is None or swallow)
    h.ensure("the source beneath is closed", Source.opened == 0, Source.opened)


@contract("C17.from_parameters", prove=False, covers=["zip", "file-map", "directory", "expression"], scope="each kind of source and sink, up to 3 keys (random: 6)", runs=1500, rand=800, **OPTS)
def from_parameters(h):
    """what a sink described by parameters writes is what a source described by parameters reads"""
    m = h.mod(KV)
    P = h.mod("vistautils.parameters").Parameters
    d = pathlib.Path(h.tmpdir())
    kind = h.choice("kind", ["char", "byte"])
    text = {k: v for k, v in content(h).items() if k != "_index"}
    want = text if kind == "char" else {k: v.encode("utf-8") for k, v in text.items()}
    # in a directory, files are named by their keys
    via = h.choice("type", ["zip", "file-map", "directory", "expression"])
    h.cover(via)
    if via == "zip":
        sink, source = {"type": "zip", "path": str(d / "x.zip")}, {"type": "zip", "path": str(d / "x.zip")}
    elif via == "expression":
        n = "_ZipCharFileKeyValue" if kind == "char" else "_ZipBytesFileKeyValue"
        sink = {"type": n + "Sink", "path": str(d / "x.zip")}
        source = {"type": "vistautils.key_value." + n + "sSource", "path": str(d / "x.zip"), "import": ["vistautils.key_value"]}
    else:
        (d / "out").mkdir()
        sink, source = {"type": via, "path": str(d / "out")}, {"type": "file-map", "path": str(d / "out" / "_index")}
    ns = h.bool("other namespace")
    ps = P.from_mapping({"to" if ns else "output": sink, "from" if ns else "input": source, "n": 1})
    k, s = h.outcome(lambda: getattr(m, kind + "_key_value_sink_from_params")(ps, **({"output_namespace": "to"} if ns else {})))
    h.ensure("the sink can be made", k == "return", s)
    with s as ss:
        for key, v in want.items():
            k, r = h.outcome(ss.put, key, v)
            h.ensure("the sink accepts each key", k == "return", r)
    if via == "zip":
        h.ensure("a sink of type zip writes a zip file", zipfile.is_zipfile(d / "x.zip"))
    elif via != "expression":
        h.ensure("a directory sink writes a file for each key", all((d / "out" / key).read_bytes() == v.encode("utf-8") for key, v in text.items()))
    for which in ("_key_value_source_from_params", "_key_value_linear_source_from_params"):
        k, s = h.outcome(lambda: getattr(m, kind + which)(ps, **({"input_namespace": "from"} if ns else {})))
        h.ensure("the source can be made", k == "return", s)
        with s as ss:
            if "linear" in which:
                check_items(h, ss, want)
            else:
                check_source(h, ss, want, absent=("absent",))
        left_by_exception(h, s)
    made = []

    def mine(params):
        made.append(params.string("path"))
        return s

    context = {"mine": mine}
    own = P.from_mapping({"output": {"type": "mine", "path": "here"}, "input": {"type": "mine", "path": "here"}})
    which = h.choice("in a context", ["_key_value_source_from_params", "_key_value_linear_source_from_params", "_key_value_sink_from_params"])
    if "sink" in which:
        s = getattr(m, kind + which)(ps, **({"output_namespace": "to"} if ns else {})) if via == "zip" else None
    if s is not None:
        k, r = h.outcome(getattr(m, kind + which), own, eval_context=context)
        h.ensure("a type is looked up in the context given", k == "return" and r is s and made == ["here"], (r, made))
    h.ensure("the context is not changed", context == {"mine": mine}, context)
    k, r = h.outcome(getattr(m, kind + which), own)
    h.ensure("a context serves one call only", k == "raise" and len(made) <= 1, r)


# --------------------------------------------------------------- proofs, for mappings of any size
class Beneath:
    """a source for an arbitrary mapping: what its methods do is the contract of KeyValueSource"""

    def __init__(self, h, m):
        self.h, self.map, self.log, self.token = h, m, [], object()

    def keys(self):
        return self.token

    def get(self, key, _default=None):
        k = self.h.A.any_term(key)
        return self.map.get_at(k) if self.h.C.mkbool(self.map.has(k)) else _default

    def __getitem__(self, key):
        k = self.h.A.any_term(key)
        if not self.h.C.mkbool(self.map.has(k)):
            raise KeyError(key)
        return self.map.get_at(k)

    def items(self, key_filter=None):
        return self.map.items() if key_filter is None else self.h.filtered(self.map.items(), lambda kv: key_filter(kv[0]))

    def __enter__(self):
        self.log.append("entered")
        return self

    def __exit__(self, *a):
        self.log.append(a)
        return self.token


@contract("C17.interpretation", concrete=False, covers=["there", "absent", "items", "context"], **OPTS)
def interpretation(h):
    """a source which interprets another, over any mapping and with any function"""
    m = h.mod(KV)
    A = h.A
    F = h.fn("interpretation", "any", "any", "any")
    f = lambda k, v: A.SymAny(F(A.any_term(k), A.any_term(v)))  # noqa: E731
    want = h.any_map("mapping")
    beneath = Beneath(h, want)
    which = h.choice("which", ["random access", "linear"])
    s = (m.KeyValueSource if which == "random access" else m.KeyValueLinearSource).interpret_values(beneath, f)
    claim = h.choice("claim", ["lookup", "items", "context"] if which == "random access" else ["items", "context"])
    if claim == "lookup":
        key, dflt = h.string("key"), h.any("default")
        h.ensure("the keys are those of the source beneath", s.keys() is beneath.token)
        k, r = h.outcome(lambda: s[key])
        if h.C.mkbool(want.has(key.t)):
            h.cover("there")
            exp = f(key, want.get_at(key.t))
            h.ensure("a value is interpreted with its key", k == "return" and h.same(r, exp), r)
            h.ensure("get gives the same", h.And(h.same(s.get(key), exp), h.same(s.get(key, dflt), exp)))
        else:
            h.cover("absent")
            h.ensure("an absent key is a KeyError", k == "raise" and isinstance(r, KeyError), r)
            h.ensure("an absent key has the default", h.And(s.get(key) is None, h.same(s.get(key, dflt), dflt)))
    elif claim == "items":
        if which == "random access":
            beneath.keys = lambda: want
        ACC = h.fn("accepted", "any", "bool")
        flt = lambda k: h.C.mkbool(ACC(A.any_term(k)))  # noqa: E731
        got = s.items(flt) if h.bool("by position") else s.items(key_filter=flt)
        h.cover("items")

        def kept(i):
            k = want.key_at(i.t)
            return [(h.MM.SymStr(k), f(h.MM.SymStr(k), want.get_at(k)))] if h.C.mkbool(ACC(k)) else []

        h.ensure_filtered("the keys accepted, with their values interpreted", got, want.n, kept)
    else:
        h.cover("context")
        h.ensure("entering gives the source", s.__enter__() is s and beneath.log == ["entered"], beneath.log)
        x = (object(), object(), object())
        h.ensure("leaving leaves the source beneath, with its treatment of exceptions", s.__exit__(*x) is beneath.token and beneath.log == ["entered", x], beneath.log)


@contract("C17.path_sources", concrete=False, covers=["there", "absent", "items"], **OPTS)
def path_sources(h):
    """sources over a mapping from keys to files, of any size; reading a file is answered by its contract"""
    m = h.mod(KV)
    A = h.A
    TEXT, DATA = h.fn("text_of_file", "any", "any"), h.fn("bytes_of_file", "any", "any")

    class File:
        def __init__(self, f):
            self.f = f

        def __call__(self, path, **k):
            h.ensure("files are read in their default encoding", not k, k)
            me, t = self, A.path_term(path)

            class Read:
                def read_all(self):
                    return A.SymAny(TEXT(t))

                def read(self, n=None):
                    h.ensure("bytes are read whole", n is None)
                    return A.SymAny(DATA(t))

            assert me.f in ("char", "byte")
            return Read()

    h.patch(m.CharSource, "from_file", staticmethod(File("char")))
    h.patch(m.ByteSource, "from_file", staticmethod(File("byte")))
    from immutablecollections import immutabledict

    paths = h.any_map("paths", sample=immutabledict())
    how = h.choice("how", ["from mapping", "from map", "binary"])
    given = h.A.SymAny(h.z3.Const("map_file", A.ANY))
    if how == "from mapping":
        s = m.KeyValueSource.from_path_mapping(paths)
    else:
        asked = []

        def read(source):
            asked.append(source)
            return paths

        h.patch(m, "read_doc_id_to_file_map", read)
        f = m.KeyValueSource.from_doc_id_to_file_map if how == "from map" else m.KeyValueSource.binary_from_doc_id_to_file_map
        source = m.CharSource.from_string("...")
        s = f(source)
        h.ensure("the map is read from the source given", asked == [source], asked)
    G = DATA if how == "binary" else TEXT
    key = h.string("key")
    if h.choice("claim", ["lookup", "items"]) == "lookup":
        dflt = h.any("default")
        k, r = h.outcome(lambda: s[key])
        h.ensure("the keys are those of the mapping", h.iff(key in s.keys(), h.C.mkbool(paths.has(key.t))))
        if h.C.mkbool(paths.has(key.t)):
            h.cover("there")
            exp = A.SymAny(G(A.any_term(paths.get_at(key.t))))
            h.ensure("the value is what is in its file", k == "return" and h.same(r, exp), r)
            h.ensure("get gives the same", h.And(h.same(s.get(key), exp), h.same(s.get(key, dflt), exp)))
        else:
            h.cover("absent")
            h.ensure("an absent key is a KeyError", k == "raise" and isinstance(r, KeyError), r)
            h.ensure("an absent key has the default", h.And(s.get(key) is None, h.same(s.get(key, dflt), dflt)))
    else:
        h.cover("items")
        ACC = h.fn("accepted", "any", "bool")

        def kept(i):
            k = paths.key_at(i.t)
            return [(h.MM.SymStr(k), A.SymAny(G(A.any_term(paths.get_at(k)))))] if h.C.mkbool(ACC(k)) else []

        h.ensure_filtered("the keys accepted, with what is in their files", s.items(lambda k: h.C.mkbool(ACC(A.any_term(k)))), paths.n, kept)


@contract("C17.archive", concrete=False, covers=["kept", "no file", "not open", "left out"], **OPTS)
def archive(h):
    """a source over the members of an archive, of any number; tarfile is answered by its documented contract"""
    m = h.mod(KV)
    A, C, z3 = h.A, h.C, h.z3
    NAME, FILE, DATA = h.fn("member_name", "any", "any"), h.fn("member_is_file", "any", "bool"), h.fn("member_data", "any", "any")
    TI = tarfile.TarInfo
    h.model_class(TI, {"name": lambda t: h.MM.SymStr(NAME(t)), "isfile": lambda t: lambda: C.mkbool(FILE(t))})
    members = h.any_list("members")

    def at(i):
        x = members.at(i)
        A._class_facts(x.t, TI)
        C.cur().axiom(A.INST(x.t, A.const(TI)))
        return x

    ms = h.S.SymSeq(members.n, at)
    log = []

    class Data:
        def __init__(self, t):
            self.t = t

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def read(self):
            return A.SymAny(DATA(self.t))

    class Tar(h.A.SymReiterable):
        def __init__(self):
            h.A.SymReiterable.__init__(self, ms)

        def extractfile(self, member):
            h.ensure("only regular files are read", C.mkbool(FILE(member.t)))
            return Data(member.t)

        def getmembers(self):
            return ms

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            log.append("closed")

    class Module:
        TarInfo = TI

        @staticmethod
        def open(name, mode="r"):
            log.append((str(name), mode))
            return Tar()

    h.patch(m, "tarfile", Module)
    KEPT, KEY, NOKEY, ACC = h.fn("name_kept", "any", "bool"), h.fn("key_of", "any", "any"), h.fn("no_key", "any", "bool"), h.fn("accepted", "any", "bool")

    def key_of(name):
        t = A.any_term(name)
        return None if C.mkbool(NOKEY(t)) else h.MM.SymStr(KEY(t))

    kw, nf, kf = {}, h.bool("name filter"), h.bool("key function")
    if nf:
        kw["name_filter"] = lambda name: C.mkbool(KEPT(A.any_term(name)))
    if kf:
        kw["key_function"] = key_of
    path = pathlib.Path("x.tgz")
    s = m.KeyValueLinearSource.byte_linear_source_from_tar_gz(path, **kw)
    flt = h.bool("key filter")
    items = lambda: s.items(lambda k: C.mkbool(ACC(A.any_term(k)))) if flt else s.items()  # noqa: E731
    k, r = h.outcome(items)
    h.cover("not open")
    h.ensure("a source which is not open is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
    h.ensure("entering gives the source", s.__enter__() is s)
    h.ensure("the archive is opened for reading, compressed or not", len(log) == 1 and log[0][0] == str(path) and log[0][1] in ("r", "r:*", "r:gz"), log)

    def kept(i):
        t = ms.at(i.t).t
        if not C.mkbool(FILE(t)):
            h.cover("no file")
            return []
        if nf and not C.mkbool(KEPT(NAME(t))):
            h.cover("left out")
            return []
        key = key_of(A.SymAny(NAME(t))) if kf else h.MM.SymStr(NAME(t))
        if key is None or key == "":
            return []
        if flt and not C.mkbool(ACC(key.t)):
            return []
        h.cover("kept")
        return [(key, A.SymAny(DATA(t)))]

    h.ensure_filtered("the regular files which pass the filters, in order, under their keys", items(), ms.n, kept)
    h.ensure("leaving closes the archive and passes exceptions on", not s.__exit__(None, None, None) and log[-1] == "closed", log)


class Put:
    """the keys a directory sink was given so far, any number of them, with their files"""

    def __init__(self, h):
        self.h, self.map = h, h.any_map("files so far")

    def __setitem__(self, key, value):
        self.map = self.map.put(key, value)

    def __contains__(self, key):
        return key in self.map

    def __getitem__(self, key):
        return self.map[key]

    def get(self, key, default=None):
        return self.map.get(key, default)

    def __getattr__(self, name):
        raise self.h.C.Unsupported("%r of the files of a directory sink" % name)


@contract("C17.directory", concrete=False, covers=["entered", "put", "again", "index"], **OPTS)
def directory(h):
    """a sink to a directory, after any number of keys; writing a file or the index is answered by its contract"""
    m = h.mod(KV)
    A, C = h.A, h.C
    written, index, made = [], [], []

    class Place:
        def __init__(self, key=None):
            self.key = key

        def __truediv__(self, key):
            if self.key is not None:
                raise C.Unsupported("a path below a file")
            return Place(key)

        def joinpath(self, *parts):
            if len(parts) != 1:
                raise C.Unsupported("a path of several parts")
            return self / parts[0]

        def rmdir(self):
            made.append("removed")

        def mkdir(self, parents=False, exist_ok=False):
            made.append("made")

        def __getattr__(self, name):
            raise C.Unsupported("%r of a path" % name)

    class To:
        def __init__(self, kind, place):
            self.kind, self.place = kind, place

        def write(self, value):
            written.append((self.kind, self.place, value))

        def __getattr__(self, name):
            raise C.Unsupported("%r of a sink to a file" % name)

    def to(kind):
        def to_file(place, **k):
            h.ensure("files are written in their default encoding", not k, k)
            if not isinstance(place, Place):
                raise C.Unsupported("a path %r" % (place,))
            return To(kind, place)

        return staticmethod(to_file)

    h.patch(m.CharSink, "to_file", to("char"))
    h.patch(m.ByteSink, "to_file", to("byte"))
    h.patch(m, "write_doc_id_to_file_map", lambda files, sink: index.append((files, sink)))
    kind = h.choice("kind", ["char", "byte"])
    sink = (m._DirectoryCharKeyValueSink if kind == "char" else m._DirectoryBytesKeyValueSink)(Place())
    if h.bool("used before"):
        sink.id_to_file = Put(h)
    entered = sink.__enter__()
    h.cover("entered")
    h.ensure("entering gives the sink, over an empty directory", entered is sink and made == ["removed", "made"], made)
    h.ensure("with no keys, even when it was used before", not isinstance(sink.id_to_file, Put) and len(sink.id_to_file) == 0)
    before = Put(h)
    old = before.map
    sink.id_to_file = before
    key, value = h.string("key"), h.any("value")
    if h.choice("claim", ["put", "index"]) == "put":
        h.cover("put")
        r = sink.put(key, value) if h.choice("how", ["put", "[]"]) == "put" else sink.__setitem__(key, value)
        h.ensure("nothing is returned", r is None)
        h.ensure("one file is written", len(written) == 1, len(written))
        k, place, v = written[0]
        h.ensure("it is named by the key", place.key is not None and h.same(place.key, key))
        h.ensure("it holds the value", h.And(k == kind, h.same(v, value)))
        now = sink.id_to_file
        if now is not before:
            raise C.Unsupported("another map of files")
        h.ensure("the key is remembered", h.C.mkbool(now.map.has(key.t)))
        mine = now.map.get_at(key.t)
        h.ensure("with its file", isinstance(mine, Place) and mine.key is not None and h.same(mine.key, key), mine)
        other = h.string("other")
        if not (other == key):
            h.ensure("the other keys stay as they were", h.iff(h.C.mkbool(now.map.has(other.t)), h.C.mkbool(old.has(other.t))))
            if h.C.mkbool(old.has(other.t)):
                h.cover("again")
                h.ensure("with the same files", h.same(now.map.get_at(other.t), old.get_at(other.t)))
    else:
        h.cover("index")
        k, r = h.outcome(lambda: sink.__exit__(None, None, None))
        h.ensure("leaving passes exceptions on", k == "return" and not r, r)
        h.ensure("the index is written once, of the keys put", len(index) == 1 and index[0][0] is before and not written)
        t = index[0][1]
        h.ensure("to the file named _index", isinstance(t, To) and t.kind == "char" and t.place.key == "_index", t)
