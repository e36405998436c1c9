"""C16: what is put into a zip-backed key-value sink is what a source on the same file gives."""
import pathlib
import warnings
import zipfile

from pyvc.harness import contract

KV = "vistautils.key_value"
OPTS = dict(modules=["vistautils.range", "vistautils._graph", "vistautils.parameters", "vistautils.io_utils", KV])
KEYS = ["a", "b", "a/b", "\u00e9\u4e2d", " ", "A", "a.txt", "__key"]
MORE_KEYS = ["/a", "a/", "a//b", "./a", "\u2028", "\x1f", "b ", " b", "../a", "__keys/a", "k" * 300]
CHARS = ["", "x", "\u00e9\n\u4e2d\r\n", "y" * 70000, "\ufeffz", "\x00"]
BYTES = [b"", b"x", bytes(range(256)), b"\r\n" * 40000, b"\xff"]


def put_op(h, kind, names=KEYS):
    what = h.choice("op", ["put", "put", "again", "None value", "None key", "number", "unencodable", "raise"])
    return what, h.choice("key", names), h.choice("value", CHARS if kind == "character" else BYTES)


class Stop(Exception):
    pass


def compare(h, m, src, model, kind, names=KEYS):
    with src as s:
        keys = s.keys()
        h.ensure("the keys of the source are the keys put", keys is not None and set(keys) == set(model) and len(keys) == len(model), (keys, model.keys()))
        for k in names + ["absent", "a/"]:
            if k in model:
                h.ensure("each key has the value put", s[k] == model[k] and s.get(k) == model[k] and s.get(k, model[k] * 2) == model[k], k)
                h.ensure("the value has the type put", type(s[k]) is type(model[k]), k)
            else:
                h.ensure("an absent key has no value", s.get(k) is None and s.get(k, "dflt") == "dflt", k)
                kk, r = h.outcome(lambda: s[k])
                h.ensure("looking up an absent key is a KeyError", kk == "raise" and isinstance(r, KeyError), (k, r))
        h.ensure("the items are exactly the keys with their values", sorted(s.items()) == sorted(model.items()))
        h.ensure("a key filter keeps exactly the keys it accepts", sorted(s.items(lambda k: len(k) == 1)) == sorted((k, v) for k, v in model.items() if len(k) == 1))
        kk, r = h.outcome(s.get, None)
        h.ensure("None is no key", kk == "raise" and isinstance(r, ValueError), r)


def history(h, phases, ops):
    m = h.mod(KV)
    kind = h.choice("kind", ["character", "bytes"])
    names = MORE_KEYS + KEYS[:2] if h.bool("odd keys") else KEYS
    fn = h.choice("filename function", [None, "suffixed", "nested", "escaped"])
    f = {None: None, "suffixed": lambda k: k + ".txt_", "nested": lambda k: "d/" + k, "escaped": lambda k: "k" + k.encode("utf-8").hex()}[fn]
    path = pathlib.Path(h.tmpdir()) / "store.zip"
    extra = {} if f is None else {"filename_function": f}
    src = getattr(m.KeyValueSource, "zip_%s_source" % kind)(path, **extra)
    k, r = h.outcome(src.keys)
    h.ensure("a source which is not open is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
    k, r = h.outcome(src.get, "a")
    h.ensure("a source which is not open is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
    model = {}
    sink = None
    for phase in range(phases):
        again = phase > 0 and h.bool("same sink")
        if not again:
            over = h.bool("overwrite")
            kw = dict(extra)
            if not over or h.bool("explicitly"):
                kw["overwrite"] = over
            sink = getattr(m.KeyValueSink, "zip_%s_sink" % kind)(path, **kw)
            k, r = h.outcome(sink.put, "a", CHARS[1])
            h.ensure("a sink which is not open is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
        else:
            h.cover("sink entered again")
        if over:
            h.cover("overwritten" if model else "new")
            model = {}
        else:
            h.cover("appended" if model else "new")
        last = what_raised = None
        try:
            with sink as s:
                for _ in range(h.size("puts", 0, 2, ops)):
                    what, key, val = put_op(h, kind, names)
                    if what == "again" and last is not None:
                        key = last
                    if what in ("put", "again"):
                        if h.bool("by index"):
                            k, r = h.outcome(s.__setitem__, key, val)
                        else:
                            k, r = h.outcome(s.put, key, val)
                        if key in model:
                            h.cover("repeated key")
                            h.ensure("a key put twice is a ValueError", k == "raise" and isinstance(r, ValueError), (key, r))
                        else:
                            h.ensure("a new key is accepted", k == "return", (key, r))
                            model[key] = val
                            last = key
                    elif what == "raise":
                        h.cover("block left by an exception")
                        what_raised = what
                        raise Stop()
                    else:
                        if what == "unencodable" and kind == "bytes":
                            continue
                        bad = {"None value": None, "number": 7, "unencodable": "\ud800", "None key": val}[what]
                        k, r = h.outcome(s.put, None if what == "None key" else key, bad)
                        h.cover("failed put")
                        h.ensure("a put without legal key and value fails", k == "raise" and isinstance(r, ValueError), (what, key, r))
            h.ensure("an exception in the block of a sink is passed on", what_raised is None)
        except Stop:
            pass
        h.ensure("a sink which has been left holds no file open", not h.held_files(), h.held_files())
        k, r = h.outcome(sink.put, "left", CHARS[1] if kind == "character" else BYTES[1])
        h.ensure("a sink which is closed again is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
        compare(h, m, src, model, kind, names)
    def use():
        with src:
            raise Stop()

    k, r = h.outcome(use)
    h.ensure("an exception in the block of a source is passed on", k == "raise" and isinstance(r, Stop), r)
    k, r = h.outcome(src.get, "a")
    h.ensure("a source closed again is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
    return path, model, kind


COVERS = ["new", "overwritten", "appended", "repeated key", "block left by an exception", "failed put", "sink entered again"]


@contract("C16.history", prove=False, covers=COVERS, scope="histories of up to 3 phases (random: 4) of up to 2 puts (random: 7)", runs=2500, rand=2500, cost=5, **OPTS)
def histories(h):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        history(h, h.size("phases", 1, 3, 4), 7)


@contract("C16.keys", prove=False, covers=["custom", "without keys file", "refused"], scope="stores with their own way of recording keys", runs=1500, rand=800, **OPTS)
def keys(h):
    """a store which records its keys in its own way, and a zip file nobody recorded keys for"""
    m = h.mod(KV)
    path = pathlib.Path(h.tmpdir()) / "store.zip"
    kind = h.choice("kind", ["character", "bytes"])
    vals = CHARS[1:3] if kind == "character" else BYTES[1:3]
    how = h.choice("how", ["custom", "without keys file", "out without in"])
    if how == "without keys file":
        h.cover("without keys file")
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("a", vals[0])
        with getattr(m.KeyValueSource, "zip_%s_source" % kind)(path) as s:
            h.ensure("without recorded keys the keys are not known", s.keys() is None)
            h.ensure("values can be looked up all the same", s["a"] == vals[0])
            k, r = h.outcome(s.items)
            h.ensure("items need keys", k == "raise" and isinstance(r, NotImplementedError), r)
        return

    def read(z):
        try:
            return {line[1:] for line in z.read("K").decode().split("\n") if line}
        except KeyError:
            return None

    def write(z, ks):
        z.writestr("K", "".join("=" + k + "\n" for k in ks))

    if how == "out without in":
        h.cover("refused")
        k, r = h.outcome(lambda: getattr(m.KeyValueSink, "zip_%s_sink" % kind)(path, keys_in_function=read, keys_out_function=None))
        h.ensure("keys which are read must be written", k == "raise" and isinstance(r, ValueError), r)
        return
    h.cover("custom")
    model = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for phase in range(h.size("phases", 1, 2, 3)):
            over = h.bool("overwrite")
            if over:
                model = {}
            with getattr(m.KeyValueSink, "zip_%s_sink" % kind)(path, overwrite=over, keys_in_function=read, keys_out_function=write) as s:
                for _ in range(h.size("puts", 0, 2, 4)):
                    key = h.choice("key", KEYS[:4])
                    k, r = h.outcome(s.put, key, vals[phase % 2])
                    h.ensure("accepted iff new", (k == "return") == (key not in model), r)
                    model.setdefault(key, vals[phase % 2])
            with getattr(m.KeyValueSource, "zip_%s_source" % kind)(path, keys_function=read) as s:
                h.ensure("the keys are read the way they were written", (set(s.keys()) if s.keys() is not None else set()) == set(model), s.keys())
                h.ensure("each key has its value", all(s[k] == v for k, v in model.items()))


# ---------------------------------------------------------------------------- proved, for stores of any size
class Entry:
    """a member opened"""

    def __init__(self, z, name, mode):
        self.z, self.name = z, name
        if mode != "r":
            raise z.h.C.Unsupported("member opened for writing")
        self.content = z.read(name)

    def read(self, n=-1):
        if n not in (None, -1):
            raise self.z.h.C.Unsupported("member read by pieces")
        return self.content

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class Store:
    """a zip file, by the documented contract of zipfile.ZipFile: named members; those the code names itself
    (the list of keys), those written in the session, and what was there before"""

    def __init__(self, h, before, data):
        self.h, self.before, self.data = h, before, data
        self.there, self.named, self.written, self.log, self.fails = False, {}, [], [], False
        store = self

        class Zip:
            def __init__(self, file, mode="r"):
                h.ensure("the file opened is the store's", str(file) == PATH, file)
                h.ensure("it is opened for reading, appending or from scratch", mode in ("r", "a", "w"), mode)
                if mode == "r" and not (store.there or store.named or store.written):
                    h.C.cur()
                if mode == "w":
                    store.there, store.named, store.written = False, {}, []
                self.mode, self.opened, self.h = mode, True, h
                store.log.append(mode)

            def writestr(self, name, data):
                h.ensure("a file is written while it is open for writing", self.opened and self.mode != "r", self.mode)
                if isinstance(name, str):
                    store.named[name] = data
                    return
                if store.fails:
                    raise UnicodeEncodeError("utf-8", "x", 0, 1, "surrogates not allowed")
                store.written.append((h.A.any_term(name), data.t))

            def read(self, name):
                h.ensure("a file is read while it is open", self.opened)
                if isinstance(name, str):
                    if name not in store.named:
                        raise KeyError(name)
                    return store.named[name]
                t = h.A.any_term(name)
                for n, d in reversed(store.written):
                    if h.C.mkbool(n == t):
                        return store.bytes(store.encoded(d))
                if store.there and h.C.mkbool(store.before(t)):
                    return store.bytes(store.data(t))
                raise KeyError(name)

            def open(self, name, mode="r"):
                return Entry(self, name, mode)

            def __getattr__(self, name):
                raise h.C.Unsupported("ZipFile.%s" % name)

            def close(self):
                self.opened = False
                store.log.append("closed")

        self.Zip = Zip

    def bytes(self, t):
        h = self.h
        h.A._class_facts(t, bytes)
        h.C.cur().axiom(h.A.INST(t, h.A.const(bytes)))
        return h.A.SymAny(t)

    def encoded(self, d):
        h = self.h
        if h.kind == "bytes":
            return d
        e = h.fn("utf8", "any", "any")(d)
        h.C.cur().axiom(h.fn("from_utf8", "any", "any")(e) == d)
        return e


PATH = "/nowhere/store.zip"


def legal(h, k):
    """keys which the key list can hold: not empty, without line breaks"""
    return [k != h.A.const(""), h.z3.Not(h.MM.STR_IN(k, h.A.const("\n")))]


def set_of_keys(h, sink, keys):
    """put an arbitrary set of keys in place of the one the sink keeps; nothing else may depend on it"""
    own = [v for v in vars(sink).values() if isinstance(v, (set, dict, list))]
    if len(own) != 1 or not isinstance(own[0], set):
        raise h.C.Unsupported("the sink keeps its keys in another way")
    s = own[0]
    s.segs = None
    set.clear(s)
    s.update(keys)


@contract("C16.session", concrete=False, covers=["repeated", "new", "overwritten", "appended", "there", "absent", "refused", "first"], **OPTS)
def session(h):
    """one step of any history: a session with an arbitrary store before it, an arbitrary set of keys put so
    far, one more put, the end of the session, and a look into the result"""
    m = h.mod(KV)
    z3, A, C = h.z3, h.A, h.C
    h.kind = kind = h.choice("kind", ["character", "bytes"])
    FN, INV = h.fn("filename", "any", "any"), h.fn("key_of_filename", "any", "any")
    named, by_method, normally = h.choice("variant", [(False, True, True), (True, False, False), (True, True, False)])

    def filename(key):
        k = A.any_term(key)
        f = FN(k) if named else k
        if named:
            C.cur().axiom(INV(f) == k)
        C.cur().axiom(A.INST(f, A.const(str)))
        C.cur().axiom(f != A.const("__keys"))
        return h.MM.SymStr(f)

    K = h.fn("known", "any", "bool")
    before = h.fn("is_there", "any", "bool")
    data = h.fn("data", "any", "any")
    store = Store(h, before, data)

    def decode(t):
        def f(encoding="utf-8", errors="strict"):
            h.ensure("text is encoded as UTF-8", encoding.lower().replace("_", "-") in ("utf-8", "utf8") and errors == "strict", encoding)
            return A.SymAny(h.fn("from_utf8", "any", "any")(t))

        return f

    h.model_class(bytes, {"decode": decode})
    h.patch(m, "ZipFile", store.Zip)
    h.patch(m, "immutableset", lambda xs=(): h.G.str_set(h.S.consume(xs)) if h.S.symiter(xs) else h.G.str_set(h.S.SymSeq(z3.IntVal(0), lambda i: h.MM.SymStr(A.const("")))) if xs == () else __import__("immutablecollections").immutableset(xs))
    path = pathlib.Path(PATH)
    kw = {"filename_function": filename} if named else {}
    known = h.G.StrSet(lambda k: K(k), lambda k: None, "known", lambda k: legal(h, k), frozenset())
    mid = h.bool("mid-session")
    start = h.choice("before", ["nothing"] if mid else ["nothing", "a store"])
    over = named if mid else h.bool("overwrite")
    make = getattr(m.KeyValueSink, "zip_%s_sink" % kind)
    sink = None
    if start == "a store":
        # any store: what a session leaves which has put an arbitrary set of keys
        first = make(path, **kw)
        first.__enter__()
        set_of_keys(h, first, known)
        first.__exit__(None, None, None)
        store.there = True
        if h.bool("same sink"):
            sink, over = first, True
    else:
        h.cover("first")
    if sink is None:
        sink = make(path, overwrite=over, **kw)
    start_known = (lambda k: K(k)) if start == "a store" and not over else (lambda k: z3.BoolVal(False))
    key, q = h.string("key"), h.string("probe")
    for k in (key, q):
        for f in legal(h, k.t):
            C.cur().axiom(f)
    val = h.any("value")
    h.assume(h.is_a(val, str if kind == "character" else bytes))
    del store.log[:]
    put = (lambda k, v: sink.put(k, v)) if by_method else (lambda k, v: sink.__setitem__(k, v))
    k, r = h.outcome(put, key, val)
    h.ensure("a sink which is not open is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
    h.ensure("entering gives the sink", sink.__enter__() is sink)
    h.ensure("the file is opened for the session", store.log == ["w" if over else "a"], store.log)
    h.cover("overwritten" if over else "appended")
    if mid:
        # after any number of puts
        set_of_keys(h, sink, known)
        store.there = True
        start_known = lambda k: K(k)  # noqa: E731

    # what is there are the files of the keys known
    def file_there(k):
        f = filename(h.MM.SymStr(k)).t
        C.cur().axiom(before(f) == K(k))
        return f

    file_there(key.t), file_there(q.t)
    h.speak_of(key)
    n = len(store.written)
    how = h.choice("put", ["legal", "no key", "no value", "not text", "fails"] if mid else ["legal"])
    accepted = False
    if how == "legal":
        again = C.mkbool(start_known(key.t))
        k, r = h.outcome(put, key, val)
        if again:
            h.cover("repeated")
            h.ensure("a key put twice is a ValueError", k == "raise" and isinstance(r, ValueError), r)
        else:
            h.cover("new")
            h.ensure("a new key is accepted", k == "return", r)
            accepted = True
    else:
        h.cover("refused")
        bad = {"no key": None, "no value": None}
        if how == "not text":
            other = h.any("other")
            h.assume(h.And(h.Not(h.is_a(other, str)), h.Not(h.is_a(other, bytes))))
        if how == "fails":
            store.fails = True
        k, r = h.outcome(put, None if how == "no key" else key, None if how == "no value" else other if how == "not text" else val)
        h.ensure("a put without legal key and value is a ValueError", k == "raise" and isinstance(r, ValueError), r)
    if not accepted:
        h.ensure("a refused put leaves no trace", len(store.written) == n, store.written)
    if not mid:
        return
    x = (None, None, None) if normally else (Stop, Stop(), None)
    h.ensure("an exception in the block is passed on", not sink.__exit__(*x))
    h.ensure("the file is closed", store.log[-1] == "closed" and store.log.count("closed") == 1, store.log)
    k, r = h.outcome(put, key, val)
    h.ensure("a sink which is closed again is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)

    # the result
    src = getattr(m.KeyValueSource, "zip_%s_source" % kind)(path, **kw)
    for f in (src.keys, lambda: src[q], lambda: src.get(q)):
        k, r = h.outcome(f)
        h.ensure("a source which is not open is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)
    h.ensure("entering gives the source", src.__enter__() is src and store.log[-1] == "r", store.log)
    h.speak_of(q)
    expected = start_known(q.t)
    if accepted:
        expected = z3.Or(expected, q.t == key.t)
    claim = h.choice("claim", ["keys", "value", "context"] if how == "legal" else ["keys", "value"] if how == "fails" else ["keys"])
    if claim == "keys":
        keys = src.keys()
        h.ensure("the keys of the source are the keys put", keys is not None and h.iff(q in keys, C.mkbool(expected)), keys)
    elif claim == "value":
        dflt = h.any("default")
        k, r = h.outcome(lambda: src[q])
        if C.mkbool(expected):
            h.cover("there")
            if accepted and C.mkbool(q.t == key.t):
                exp = val.t
            else:
                e = data(file_there(q.t))
                exp = e if kind == "bytes" else h.fn("from_utf8", "any", "any")(e)
            h.ensure("each key has the value put", k == "return" and h.same(r, A.SymAny(exp)), r)
            h.ensure("get gives the same", h.And(h.same(src.get(q), A.SymAny(exp)), h.same(src.get(q, dflt), A.SymAny(exp))))
        else:
            h.cover("absent")
            h.ensure("looking up an absent key is a KeyError", k == "raise" and isinstance(r, KeyError), r)
            h.ensure("an absent key has the default", h.And(src.get(q) is None, h.same(src.get(q, dflt), dflt)))
        k, r = h.outcome(src.get, None)
        h.ensure("None is no key", k == "raise" and isinstance(r, ValueError), r)
    else:
        h.ensure("an exception in the block is passed on", not src.__exit__(*x))
        h.ensure("the file is closed", store.log[-1] == "closed", store.log)
        k, r = h.outcome(src.get, q)
        h.ensure("a source closed again is an AssertionError", k == "raise" and isinstance(r, AssertionError), r)


@contract("C16.items", concrete=False, covers=["items", "custom"], **OPTS)
def items(h):
    """the items of a store of any size, with its own way of recording keys"""
    m = h.mod(KV)
    A, C = h.A, h.C
    h.kind = kind = h.choice("kind", ["character", "bytes"])
    data, K = h.fn("data", "any", "any"), h.fn("known", "any", "bool")
    known = h.G.StrSet(lambda k: K(k), lambda k: None, "known", None, frozenset())
    store = Store(h, lambda t: h.z3.BoolVal(True), data)
    store.there = True
    FROM = h.fn("from_utf8", "any", "any")
    h.model_class(bytes, {"decode": lambda t: lambda *a: A.SymAny(FROM(t))})
    h.patch(m, "ZipFile", store.Zip)
    asked = []

    def keys_of(z):
        asked.append(z)
        return known

    def note(z, ks):
        h.ensure("keys are written while the file is open", z.opened)
        noted.append((z, ks))

    path, noted = pathlib.Path(PATH), []
    src = getattr(m.KeyValueSource, "zip_%s_source" % kind)(path, keys_function=keys_of)
    if h.choice("claim", ["items", "keys"]) == "items":
        h.cover("items")
        src.__enter__()
        h.ensure("the keys are those its function gives", src.keys() is known and len(asked) == 1, asked)
        ACC = h.fn("accepted", "any", "bool")
        flt = h.bool("key filter")

        def kept(i):
            k = known.key_at(i.t)
            v = data(k)
            return [(h.MM.SymStr(k), A.SymAny(v if kind == "bytes" else FROM(v)))] if not flt or C.mkbool(ACC(k)) else []

        got = src.items(lambda k: C.mkbool(ACC(A.any_term(k)))) if flt else src.items()
        h.ensure_filtered("the items are exactly the keys accepted, with their values", got, known.n, kept)
    else:
        h.cover("custom")
        sink = getattr(m.KeyValueSink, "zip_%s_sink" % kind)(path, overwrite=False, keys_in_function=keys_of, keys_out_function=note)
        with sink:
            z = asked[-1]
        q = h.string("probe")
        h.ensure("the keys are read from the file opened and written to it while it is open", len(noted) == 1 and noted[0][0] is z and not z.opened, noted)
        h.speak_of(q)
        h.ensure("the keys written are the keys read", h.iff(q in noted[0][1], C.mkbool(K(q.t))))
        k, r = h.outcome(lambda: getattr(m.KeyValueSink, "zip_%s_sink" % kind)(path, keys_in_function=keys_of, keys_out_function=None))
        h.ensure("keys which are read must be written", k == "raise" and isinstance(r, ValueError), r)
