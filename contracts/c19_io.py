"""C19: sources give back what was written, sinks write exactly what they are given."""
import gzip
import io
import os
import pathlib
import tarfile
import warnings
import zipfile

from pyvc.harness import contract

IO = "vistautils.io_utils"
OPTS = dict(modules=[IO], runs=2500, rand=2000)
ALPHABET = "a\n \u00e9\u4e2d\U0001f600\t\x00\ufeff\u2028\x0c"


def lines_of(text):
    """the lines of a text, without their ends"""
    ls = text.split("\n")
    return ls[:-1] if ls[-1] == "" else ls


def check_char_source(h, s, text, u, releases=True):
    h.ensure("a source gives its whole text", s.read_all() == text, (s, text))
    h.ensure("a source can be read again", s.read_all() == text, (s, text))
    h.ensure("a source gives the lines of its text", s.readlines() == lines_of(text), (s, text))
    h.ensure("a source is empty iff its text is", s.is_empty() is (text == ""), (s, text))
    with s.open() as f:
        n = h.size("read first", 0, 2, 4)
        first = f.read(n)
        h.ensure("an open source can be read bit by bit", first == text[:n] and f.read() == text[n:], (s, text))
    h.ensure("closing a source releases its file", not releases or not h.held_files(), h.held_files())
    with s.open() as f:
        h.ensure("an open source gives its lines", [x for x in f] == [x + "\n" for x in lines_of(text)][: text.count("\n")] + ([text.split("\n")[-1]] if text.split("\n")[-1] else []), text)


@contract("C19.char_sources", prove=False, covers=["string", "nowhere", "file", "gzip", "tgz", "zip", "open zip", "bytes"], scope="texts of up to 3 characters (random: 40)", **OPTS)
def char_sources(h):
    u = h.mod(IO)
    S = u.CharSource
    text = h.text("text", ALPHABET, 3, 40)
    d = pathlib.Path(h.tmpdir())
    how = h.choice("how", ["string", "nowhere", "file", "gzip", "tgz", "zip", "open zip", "bytes"])
    enc = h.choice("encoding", ["utf-8", "utf-16", "utf-32-le"]) if how in ("gzip", "bytes") else "utf-8"
    if how == "tgz" and all(ord(c) < 256 for c in text):
        # tarfile decodes the names of the members with the same encoding
        enc = h.choice("encoding in archive", ["utf-8", "latin-1"])
    kw = {} if enc == "utf-8" else {"encoding": enc}
    data = text.encode(enc)
    h.cover(how)
    p = d / "f"
    if how == "string":
        check_char_source(h, S.from_string(text), text, u)
    elif how == "nowhere":
        check_char_source(h, S.from_nowhere(), "", u)
    elif how == "file":
        p.write_bytes(data)
        check_char_source(h, S.from_file(str(p) if h.bool("as string") else p), text, u)
    elif how == "gzip":
        form = h.choice("form", ["file", "compressed", "two parts"])
        if form == "file":
            with gzip.open(p, "wb") as f:
                f.write(data)
        elif form == "compressed":
            p.write_bytes(gzip.compress(data))
        else:
            cut = h.choice("cut", [len(data) // 2, 0, len(data)])
            p.write_bytes(gzip.compress(data[:cut]) + gzip.compress(data[cut:]))
        h.assume(enc != "utf-16" or text != "")  # a byte order mark alone
        check_char_source(h, S.from_gzipped_file(p, **kw), text, u)
    elif how == "tgz":
        with tarfile.open(p, "w:gz") as t:
            ti = tarfile.TarInfo("d")
            ti.type = tarfile.DIRTYPE
            t.addfile(ti)
            for n, b in (("other", b"other"), ("d/x", data), ("z", b"")):
                ti = tarfile.TarInfo(n)
                ti.size = len(b)
                t.addfile(ti, io.BytesIO(b))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check_char_source(h, S.from_file_in_tgz(p, "d/x", **kw), text, u)
            k, r = h.outcome(S.from_file_in_tgz(p, h.choice("no file", ["d", "absent"])).open)
            h.ensure("a member which is no file, or absent, gives no text", k == "raise" and isinstance(r, (KeyError, OSError)), r)
    elif how in ("zip", "open zip"):
        with zipfile.ZipFile(p, "w") as z:
            z.writestr("other", "other")
            z.writestr("d/x", data)
        if how == "zip":
            check_char_source(h, S.from_file_in_zip(p, "d/x"), text, u)
        else:
            with zipfile.ZipFile(p, "r") as z:
                check_char_source(h, S.from_file_in_zip(z, "d/x"), text, u, releases=False)
                h.ensure("the zip file stays open", z.read("other") == b"other")
    else:
        h.assume(enc != "utf-16" or text != "")
        p.write_bytes(data)
        check_char_source(h, S.from_byte_source(u.ByteSource.from_file(p), **kw), text, u)


@contract("C19.no_text", prove=False, covers=["refused"], scope="five kinds of source, bytes which are no UTF-8 after a text of up to 3 characters (random: 20)", **OPTS)
def no_text(h):
    """what is not text in the encoding is not passed off as text"""
    u = h.mod(IO)
    S = u.CharSource
    data = h.text("text", ALPHABET, 3, 20).encode("utf-8") + h.choice("no text", [b"\xff", b"\xc3", b"\x80ab", b"\xed\xa0\x80"])
    d = pathlib.Path(h.tmpdir())
    p = d / "f"
    how = h.choice("how", ["file", "gzip", "tgz", "zip", "bytes"])
    if how in ("file", "bytes"):
        p.write_bytes(data)
        src = S.from_file(p) if how == "file" else S.from_byte_source(u.ByteSource.from_file(p))
    elif how == "gzip":
        p.write_bytes(gzip.compress(data))
        src = S.from_gzipped_file(p)
    elif how == "zip":
        with zipfile.ZipFile(p, "w") as z:
            z.writestr("x", data)
        src = S.from_file_in_zip(p, "x")
    else:
        with tarfile.open(p, "w:gz") as t:
            ti = tarfile.TarInfo("x")
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))
        src = S.from_file_in_tgz(p, "x")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k, r = h.outcome(src.read_all)
    h.cover("refused")
    h.ensure("bytes which are no text are an error, not some text", k == "raise" and isinstance(r, ValueError), (data, r))


def interrupted(sink, data):
    with sink.open() as f:
        f.write(data)
        raise KeyError("stop")


@contract("C19.char_sinks", prove=False, covers=["file", "string", "nowhere", "overwritten"], scope="texts of up to 3 characters (random: 40), up to 3 writes", **OPTS)
def char_sinks(h):
    u = h.mod(IO)
    d = pathlib.Path(h.tmpdir())
    how = h.choice("how", ["file", "string", "nowhere"])
    h.cover(how)
    p = d / h.choice("place", ["f", "new/dir/f"])
    if how == "file" and h.bool("exists"):
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text("what was there before, and is longer", encoding="utf-8")
    s = {
        "file": lambda: u.CharSink.to_file(str(p) if h.bool("as string") else p),
        "string": u.CharSink.to_string,
        "nowhere": u.CharSink.to_nowhere,
    }[how]()
    last = None
    for i in range(h.size("writes", 0, 2, 3)):
        text = h.text("text", ALPHABET, 3, 40)
        if i:
            h.cover("overwritten")
        if h.bool("bit by bit"):
            n = h.size("written first", 0, len(text))
            if h.bool("left by an exception"):
                k, r = h.outcome(interrupted, s, text[:n])
                h.ensure("the exception is passed on", k == "raise" and type(r) is KeyError, r)
                text = text[:n]
            else:
                with s.open() as f:
                    f.write(text[:n])
                    f.writelines([text[n:]])
        else:
            s.write(text)
        last = text
        if how == "file":
            h.ensure("a file holds exactly the text written last, as UTF-8", p.read_bytes() == text.encode("utf-8"), (p.read_bytes(), text))
            h.ensure("a source on it gives the text", u.CharSource.from_file(p).read_all() == text, text)
        elif how == "string":
            h.ensure("a string sink holds exactly the text written last", s.last_string_written == text, (s.last_string_written, text))
    if how == "string":
        h.ensure("a string sink not written to holds None", s.last_string_written == last)
    if how == "nowhere":
        with s.open() as f:
            h.ensure("a sink to nowhere can be written, and not read", f.writable() and not f.isatty() and all(h.outcome(x)[0] == "raise" for x in (f.read, f.readline, f.readlines, lambda: list(f))))
        h.ensure("a sink to nowhere leaves no trace", os.listdir(d) == [], os.listdir(d))


BYTES = [b"", b"a", b"\r\n", bytes(range(256)), b"\xff\xfe", b"z" * 70000]


@contract("C19.bytes", prove=False, covers=["file", "buffer", "zip"], scope="byte strings of a pool, up to 3 writes", **OPTS)
def byte_io(h):
    u = h.mod(IO)
    d = pathlib.Path(h.tmpdir())
    how = h.choice("how", ["file", "buffer", "zip"])
    h.cover(how)
    p = d / ("new/dir/f" if how == "file" and h.bool("new directory") else "f")
    other = {}
    if how == "zip" and h.bool("zip exists"):
        with zipfile.ZipFile(p, "w") as z:
            z.writestr("other", "other")
        other = {"other": b"other"}
    s = {"file": lambda: u.ByteSink.to_file(p), "buffer": u.ByteSink.to_buffer, "zip": lambda: u.ByteSink.file_in_zip(p, "d/x")}[how]()
    if how == "buffer":
        h.ensure("a buffer not written to holds None", s.last_bytes_written is None)
    for i in range(h.size("writes", 1, 2, 3) if how != "zip" else 1):
        data = h.choice("data", BYTES)
        if h.bool("bit by bit"):
            n = h.size("written first", 0, min(2, len(data)))
            if h.bool("left by an exception"):
                k, r = h.outcome(interrupted, s, data[:n])
                h.ensure("the exception is passed on", k == "raise" and type(r) is KeyError, r)
                data = data[:n]
            else:
                with s.open() as f:
                    f.write(data[:n])
                    f.write(data[n:])
        else:
            s.write(data)
        n = h.size("read", 0, 2, 300)
        if how == "buffer":
            h.ensure("a buffer holds exactly what was written last", s.last_bytes_written == data)
            continue
        srcs = []
        if how == "file":
            h.ensure("a file holds exactly what was written last", p.read_bytes() == data)
            srcs = [u.ByteSource.from_file(p)]
            h.ensure("a source is empty iff nothing was written", srcs[0].is_empty() is (data == b""))
        else:
            with zipfile.ZipFile(p) as z:
                h.ensure("a zip file holds what was written, and what was there before", {x: z.read(x) for x in z.namelist()} == {**other, "d/x": data})
                open_src = u.ByteSource.from_file_in_zip(z, "d/x")
                h.ensure("a source in an open zip file gives what was written, again and again", open_src.read() == data and open_src.read(n) == data[:n] and open_src.read() == data)
            srcs = [u.ByteSource.from_file_in_zip(p, "d/x")]
        for src in srcs:
            with src.open() as f:
                h.ensure("an open source gives what was written", f.read(n) == data[:n] and f.read() == data[n:], n)
            h.ensure("closing a source releases its file", not h.held_files(), h.held_files())
            h.ensure("a source gives what was written, again and again", src.read() == data and src.read() == data, data[:20])
            h.ensure("a source gives as many bytes as asked for", src.read(n) == data[:n], n)


@contract("C19.lists", prove=False, covers=["lines", "doc map", "bad map", "directory"], scope="up to 3 lines (random: 8)", **OPTS)
def lists(h):
    u = h.mod(IO)
    d = pathlib.Path(h.tmpdir())
    what = h.choice("what", ["lines", "doc map", "bad map", "directory"])
    h.cover(what)
    n = h.size("n", 0, 3, 8)
    if what == "lines":
        ls = [h.choice("line", ["a", "b", "", " ", "a b", "\u00e9", "a\t", "\u2028x"]) for _ in range(n)]
        (d / "f").write_text("\n".join(ls) + ("\n" if h.bool("final newline") else ""), encoding="utf-8")
        want = []
        for x in ls:
            if x and x not in want:
                want.append(x)
        h.ensure("exactly the lines which are not blank, in order", list(u.file_lines_to_set(d / "f")) == want, ls)
    elif what == "doc map":
        m = {}
        (d / "real").mkdir()
        (d / "link").symlink_to(d / "real")
        for _ in range(n):
            m[h.choice("id", ["a", "b c", "\u00e9", "1", "a.b", "Z"])] = d / h.choice("file", ["x", "y z", "\u00e9", "s/t", "link/x", "link/../y"])
        s = u.CharSink.to_string()
        u.write_doc_id_to_file_map(m, s)
        out = s.last_string_written
        h.ensure("one line for each document, in the order of the IDs", out == "".join("%s\t%s\n" % (k, m[k]) for k in sorted(m)), out)
        lines = out.split("\n")
        if h.bool("blank line"):
            lines.insert(h.size("at", 0, len(lines)), h.choice("blank", ["", "  "]))
        got = u.read_doc_id_to_file_map(u.CharSource.from_string("\n".join(lines)))
        h.ensure("the map is read back as it was", dict(got.items()) == m and all(isinstance(v, pathlib.Path) for v in got.values()), (m, got))
        rel = {k: pathlib.Path("rel") / v.name for k, v in m.items()}
        u.write_doc_id_to_file_map(rel, s)
        got = u.read_doc_id_to_file_map(u.CharSource.from_string(s.last_string_written))
        h.ensure("files are written with their absolute paths", dict(got.items()) == {k: v.absolute() for k, v in rel.items()}, got)
    elif what == "bad map":
        ls = ["x%d\t/p%d" % (i, i) for i in range(n)]
        bad = h.choice("bad", ["no tab", "a\tb\tc", "x"])
        ls.insert(h.size("at", 0, len(ls)), bad)
        k, r = h.outcome(u.read_doc_id_to_file_map, u.CharSource.from_string("\n".join(ls)))
        h.ensure("a line which is no pair is an IOError", k == "raise" and isinstance(r, IOError), r)
    else:
        (d / "sub").mkdir()
        for i in range(n):
            name = h.choice("name", ["x%d", ".h%d"]) % i
            if h.bool("directory"):
                (d / "sub" / name).mkdir()
            else:
                (d / "sub" / name).write_text("")
        (d / "file").write_text("")
        h.ensure("a directory is empty iff it holds nothing, hidden or not", u.is_empty_directory(d / "sub") is (n == 0))
        h.ensure("a file is no empty directory", u.is_empty_directory(d / "file") is False and u.is_empty_directory(d / "absent") is False)


# --------------------------------------------------------------------------- proved, for maps and files of any size
class Out:
    """a file open for writing: what is written, piece by piece"""

    def __init__(self, h):
        self.h, self.pieces, self.log = h, h.S.mklist([]), []

    def write(self, s):
        self.pieces.append(s)

    def writelines(self, xs):
        self.pieces.extend(xs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.log.append("closed")
        return False

    def close(self):
        self.log.append("closed")

    def __getattr__(self, name):
        raise self.h.C.Unsupported("%r of a file open for writing" % name)


class Sink:
    def __init__(self, h):
        self.h, self.opened = h, []

    def open(self):
        self.opened.append(Out(self.h))
        return self.opened[-1]

    def __getattr__(self, name):
        raise self.h.C.Unsupported("%r of a sink" % name)


def paths_by_contract(h, u):
    """what is used of pathlib"""
    A, C = h.A, h.C
    ABS, PATH = h.fn("absolute", "any", "any"), h.fn("path_of", "any", "any")

    def path(t):
        return A.SymOf(t, pathlib.Path)

    def absolute(t):
        C.cur().axiom(ABS(ABS(t)) == ABS(t))
        return path(ABS(t))

    def of(s):
        if not isinstance(s, A.SymAny):
            raise C.Unsupported("path of %r" % (s,))
        return path(PATH(A.any_term(s)))

    h.model_class(pathlib.Path, {"absolute": lambda t: lambda: absolute(t)})
    h.patch(u, "Path", of)
    return path, absolute, of


@contract("C19.doc_map_written", concrete=False, covers=["map"], **OPTS)
def doc_map_written(h):
    """a map of any size is written one line for each document, in the order of the IDs"""
    u = h.mod(IO)
    A, C, S = h.A, h.C, h.S
    path, absolute, of = paths_by_contract(h, u)
    FILE = h.fn("file_of", "any", "any")
    m = h.any_map("docs", get=lambda k: path(FILE(k)))
    sink = Sink(h)
    u.write_doc_id_to_file_map(m, sink)
    h.ensure("the sink is opened once, and closed", len(sink.opened) == 1 and sink.opened[0].log == ["closed"])
    h.cover("map")
    got = h.items(sink.opened[0].pieces)
    ORD = h.SM.STR_ORD
    h.ensure("one line for each document", C.mkbool(got.n == m.n))
    claim = h.choice("claim", ["line", "order", "each"])
    p, z3 = C.cur(), h.z3

    def position(name):
        i = p.const(name, z3.IntSort())
        S.index_term(p, i)
        p.assume(z3.And(i >= 0, i < m.n))
        return i

    def key(i):
        t = got.at(i)
        if not isinstance(t, h.T.SymText) or isinstance(t.parts[0], str) or t.parts[0][0] != "str":
            raise C.Unsupported("line of another form")
        return A.any_term(t.parts[0][1])

    if claim == "line":
        i = position("line")
        k = key(i)
        h.ensure("a line is for a document", C.mkbool(m.has(k)))
        h.ensure_text("a line is the ID, a tab and the absolute path", got.at(i), [("str", h.MM.SymStr(k)), "\t", ("str", absolute(FILE(k))), "\n"])
    elif claim == "order":
        i, j = position("first"), position("second")
        p.assume(i < j)
        a, b = key(i), key(j)
        h.ensure("lines are in the order of the IDs", C.mkbool(ORD(a) <= ORD(b)))
        h.ensure("no document has two lines", C.mkbool(a != b))
    else:
        # with as many lines as documents and no document twice, each has one; shown directly as well
        d = position("document")
        k = m.key_at(d)
        if isinstance(got, S.SymComp):
            raise C.Unsupported("lines which are filtered")
        spots = [x for s in p.store.get("sorted_seqs", ()) for x in h.SM.places(s, s.base, d)]
        for x in spots:
            S.index_term(p, x)
        h.ensure("each document has a line", h.Or(*[C.mkbool(z3.And(x >= 0, x < got.n, key(x) == k)) for x in spots]) if spots else False)


@contract("C19.doc_map_read", concrete=False, covers=["read", "refused"], **OPTS)
def doc_map_read(h):
    """any text is read line by line; a line which is neither blank nor a pair is refused"""
    u = h.mod(IO)
    A, C, S, z3 = h.A, h.C, h.S, h.z3
    path, absolute, of = paths_by_contract(h, u)
    lines = S.SymSeq(z3.Int("lines"), lambda i, f=h.fn("line", "int", "any"): h.MM.SymStr(f(i)))
    C.cur().axiom(lines.n >= 0)
    log, made = [], []

    class Inp(A.SymReiterable):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            log.append("closed")
            return False

    class Source:
        def open(self):
            log.append("opened")
            return Inp(lines)

        def __getattr__(self, name):
            raise C.Unsupported("%r of a source" % name)

    class Dict:
        @staticmethod
        def of(items):
            made.append(items)
            return made

    h.patch(u, "ImmutableDict", Dict)
    if hasattr(u, "immutabledict"):
        h.patch(u, "immutabledict", Dict.of)

    def blank(i):
        return C.mkbool(lines.at(i).strip().t == A.const(""))

    def parts(i):
        return lines.at(i).split("\t")

    n = C.mkint(lines.n)
    legal = h.forall(n, lambda i: h.Or(blank(i.t), C.mkbool(parts(i.t).n == 2)))
    k, r = h.outcome(u.read_doc_id_to_file_map, Source())
    h.ensure("the source is opened once, and closed", log == ["opened", "closed"], log)
    if k == "raise":
        h.cover("refused")
        h.ensure("only a line which is no pair is refused", h.Not(legal), r)
        h.ensure("a line which is no pair is an IOError", isinstance(r, IOError), r)
        return
    h.cover("read")
    h.ensure("a line which is no pair is refused", legal)
    h.ensure("the result is one map", r is made and len(made) == 1, made)

    def kept(i):
        if blank(i.t):
            return []
        xs = parts(i.t)
        return [(xs.at(z3.IntVal(0)).strip(), of(xs.at(z3.IntVal(1)).strip()))]

    h.ensure_filtered("each line which is not blank gives its document and file, without outer white space", made[0], n, kept)


@contract("C19.doc_map_round_trip", concrete=False, covers=["round trip"], **OPTS)
def doc_map_round_trip(h):
    """what is read from what was written: the documents with the absolute paths of their files, for IDs and
    paths without tabs, line breaks and outer white space"""
    u = h.mod(IO)
    A, C, S, z3 = h.A, h.C, h.S, h.z3
    path, absolute, of = paths_by_contract(h, u)
    FILE = h.fn("file_of", "any", "any")

    def plain(s):
        return [z3.Not(h.MM.STR_IN(s.t, A.const(c))) for c in "\t\n\r"] + [s.strip().t == s.t, s.t != A.const("")]

    PATH = h.fn("path_of", "any", "any")

    def as_text(t):
        s = h.MM.SymStr(h.T.STR_OF(t))
        for x in plain(s) + [PATH(s.t) == t]:
            C.cur().axiom(x)
        return s

    h.MM.class_models()[pathlib.Path]["__str__"] = as_text
    m = h.any_map("docs", get=lambda k: path(FILE(k)), facts=lambda k: plain(h.MM.SymStr(k)))
    sink, made = Sink(h), []
    u.write_doc_id_to_file_map(m, sink)
    lines = h.items(sink.opened[0].pieces)

    class Inp(A.SymReiterable):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Source:
        def open(self):
            return Inp(lines)

    class Dict:
        @staticmethod
        def of(items):
            made.append(items)
            return made

    h.patch(u, "ImmutableDict", Dict)
    k, r = h.outcome(u.read_doc_id_to_file_map, Source())
    h.ensure("what was written can be read", k == "return", r)
    h.cover("round trip")
    base = h.items(m)

    def kept(i):
        h.ensure("what is written are lines", lines.at(i.t).parts[-1] == "\n")
        t = lines.at(i.t).parts[0][1]
        k = A.any_term(t)
        h.ensure("a line is for a document", C.mkbool(m.has(k)))
        as_text(absolute(FILE(k)).t)
        return [(h.MM.SymStr(k), absolute(FILE(k)))]

    h.ensure_filtered("each document has its file again", made[0], C.mkint(lines.n), kept)


@contract("C19.lines_to_set", concrete=False, covers=["lines"], **OPTS)
def lines_to_set(h):
    """the lines of a file of any length"""
    u = h.mod(IO)
    A, C = h.A, h.C
    text = h.string("text")
    asked, made = [], []

    def read_text(t):
        def f(encoding=None, errors=None):
            h.ensure("the file is read as UTF-8", encoding is not None and encoding.lower().replace("_", "-") in ("utf-8", "utf8") and errors in (None, "strict"), (encoding, errors))
            asked.append(t)
            return text

        return f

    h.model_class(pathlib.Path, {"read_text": read_text})
    p = h.instance("file", pathlib.Path)

    def the_set(items=()):
        made.append(items)
        return made

    h.patch(u, "immutableset", the_set)
    r = u.file_lines_to_set(p)
    h.cover("lines")
    h.ensure("the file given is read", len(asked) == 1 and asked[0].eq(p.t), asked)
    h.ensure("the result is one set", r is made and len(made) == 1, made)
    ls = text.split("\n")

    def kept(i):
        x = ls.at(i.t)
        return [] if C.mkbool(x.t == A.const("")) else [x]

    h.ensure_filtered("exactly the lines which are not blank, in order", made[0], C.mkint(ls.n), kept)


# ------------------------------------------------------------------ proved, over the contract of the platform's files
UTF8 = "utf-8"


class Platform:
    """what the code uses of the platform: files hold bytes; opening gives a handle on them; a handle which is
    left is closed; gzip, tar and zip give what is in the files; text is what the bytes are in an encoding,
    its line ends being line feeds"""

    def __init__(self, h, u, mu):
        self.h, self.u, self.handles, self.dirs = h, u, [], []
        A, C, z3, MM, world = h.A, h.C, h.z3, h.MM, self
        self.fns = {n: h.fn(n, "any", "any") for n in ("content", "gunzip", "path_of", "parent")}
        self.fns.update({n: h.fn(n, "any", "any", "any") for n in ("tar_member", "zip_member")})
        self.PRE = h.fn("first", "any", "int", "any")
        self.NL, self.LINE = h.fn("number_of_lines", "any", "int"), h.fn("line", "any", "int", "any")
        self.written = {}  # (term of the path, name within) -> file written last

        class Handle:
            """an open file"""

            def __init__(self, what, below=None):
                self.closed, self.what, self.below = False, what, below
                world.handles.append(self)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()
                return None

            def close(self):
                self.closed = True
                if self.below is not None:
                    self.below.close()

            def use(self):
                if self.closed:
                    raise ValueError("I/O operation on closed file.")

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                raise C.Unsupported("%r of a file" % name)

        self.Handle = Handle

        class Reading(Handle, A.SymReiterable):
            """a file open for reading; its content is a string or bytes"""

            def __init__(self, value, below=None):
                Handle.__init__(self, value, below)
                self.value, self.started = value, False

            def read(self, n=-1):
                self.use()
                if self.started:
                    raise C.Unsupported("a file read in pieces")
                self.started = True
                if n is None or C.mkbool(C.I(n) < 0):
                    return self.value
                t = world.PRE(self.value.t, C.I(n))
                empty = A.const("" if isinstance(self.value, MM.SymStr) else b"")
                C.cur().axiom((t == empty) == z3.Or(C.I(n) == 0, self.value.t == empty))
                return type(self.value)(t)

            def __iter__(self):
                return iter(world.lines(self.value))

            def __pyvc_seq__(self):
                self.use()
                return world.lines(self.value)

            def readlines(self):
                self.use()
                return world.lines(self.value)

        class Writing(Handle):
            """a file open for writing: the pieces written"""

            def __init__(self, text, below=None):
                Handle.__init__(self, text, below)
                self.text, self.pieces = text, []

            def write(self, x):
                self.use()
                if h.S.sym_isinstance(x, str) is not self.text:
                    raise TypeError("write() argument")
                self.pieces.append(x)

            def writelines(self, xs):
                for x in xs:
                    self.write(x)

        class Memory(Writing):
            def __init__(self, *initial):
                Writing.__init__(self, self.is_text)
                self.initial, self.view = initial, None

            def read(self, n=-1):
                self.use()
                if self.view is None:
                    self.view = Reading(self.value())
                    world.handles.remove(self.view)
                return self.view.read(n)

            def __pyvc_seq__(self):
                self.use()
                return world.lines(self.value())

            def __iter__(self):
                return iter(world.lines(self.value()))

            def value(self):
                if self.pieces or len(self.initial) != 1:
                    raise C.Unsupported("reading what was written")
                return MM.SymStr(A.any_term(self.initial[0]))

            def getvalue(self):
                self.use()
                if self.initial:
                    raise C.Unsupported("writing over a buffer")
                return tuple(self.pieces)

        class StringIO(Memory, A.SymReiterable):
            is_text = True

        class BytesIO(Memory):
            is_text = False

        class Io:
            pass

        Io.StringIO, Io.BytesIO = StringIO, BytesIO
        Io.TextIOWrapper = staticmethod(lambda f, encoding=None, **k: world.text(f, encoding, k))

        def opened(path, mode="r", encoding=None, **k):
            if mode in ("r", "rt"):
                return world.text(opened(path, "rb"), encoding, k)
            if mode == "rb":
                world.known(k)
                return Reading(MM.SymData(world.fns["content"](world.file(path))))
            if mode in ("w", "wt", "wb"):
                world.known(k)
                if mode != "wb":
                    world.utf8(encoding)
                f = world.written[(world.file(path).get_id(), None)] = Writing(mode != "wb")
                return f
            raise C.Unsupported("mode %r" % (mode,))

        def gz_open(path, mode="rb", encoding=None, **k):
            f = opened(path, "rb")
            f.value = MM.SymData(world.fns["gunzip"](f.value.t))
            if mode == "rt":
                return world.text(f, encoding, k)
            if mode not in ("rb", "r"):
                raise C.Unsupported("mode %r" % (mode,))
            return f

        class Tar(Handle):
            def __init__(self, path):
                Handle.__init__(self, "tar")
                self.data = world.fns["content"](world.file(path))

            def extractfile(self, name):
                self.use()
                if world.member == "absent":
                    raise KeyError(name)
                if world.member == "no file":
                    return None
                f = Reading(MM.SymData(world.fns["tar_member"](self.data, A.any_term(name))))
                world.handles.remove(f)  # a view of the archive, no file of its own
                return f

            def getmember(self, name):
                self.use()
                if world.member == "absent":
                    raise KeyError(name)

                class Member:
                    size = h.S.sym_len(MM.SymData(world.fns["tar_member"](self.data, A.any_term(name))))

                return Member

        class TarModule:
            @staticmethod
            def open(path, mode="r", **k):
                if mode not in ("r:gz", "r", "r:*"):
                    raise C.Unsupported("mode %r" % (mode,))
                return Tar(path)

        class Zip(zipfile.ZipFile):
            __pyvc_real__ = zipfile.ZipFile

            def __init__(self, path, mode="r", **k):
                world.known(k)
                self.closed, self.path, self.mode, self.open_members = False, path, mode, []
                h.ensure("a zip file is not written over", mode != "w", mode)
                if mode not in ("r", "a"):
                    raise C.Unsupported("mode %r" % (mode,))
                world.handles.append(self)

            def use(self):
                if self.closed:
                    raise ValueError("Attempt to use ZIP archive that was already closed")

            def open(self, name, mode="r"):
                self.use()
                if mode == "r":
                    return Reading(MM.SymData(world.fns["zip_member"](world.fns["content"](world.file(self.path)), A.any_term(name))))
                if mode != "w" or self.mode == "r":
                    raise ValueError("mode")
                f = world.written[(world.file(self.path).get_id(), A.any_term(name).get_id())] = Writing(False)
                self.open_members.append(f)
                return f

            def close(self):
                if any(not f.closed for f in self.open_members):
                    raise ValueError("Can't close the ZIP file while there is an open writing handle on it.")
                self.closed = True

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __del__(self):
                pass

        for n in ("read", "writestr", "namelist", "infolist", "getinfo", "extract", "extractall", "write"):
            setattr(Zip, n, lambda *a, **k: h.C.cur() and self.no())

        class Os:
            class path:
                @staticmethod
                def getsize(path):
                    return h.S.sym_len(MM.SymData(world.fns["content"](world.file(path))))

        class Gzip:
            open = staticmethod(gz_open)

        def path(t):
            return A.SymOf(t, pathlib.Path)

        def mkdir(t):
            def f(mode=0o777, parents=False, exist_ok=False):
                world.dirs.append((t, parents, exist_ok))

            return f

        h.model_class(
            pathlib.Path,
            {
                "parent": lambda t: path(world.fns["parent"](t)),
                "mkdir": mkdir,
                "open": lambda t: lambda mode="r", encoding=None, **k: opened(path(t), mode, encoding, **k),
            },
        )

        class PathStub(pathlib.Path):
            __pyvc_real__ = pathlib.Path

            def __new__(cls, s):
                return path(world.fns["path_of"](A.any_term(s)))

        for n, x in (("open", opened), ("gzip", Gzip), ("tarfile", TarModule), ("ZipFile", Zip), ("os", Os), ("io", Io), ("Path", PathStub), ("BytesIO", BytesIO)):
            h.patch(u, n, x)
        h.patch(mu, "Path", PathStub)
        self.path, self.Zip, self.Reading, self.member = path, Zip, Reading, "file"

    def file(self, path):
        """the file which a path, its text, or a name leads to"""
        t = self.h.A.path_term(path)
        return self.fns["path_of"](t) if isinstance(path, self.h.MM.SymStr) else t

    def no(self):
        raise self.h.C.Unsupported("another use of a zip file")

    def known(self, k):
        if k:
            raise self.h.C.Unsupported("options %r" % k)

    def utf8(self, encoding):
        import codecs

        self.h.ensure("text is written as UTF-8", isinstance(encoding, str) and codecs.lookup(encoding).name == "utf-8", encoding)

    def text(self, f, encoding, k):
        """a text file upon one of bytes"""
        if {n: v for n, v in k.items() if v is not None}:
            raise self.h.C.Unsupported("options %r" % k)
        if encoding is None:
            self.h.ensure("the encoding does not depend on the locale", False)
        return self.Reading(f.value.decode(encoding), f)

    def lines(self, text):
        h, n, L = self.h, self.NL(text.t), self.LINE
        h.C.cur().axiom(n >= 0)
        return h.S.SymSeq(n, lambda i: h.MM.SymStr(L(text.t, i)))

    def all_closed(self):
        return [x.what if hasattr(x, "what") else x for x in self.handles if not x.closed]


OPTS2 = dict(modules=[IO, "vistautils.misc_utils"])


@contract("C19.sources", concrete=False, covers=["string", "nowhere", "file", "gzip", "tgz", "zip", "open zip", "bytes", "no text"], **OPTS2)
def sources(h):
    """what a source of text gives, whatever is in the file"""
    u, mu = h.mod(IO), h.mod("vistautils.misc_utils")
    A, C, MM = h.A, h.C, h.MM
    w = Platform(h, u, mu)
    S, F = u.CharSource, w.fns
    how = h.choice("how", ["string", "nowhere", "file", "file by name", "gzip", "tgz", "zip", "open zip", "bytes"])
    p, name = w.path(h.z3.Const("path", A.ANY)), h.string("name")
    h.assume(h.Not(h.is_a(p, zipfile.ZipFile)))
    given = how in ("gzip", "tgz", "bytes") and h.bool("encoding given")
    enc = h.string("encoding") if given else UTF8
    kw = {"encoding": enc} if given else {}
    data = MM.SymData(F["content"](p.t))
    still = 0
    if how == "string":
        text = h.string("text")
        s = S.from_string(text)
    elif how == "nowhere":
        text, s = MM.SymStr(A.const("")), S.from_nowhere()
    elif how.startswith("file"):
        if how == "file by name":
            where = h.string("where")
            p = w.path(F["path_of"](where.t))
            data = MM.SymData(F["content"](p.t))
            s = S.from_file(where)
        else:
            s = S.from_file(p)
        how, text = "file", data.decode(UTF8)
    elif how == "gzip":
        s, text = S.from_gzipped_file(p, **kw), MM.SymData(F["gunzip"](data.t)).decode(enc)
    elif how == "tgz":
        s, text = S.from_file_in_tgz(p, name, **kw), MM.SymData(F["tar_member"](data.t, name.t)).decode(enc)
        w.member = h.choice("member", ["file", "no file", "absent"])
    elif how == "zip":
        s, text = S.from_file_in_zip(p, name), MM.SymData(F["zip_member"](data.t, name.t)).decode(UTF8)
    elif how == "open zip":
        s, text, still = S.from_file_in_zip(w.Zip(p, "r"), name), MM.SymData(F["zip_member"](data.t, name.t)).decode(UTF8), 1
    else:
        data = MM.SymData(h.z3.Const("data", A.ANY))

        class Given(u.ByteSource):
            def open(self):
                return w.Reading(data)

        s, text = S.from_byte_source(Given(), **kw), data.decode(enc)
    if w.member != "file":
        h.cover("no text")
        k, r = h.outcome(s.open)
        h.ensure("a member which is no file, or absent, gives no text", k == "raise" and isinstance(r, (KeyError, OSError)), r)
        return
    h.cover(how)
    claim = h.choice("claim", ["text", "lines", "empty"])
    if claim == "text":
        for _ in range(2):
            h.ensure("a source gives its whole text, again and again", s.read_all() == text, text)
        f = s.open()
        h.ensure("an open source is not closed", f.closed is False)
        h.ensure("an open source gives the text", f.read() == text)
        f.close()
    elif claim == "lines":
        ls = w.lines(text)
        h.ensure_sequence("a source gives the lines of its text", h.items(s.readlines()), C.mkint(ls.n), lambda i: ls.at(C.I(i)).rstrip("\n"))
        with s.open() as f:
            h.ensure_sequence("an open source gives its lines", h.items(f), C.mkint(ls.n), lambda i: ls.at(C.I(i)))
    else:
        h.ensure("a source is empty iff its text is", h.iff(C.B(s.is_empty()) if isinstance(s.is_empty(), h.C.Sym) else bool(s.is_empty()), text == ""))
        if how == "tgz":
            return
    h.ensure("closing a source releases its files", len(w.all_closed()) == still, w.all_closed())


@contract("C19.byte_sources", concrete=False, covers=["file", "zip", "open zip"], **OPTS2)
def byte_sources(h):
    """what a source of bytes gives, whatever is in the file"""
    u, mu = h.mod(IO), h.mod("vistautils.misc_utils")
    A, C, MM = h.A, h.C, h.MM
    w = Platform(h, u, mu)
    S, F = u.ByteSource, w.fns
    how = h.choice("how", ["file", "zip", "open zip"])
    h.cover(how)
    p, name = w.path(h.z3.Const("path", A.ANY)), h.string("name")
    h.assume(h.Not(h.is_a(p, zipfile.ZipFile)))
    data = MM.SymData(F["content"](p.t))
    still = 0
    if how == "file":
        s = S.from_file(p)
    elif how == "zip":
        s, data = S.from_file_in_zip(p, name), MM.SymData(F["zip_member"](data.t, name.t))
    else:
        s, data, still = S.from_file_in_zip(w.Zip(p, "r"), name), MM.SymData(F["zip_member"](data.t, name.t)), 1
    for _ in range(2):
        h.ensure("a source gives all its bytes, again and again", s.read() == data, data)
    n = h.int("n", -1)
    k, r = h.outcome(lambda: s.read(n) if h.bool("by position") else s.read(size=n))
    want = data.t if n < 0 else w.PRE(data.t, C.I(n))
    h.ensure("a source gives as many bytes as asked for", k == "return" and C.mkbool(r.t == want), r)
    with s.open() as f:
        h.ensure("an open source gives the bytes", f.read() == data)
    if how == "file":
        h.ensure("a source is empty iff its file is", h.iff(s.is_empty(), data == b""))
    h.ensure("closing a source releases its files", len(w.all_closed()) == still, w.all_closed())


@contract("C19.sinks", concrete=False, covers=["file", "string", "nowhere", "bytes", "buffer", "zip"], **OPTS2)
def sinks(h):
    """what a sink leaves: what was written last, whatever it is"""
    u, mu = h.mod(IO), h.mod("vistautils.misc_utils")
    A, C, MM = h.A, h.C, h.MM
    w = Platform(h, u, mu)
    F = w.fns
    how = h.choice("how", ["file", "file by name", "string", "nowhere", "bytes", "buffer", "zip"])
    p, name = w.path(h.z3.Const("path", A.ANY)), h.string("name")
    h.assume(h.Not(h.is_a(p, zipfile.ZipFile)))
    is_text = how in ("file", "file by name", "string", "nowhere")
    value = (lambda n: h.string(n)) if is_text else (lambda n: MM.SymData(h.z3.Const(n, A.ANY)))
    if how == "file by name":
        where = h.string("where")
        p = w.path(F["path_of"](where.t))
        s, how = u.CharSink.to_file(where), "file"
    else:
        s = {
            "file": lambda: u.CharSink.to_file(p),
            "string": u.CharSink.to_string,
            "nowhere": u.CharSink.to_nowhere,
            "bytes": lambda: u.ByteSink.to_file(p),
            "buffer": u.ByteSink.to_buffer,
            "zip": lambda: u.ByteSink.file_in_zip(p, name),
        }[how]()
    h.cover(how)
    if how in ("file", "bytes"):
        h.ensure("the directory of the file is made, if need be", any(t.eq(F["parent"](p.t)) and a and b for t, a, b in w.dirs), w.dirs)
    h.ensure("nothing is written before it is", not w.handles, w.handles)
    attr = {"string": "last_string_written", "buffer": "last_bytes_written"}.get(how)
    if attr:
        h.ensure("a sink not written to holds None", getattr(s, attr) is None)

    def left():
        if attr:
            return getattr(s, attr)
        f = w.written.get((p.t.get_id(), name.t.get_id() if how == "zip" else None))
        return None if f is None else tuple(f.pieces)

    def check(label, want):
        if how == "nowhere":
            h.ensure("a sink to nowhere opens no file", not w.handles)
            return
        got = left()
        h.ensure(label, got is not None and len(got) == len(want), (got, want))
        for a, b in zip(got, want):
            h.ensure(label, a == b, (got, want))
        h.ensure("what is written is written out: files are closed", not w.all_closed(), w.all_closed())
        h.ensure("nothing else is written", len(w.written) <= 1, w.written)

    a, b, c = value("first"), value("second"), value("third")
    s.write(a)
    check("a sink holds exactly what was written", (a,))
    s.write(b)
    check("a sink holds exactly what was written last", (b,))
    with s.open() as f:
        f.write(c)
        f.write(a)
    check("a sink holds exactly what was written to it while it was open", (c, a))
    with s.open() as f:
        f.write(b)
    check("a sink holds exactly what was written last", (b,))


@contract("C19.empty_directory", concrete=False, covers=["empty", "not empty", "no directory"], **OPTS2)
def empty_directory(h):
    """a directory with any number of entries"""
    u = h.mod(IO)
    A, C, S = h.A, h.C, h.S
    DIR, N = h.fn("is_directory", "any", "bool"), h.fn("entries", "any", "int")
    ENTRY = h.fn("entry", "any", "int", "any")

    def entries(t):
        def f():
            if not C.mkbool(DIR(t)):
                raise NotADirectoryError(20, "Not a directory")
            C.cur().axiom(N(t) >= 0)
            return A.SymReiterable(S.SymSeq(N(t), lambda i: A.SymOf(ENTRY(t, i), pathlib.Path)))

        return f

    h.model_class(pathlib.Path, {"is_dir": lambda t: lambda: C.mkbool(DIR(t)), "iterdir": entries, "exists": lambda t: lambda: C.mkbool(h.z3.Or(DIR(t), h.fn("exists", "any", "bool")(t)))})
    p = A.SymOf(h.z3.Const("path", A.ANY), pathlib.Path)
    k, r = h.outcome(u.is_empty_directory, p)
    C.cur().axiom(N(p.t) >= 0)
    want = h.z3.And(DIR(p.t), N(p.t) == 0)
    h.cover("no directory" if not C.mkbool(DIR(p.t)) else "empty" if C.mkbool(want) else "not empty")
    h.ensure("a directory is empty iff it holds nothing", k == "return" and h.iff(bool(r), C.mkbool(want)), r)
