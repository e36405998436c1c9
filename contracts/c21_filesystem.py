"""C21: file and directory parameters, and checkpoints, against what is on disk.

The code under test deletes directories; every path it is given lies deep inside a scratch directory, and
shutil.rmtree is replaced by a version which refuses any target outside of it."""
import os
import pathlib
import pickle
import shutil
import socket
import stat
import sys

sys.path.insert(0, os.path.dirname(__file__))
from params_common import params_model, private_get_by_contract  # noqa: E402

from pyvc.harness import contract  # noqa: E402

PAR = "vistautils.parameters"
CP = "vistautils.checkpoints"
OPTS = dict(modules=["vistautils.range", "vistautils.io_utils", PAR, CP], runs=3000, rand=3000)


class Escaped(BaseException):
    pass


class Guard:
    """deletions outside the scratch directory are refused"""

    def __init__(self, root):
        self.root = os.path.realpath(str(root))

    def __enter__(self):
        self.old = shutil.rmtree

        def rmtree(path, *a, **k):
            p = os.path.realpath(str(path))
            if not (p + "/").startswith(self.root + "/inner/"):
                raise Escaped(p)
            return self.old(path, *a, **k)

        shutil.rmtree = rmtree

    def __exit__(self, *a):
        shutil.rmtree = self.old


def snapshot(root):
    out = {}
    for base, ds, fs in os.walk(str(root)):
        for x in ds:
            out[os.path.relpath(os.path.join(base, x), str(root))] = None
        for x in fs:
            if stat.S_ISSOCK(os.stat(os.path.join(base, x)).st_mode):
                out[os.path.relpath(os.path.join(base, x), str(root))] = "socket"
                continue
            with open(os.path.join(base, x), "rb") as f:
                out[os.path.relpath(os.path.join(base, x), str(root))] = f.read()
    return out


ACCESSORS = ["creatable_directory", "creatable_empty_directory", "creatable_file", "existing_file", "existing_directory"]


def parents(rel):
    ps = rel.split("/")
    return ["/".join(ps[:i]) for i in range(1, len(ps))]


@contract("C21.accessors", prove=False, covers=["created", "found", "emptied", "refused", "absent", "none", "beneath a file"], scope="each accessor on each kind of target, up to 3 files about", **OPTS)
def accessors(h):
    m = h.mod(PAR)
    root = pathlib.Path(h.tmpdir()).resolve()
    d = root / "inner" / "w" / "x"
    d.mkdir(parents=True)
    acc = h.choice("accessor", ACCESSORS)
    opt = h.bool("optional")
    # what is there
    rel = h.choice("target", ["t", "s/t", "s/u/t"])
    kind = h.choice("there", ["nothing", "file", "empty file", "empty directory", "directory with file", "directory with hidden file", "directory with directory", "file above", "socket"])
    (d / "sibling").mkdir()
    (d / "sibling" / "f").write_bytes(b"s")
    (d / "file").write_bytes(b"f")
    t = d / rel
    if kind == "file above":
        h.assume("/" in rel)
        (d / "s").write_bytes(b"in the way")
    elif kind != "nothing":
        t.parent.mkdir(parents=True, exist_ok=True)
        if "file" == kind:
            t.write_bytes(b"content")
        elif kind == "empty file":
            t.write_bytes(b"")
        elif kind == "socket":  # neither a regular file nor a directory
            sock = socket.socket(socket.AF_UNIX)
            sock.bind(str(t))
            sock.close()
        else:
            t.mkdir()
            if kind == "directory with file":
                (t / "f").write_bytes(b"x")
            elif kind == "directory with hidden file":
                (t / ".h").write_bytes(b"")
            elif kind == "directory with directory":
                (t / "sub").mkdir()
                (t / "sub" / "f").write_bytes(b"y")
    before = snapshot(root)
    spelled = h.choice("spelled", ["plain", "dotted", "link"])
    given = str(t)
    if spelled == "dotted":
        given = str(d) + "/sibling/../" + rel
    elif spelled == "link":
        os.symlink(str(d), str(root / "inner" / "link"))
        given = str(root / "inner" / "link") + "/" + rel
        before = snapshot(root)
    present = h.choice("parameter", ["given", "given", "absent", "null", "number", "in a namespace"])
    ps = {"given": {"p": given}, "absent": {"q": given}, "null": {"p": None}, "number": {"p": 3}, "in a namespace": {"n": {"p": given}}}[present]
    name = "n.p" if present == "in a namespace" else "p"
    p = m.Parameters.from_mapping(ps)
    kw = {}
    if acc == "creatable_empty_directory" and h.bool("delete given"):
        kw["delete"] = h.bool("delete")
    with Guard(root):
        try:
            k, r = h.outcome(lambda: getattr(p, ("optional_" if opt else "") + acc)(name, **kw))
        except Escaped as e:
            h.fail("nothing outside the directory is deleted", str(e))
            return
    after = snapshot(root)
    if present in ("absent", "null") and opt:
        h.cover("none")
        h.ensure("an optional path which is absent is None", k == "return" and r is None, r)
        h.ensure("nothing on disk changes", after == before)
        return
    if present in ("absent", "null", "number"):
        h.cover("absent")
        h.ensure("a path which is absent or no string is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
        h.ensure("nothing on disk changes", after == before)
        return
    isdir = "directory" in kind
    isfile = kind in ("file", "empty file", "socket")
    want = dict(before)
    at = os.path.relpath(str(t), str(root))
    above = {os.path.relpath(str(d), str(root)) + "/" + x: None for x in parents(rel)}
    ok, refusal = True, m.ParameterError
    if kind == "file above":
        ok = False
        if acc.startswith("creatable"):
            refusal = OSError  # the file system refuses
        h.cover("beneath a file")
    elif acc == "creatable_directory":
        ok = not isfile
        refusal = OSError
        want.update(above)
        want[at] = None
    elif acc == "creatable_empty_directory":
        full = isdir and kind != "empty directory"
        ok = not isfile and (not full or kw.get("delete", False))
        if full and ok:
            h.cover("emptied")
            want = {x: v for x, v in want.items() if not x.startswith(at + "/")}
        want.update(above)
        want[at] = None
    elif acc == "creatable_file":
        want.update(above)
    elif acc == "existing_file":
        ok = isfile and kind != "socket"
    else:
        ok = isdir
    if not ok:
        h.cover("refused")
        h.ensure("a target of the wrong kind is refused", k == "raise" and isinstance(r, refusal), (acc, kind, r))
        h.ensure("a refusal changes nothing on disk", after == before, (acc, kind, sorted(after)))
        return
    h.cover("found" if kind != "nothing" else "created")
    h.ensure("the resolved path is returned", k == "return" and r == t and isinstance(r, pathlib.Path), (acc, kind, r))
    h.ensure("exactly what was promised is on disk, and everything else as before", after == want, (acc, kind, sorted(after.items()), sorted(want.items())))


@contract("C21.lists", prove=False, covers=["list", "list file", "map file", "bad map", "pickle"], scope="up to 3 lines (random: 8)", **OPTS)
def lists(h):
    m = h.mod(PAR)
    d = pathlib.Path(h.tmpdir()).resolve()
    what = h.choice("what", ["list", "list file", "map file", "bad map", "pickle"])
    h.cover(what)
    n = h.size("n", 0, 3, 8)
    rel = h.choice("relative to", [None, pathlib.Path("/base/dir"), pathlib.Path("rel")])
    kw = {} if rel is None else {"resolve_relative_to": rel}
    if h.bool("log name"):
        kw["log_name"] = "document"
    at = lambda s: pathlib.Path(s) if rel is None else rel / s  # noqa: E731
    texts = ["a", "b/c", "/abs/d", "e f", "g#h", "\u00e9"]
    if what == "list":
        xs = [h.choice("path", texts) for _ in range(n)]
        p = m.Parameters.from_mapping({"p": xs})
        r = p.path_list_from_file("p", **kw)
        h.ensure("each element is a path, in order", list(r) == [at(x) for x in xs], (xs, r))
    elif what == "list file":
        lines, want = [], []
        for _ in range(n):
            x = h.choice("line", texts + ["", "  ", "# comment", "#comment", "#", "  # indented comment", "\t#", " padded\t"])
            lines.append(x)
            if x.strip() and not x.strip().startswith("#"):
                want.append(at(x.strip()))
        (d / "f").write_text("\n".join(lines) + ("\n" if h.bool("final newline") else ""), encoding="utf-8")
        p = m.Parameters.from_mapping({"p": str(d / "f")})
        r = p.path_list_from_file("p", **kw)
        h.ensure("each line is a path, in order, but for blank lines and comments", list(r) == want, (lines, r))
    elif what in ("map file", "bad map"):
        want = {}
        pad = h.choice("white space around", ["", " ", "  "])
        for _ in range(n):
            want[h.choice("key", ["k", "l m", "\u00e9", "#k", "K"])] = h.choice("path", texts)
        lines = [pad + x + pad + "\t" + pad + y + pad for x, y in want.items()]
        if what == "bad map":
            lines.insert(h.size("at", 0, len(lines)), h.choice("bad", ["one", "a\tb\tc", ""]))
        (d / "f").write_text("".join(x + "\n" for x in lines), encoding="utf-8")
        p = m.Parameters.from_mapping({"p": str(d / "f")})
        k, r = h.outcome(lambda: p.path_map_from_file("p", **kw))
        if what == "bad map":
            h.ensure("a line which is no pair is an IOError", k == "raise" and isinstance(r, IOError), r)
        else:
            h.ensure("each key has its path", k == "return" and dict(r.items()) == {x: at(y) for x, y in want.items()} and list(r) == list(want), r)
    else:
        obj = h.choice("object", [None, 0, {"a": [1, "x"]}, "s"])
        (d / "f").write_bytes(pickle.dumps(obj))
        p = m.Parameters.from_mapping({"p": str(d / "f")})
        h.ensure("the object in the file", p.pickled_object_from_file("p") == obj)
        p = m.Parameters.from_mapping({"p": str(d / "absent")})
        k, r = h.outcome(p.pickled_object_from_file, "p")
        h.ensure("a file which is not there is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)


NAMES = ["a", "b", "a.b", " ", "\u00e9", "A", ".hidden", "a b"]
MORE_NAMES = ["b.lock", "a.", "a~", "x.tmp", "x.txt", "#1", "%", "-r", "*", "0", "x" * 200]


@contract("C21.checkpoints", prove=False, covers=["set", "reset", "opened again", "twice"], scope="histories of up to 4 operations (random: 12)", **OPTS)
def checkpoints(h):
    m = h.mod(CP)
    root = pathlib.Path(h.tmpdir()).resolve()
    d = root / "inner" / "cp"
    there = h.choice("directory", ["there", "absent", "absent with its parent"])
    if there == "there":
        d.mkdir(parents=True)
    elif there == "absent":
        (root / "inner").mkdir()
    else:
        d = root / "inner" / "up" / "cp"
        (root / "inner").mkdir()
    (root / "inner" / "other").write_text("x")
    mk = lambda: m.Checkpoints.from_directory(str(d) if h.bool("as string") else d)  # noqa: E731
    cp = mk()
    model = set()
    names = NAMES + MORE_NAMES if h.bool("odd names") else NAMES
    with Guard(root):
        for _ in range(h.size("operations", 0, 3, 12)):
            op = h.choice("operation", ["set", "set", "reset", "open again", "no name"])
            if op == "set":
                x = h.choice("name", names)
                h.cover("twice" if x in model else "set")
                cp.set(x)
                model.add(x)
            elif op == "reset":
                h.cover("reset")
                try:
                    cp.reset_all()
                except Escaped as e:
                    h.fail("nothing outside the directory is deleted", str(e))
                model = set()
            elif op == "open again":
                h.cover("opened again")
                cp = mk()
            else:
                bad = h.choice("no name", [None, 3, b"a"])
                k, r = h.outcome(cp.set, bad)
                h.ensure("a checkpoint is named by a string", k == "raise" and isinstance(r, TypeError), r)
                k, r = h.outcome(lambda: bad in cp)
                h.ensure("a checkpoint is asked for by a string", k == "raise" and isinstance(r, TypeError), r)
            for x in names + ["", "."]:
                h.ensure("exactly the checkpoints set since the last reset are there", (x in cp) is (x in model), (x, model))
    h.ensure("nothing else is touched", (root / "inner" / "other").read_text() == "x")


# --------------------------------------------------------------------------- proved, over the contract of the file system
class Disk:
    """the target a parameter names, and the directory it lies in, in any state; paths are built by the
    operations of pathlib, and the operations used do what their documentation says"""

    def __init__(self, h, m, mu):
        disk = self
        self.h, self.log = h, []
        C, A = h.C, h.A
        self.target = h.choice("there", ["nothing", "file", "empty directory", "directory", "something else"])
        self.above = "directory" if self.target != "nothing" else h.choice("above", ["directory", "nothing", "file"])
        self.before = self.target, self.above
        self.text = None

        class Path:
            def __init__(self, x, how="path"):
                if isinstance(x, Path):
                    x, how = x.text, x.how
                self.text, self.how = A.any_term(x), how

            def resolve(self, strict=False):
                if strict:
                    raise C.Unsupported("strict")
                if self.how not in ("path", "resolved"):
                    raise C.Unsupported("resolved " + self.how)
                return Path(A.SymAny(self.text), "resolved")

            def state(self):
                if self.how in ("path", "resolved"):
                    return disk.target
                if self.how == "parent":
                    return disk.above
                raise C.Unsupported("state of a path " + self.how)

            @property
            def parent(self):
                if self.how != "resolved":
                    raise C.Unsupported("parent of a path " + self.how)
                return Path(A.SymAny(self.text), "parent")

            def exists(self):
                return self.state() != "nothing"

            def is_dir(self):
                return "directory" in self.state()

            def is_file(self):
                return self.state() == "file"

            def iterdir(self):
                if not self.is_dir():
                    raise NotADirectoryError(20, "Not a directory")
                if self.how == "parent":
                    raise C.Unsupported("the directory above")
                return iter([] if self.state() == "empty directory" else [Path(A.SymAny(self.text), "child")])

            def mkdir(self, mode=0o777, parents=False, exist_ok=False):
                disk.at(self)
                if self.exists():
                    if exist_ok and self.is_dir():
                        return
                    raise FileExistsError(17, "File exists")
                if self.how != "parent":
                    if disk.above == "file":
                        raise NotADirectoryError(20, "Not a directory")
                    if disk.above == "nothing":
                        if not parents:
                            raise FileNotFoundError(2, "No such file or directory")
                        disk.above = "directory"
                    disk.target = "empty directory"
                else:
                    # there may be nothing above that directory either
                    if not parents:
                        raise FileNotFoundError(2, "No such file or directory")
                    disk.above = "directory"
                disk.log.append("made")

            def rmdir(self):
                disk.at(self)
                if self.how == "parent" or self.state() != "empty directory":
                    raise OSError(39, "Directory not empty")
                disk.target = "nothing"

            def __str__(self):
                return "<%s>" % self.how

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                raise C.Unsupported("%r of a path" % name)

        self.Path = Path

        class Shutil:
            @staticmethod
            def rmtree(x, *a, **k):
                if a or k:
                    raise C.Unsupported("options")
                if not isinstance(x, Path):
                    if x in ("<parent>", "<child>"):
                        h.fail("nothing but the target is deleted", x)
                    if x not in ("<resolved>", "<path>"):
                        raise C.Unsupported("deletion of %r" % (x,))
                elif x.how not in ("path", "resolved"):
                    h.fail("nothing but the target is deleted", x.how)
                if "directory" not in disk.target:
                    raise NotADirectoryError(20, "Not a directory")
                disk.log.append("deleted")
                disk.target = "nothing"

        h.patch(m, "Path", Path)
        h.patch(m, "shutil", Shutil)

    def at(self, path):
        if path.how == "child":
            raise self.h.C.Unsupported("a path in the directory")

    def now(self):
        return self.target, self.above


@contract("C21.any_target", concrete=False, covers=["created", "found", "emptied", "refused", "absent", "none", "beneath a file"], **OPTS)
def any_target(h):
    """each accessor, any parameters, and anything on disk"""
    m = h.mod(PAR)
    P, Err = params_model(h), m.ParameterError
    A, C = h.A, h.C
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    name = h.string("name")
    disk = Disk(h, m, h.mod("vistautils.io_utils"))
    acc = h.choice("accessor", ACCESSORS)
    opt = h.choice("optional", [False, True])
    kw = {}
    if acc == "creatable_empty_directory":
        d = h.choice("delete", [None, False, True])
        if d is not None:
            kw["delete"] = d
    k, r = h.outcome(lambda: getattr(me, ("optional_" if opt else "") + acc)(name, **kw))
    nowhere, v = find(me, name)
    target, above = disk.before
    if opt and h.Or(nowhere, h.same(v, None)):
        h.cover("none")
        h.ensure("an optional path which is absent is None, and nothing on disk changes", k == "return" and r is None and disk.now() == disk.before and not disk.log, r)
        return
    if h.Or(nowhere, h.Not(h.is_a(v, str))):
        h.cover("absent")
        h.ensure("a path which is absent or no string is a ParameterError, and nothing on disk changes", k == "raise" and isinstance(r, Err) and disk.now() == disk.before and not disk.log, r)
        return
    there = "directory" in target
    refusal, want = None, (target, above)
    if acc == "existing_file":
        refusal = None if target == "file" else Err
    elif acc == "existing_directory":
        refusal = None if there else Err
    elif acc == "creatable_file":
        refusal = OSError if above == "file" else None
        want = (target, "directory")
    elif acc == "creatable_directory":
        refusal = None if there or target == "nothing" and above != "file" else OSError
        want = (target if there else "empty directory", "directory")
    else:
        if target == "nothing":
            refusal = OSError if above == "file" else None
        elif not there:
            refusal = Err
        elif target == "directory" and not kw.get("delete"):
            refusal = Err
        want = ("empty directory", "directory")
    if refusal is not None:
        h.cover("beneath a file" if above == "file" else "refused")
        h.ensure("a target of the wrong kind is refused", k == "raise" and isinstance(r, refusal), (acc, disk.before, r))
        h.ensure("a refusal changes nothing on disk", disk.now() == disk.before and not disk.log, disk.log)
        return
    h.cover("found" if target != "nothing" else "created")
    h.ensure("accepted otherwise", k == "return", (acc, disk.before, r))
    h.ensure("the resolved path is returned", isinstance(r, disk.Path) and r.how == "resolved" and C.mkbool(r.text == v.t), (acc, disk.before, r))
    h.ensure("exactly what was promised is on disk", disk.now() == want, (acc, disk.before, disk.now()))
    full = acc == "creatable_empty_directory" and target == "directory"
    if full:
        h.cover("emptied")
    h.ensure("nothing is deleted but the content of a directory which is to be emptied", disk.log.count("deleted") <= full, disk.log)


@contract("C21.path_lists", concrete=False, covers=["list", "file", "kept", "skipped"], **OPTS)
def path_lists(h):
    """lists of any number of paths, given directly or by a file"""
    m = h.mod(PAR)
    P = params_model(h)
    A, C, S, z3 = h.A, h.C, h.S, h.z3
    find = private_get_by_contract(h)
    me = h.instance("parameters", P)
    name = h.string("name")
    PATH, FILE, UNDER = h.fn("path_of", "any", "any"), h.fn("existing_file", "any", "any"), h.fn("under", "any", "any", "any")
    path = lambda t: A.SymOf(t, pathlib.Path)  # noqa: E731
    lines = S.SymSeq(z3.Int("lines"), lambda i, f=h.fn("line", "int", "any"): h.MM.SymStr(f(i)))
    C.cur().axiom(lines.n >= 0)
    asked = []

    class Text:
        def splitlines(self, keepends=False):
            if keepends:
                raise C.Unsupported("ends of lines")
            return A.SymReiterable(lines)

        def __getattr__(self, name):
            raise C.Unsupported("%r of a text" % name)

    class File:
        def __init__(self, text):
            asked.append(text)

        def read_text(self, encoding=None, errors=None):
            h.ensure("the file is read as UTF-8", encoding is not None and encoding.lower().replace("_", "-") in ("utf-8", "utf8") and errors in (None, "strict"), (encoding, errors))
            return Text()

        def absolute(self):
            return "path of the file"

        resolve = absolute

    def existing_file(self, n):
        h.ensure("the file is the one the parameter names", h.And(h.same(self, me), n == name))
        return File(n)

    elements = h.strings("paths", distinct=False)

    def arbitrary_list(self, n, **k):
        h.ensure("the list is the one the parameter holds", h.And(h.same(self, me), n == name))
        return elements

    def divided(me):
        return lambda other: path(UNDER(me, A.any_term(other)))

    h.model_class(pathlib.Path, {"__truediv__": divided})
    h.patch(P, "existing_file", existing_file)
    h.patch(P, "arbitrary_list", arbitrary_list)

    class Base:
        def __truediv__(self, other):
            return path(UNDER(A.const("base"), A.any_term(other)))

    base = Base() if h.choice("resolved relative to a directory", [True, False]) else None
    h.patch(m, "Path", lambda s: path(PATH(A.any_term(s))))

    class Logging:
        def __getattr__(self, name):
            return lambda *a, **k: None

    h.patch(m, "logging", Logging())
    kw = {} if base is None else {"resolve_relative_to": base}
    if h.choice("log name", [False, True]):
        kw["log_name"] = "document"
    nowhere, v = find(me, name)
    h.assume(h.Not(nowhere))
    r = me.path_list_from_file(name, **kw)
    at = lambda s: path(UNDER(A.const("base"), s.t) if base is not None else PATH(s.t))  # noqa: E731
    if h.is_a(v, str):
        h.cover("file")
        h.ensure("the file is looked up once", len(asked) == 1)

        def kept(i):
            s = lines.at(i.t).strip()
            if h.Or(C.mkbool(s.t == A.const("")), s.startswith("#")):
                h.cover("skipped")
                return []
            h.cover("kept")
            C.cur().axiom(s.strip().t == s.t)
            return [at(s)]

        h.ensure_filtered("each line is a path, in order, but for blank lines and comments", r, C.mkint(lines.n), kept)
    else:
        h.cover("list")
        h.ensure_filtered("each element is a path, in order", r, C.mkint(elements.n), lambda i: [at(elements.at(i.t).strip())])


@contract("C21.path_maps", concrete=False, covers=["read", "refused"], **OPTS)
def path_maps(h):
    """files of any number of lines"""
    m = h.mod(PAR)
    P = params_model(h)
    A, C, S, z3 = h.A, h.C, h.S, h.z3
    me = h.instance("parameters", P)
    name = h.string("name")
    PATH, UNDER = h.fn("path_of", "any", "any"), h.fn("under", "any", "any", "any")
    path = lambda t: A.SymOf(t, pathlib.Path)  # noqa: E731
    lines = S.SymSeq(z3.Int("lines"), lambda i, f=h.fn("line", "int", "any"): h.MM.SymStr(f(i)))
    C.cur().axiom(lines.n >= 0)
    log, made = [], []

    class Inp(A.SymReiterable):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            log.append("closed")
            return False

    def existing_file(self, n):
        h.ensure("the file is the one the parameter names", h.And(h.same(self, me), n == name))
        return "the file"

    def opened(f, mode="r", encoding=None):
        h.ensure("the file is read as UTF-8", f == "the file" and mode in ("r", "rt") and encoding is not None and encoding.lower().replace("_", "-") in ("utf-8", "utf8"))
        log.append("opened")
        return Inp(lines)

    class Builder:
        def __init__(self):
            self.items = S.mklist([])

        def put(self, k, v):
            self.items.append((k, v))

        def build(self):
            return Dict.of(self.items)

    class Dict(list):
        builder = Builder

        @staticmethod
        def of(items):
            made.append(items)
            return Dict()

    h.patch(P, "existing_file", existing_file)
    h.patch(m, "open", opened)
    h.patch(m, "ImmutableDict", Dict)

    class Base:
        def __truediv__(self, other):
            return path(UNDER(A.const("base"), A.any_term(other)))

    base = Base() if h.choice("resolved relative to a directory", [True, False]) else None
    h.patch(m, "Path", lambda s: path(PATH(A.any_term(s))))
    kw = {} if base is None else {"resolve_relative_to": base}
    at = lambda s: path(UNDER(A.const("base"), s.t) if base is not None else PATH(s.t))  # noqa: E731

    def parts(i):
        return lines.at(i).split("\t")

    n = C.mkint(lines.n)
    legal = h.forall(n, lambda i: C.mkbool(parts(i.t).n == 2))
    k, r = h.outcome(lambda: me.path_map_from_file(name, **kw))
    h.ensure("the file is opened once, and closed", log == ["opened", "closed"], log)
    if k == "raise":
        h.cover("refused")
        h.ensure("only a line which is no pair is refused", h.Not(legal), r)
        h.ensure("with an IOError", isinstance(r, IOError), r)
        return
    h.cover("read")
    h.ensure("a line which is no pair is refused", legal)
    h.ensure("the result is one map", isinstance(r, Dict) and len(made) == 1, made)

    def pair(i):
        xs = parts(i.t)
        return [(xs.at(z3.IntVal(0)).strip(), at(xs.at(z3.IntVal(1)).strip()))]

    h.ensure_filtered("each line gives its key and path, without outer white space", made[0], n, pair)


@contract("C21.any_checkpoint", concrete=False, covers=["set", "there", "not there", "reset", "opened", "no name"], **OPTS)
def any_checkpoint(h):
    """one operation on checkpoints in any state: a directory which holds files of any names"""
    m = h.mod(CP)
    A, C, G, z3 = h.A, h.C, h.G, h.z3
    HAS = h.fn("file", "any", "bool")
    log = []
    a = h.string("any name")
    state = {"directory": True, "has": lambda t: HAS(t)}

    def has(t):
        return z3.simplify(state["has"](t))

    class Dir(pathlib.PurePosixPath):
        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            log.append("mkdir")
            if state["directory"]:
                if not exist_ok:
                    raise FileExistsError(17, "File exists")
            elif state["above"] or parents:
                state["directory"] = True
            else:
                raise FileNotFoundError(2, "No such file or directory")

    class Entry:
        def __init__(self, name):
            self.name = A.any_term(name)

        def touch(self, mode=0o666, exist_ok=True):
            if not state["directory"]:
                raise FileNotFoundError(2, "No such file or directory")
            if not exist_ok and C.mkbool(has(self.name)):
                raise FileExistsError(17, "File exists")
            old, new = state["has"], self.name
            state["has"] = lambda t: z3.Or(t == new, old(t))

        def is_file(self):
            return C.mkbool(has(self.name)) if state["directory"] else False

        exists = is_file

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise C.Unsupported("%r of a file" % name)

    the = Dir("/checkpoints")

    def path(*xs):
        if len(xs) == 1 and str(xs[0]) == "/checkpoints":
            return the
        if len(xs) == 2 and str(xs[0]) == "/checkpoints":
            return Entry(xs[1])
        raise C.Unsupported("a path of %d parts" % len(xs))

    class Shutil:
        @staticmethod
        def rmtree(x, *y, **k):
            if y or k:
                raise C.Unsupported("options")
            h.ensure("nothing but the directory is deleted", str(x) == "/checkpoints", x)
            if not state["directory"]:
                raise FileNotFoundError(2, "No such file or directory")
            state["directory"], state["above"] = False, True
            state["has"] = lambda t: z3.BoolVal(False)

    h.patch(m, "Path", path)
    h.patch(m, "shutil", Shutil)
    op = h.choice("operation", ["set", "asked", "reset", "opened", "no name"])
    if op == "opened":
        h.cover("opened")
        state["directory"] = h.choice("directory there", [True, False])
        state["above"] = h.choice("directory above there", [True, False])
        if not state["directory"]:
            state["has"] = lambda t: z3.BoolVal(False)
        was = has(a.t)
        c = m.Checkpoints.from_directory("/checkpoints" if h.choice("as string", [True, False]) else the)
        h.ensure("the directory is there", state["directory"])
        h.ensure("exactly the checkpoints there were", h.And(h.iff(C.mkbool(has(a.t)), C.mkbool(was)), h.iff(a in c, C.mkbool(was))))
        return
    c = m.Checkpoints.from_directory(the)
    was = has(a.t)
    if op == "set":
        h.cover("set")
        b = h.string("name")
        k, r = h.outcome(c.set, b)
        h.ensure("any name can be set", k == "return", r)
        h.ensure("it is there then, and any other as it was", h.iff(a in c, h.Or(a == b, C.mkbool(was))))
        h.ensure("whoever opens the directory", h.iff(a in m.Checkpoints.from_directory(the), h.Or(a == b, C.mkbool(was))))
    elif op == "asked":
        got = a in c
        h.cover("there" if got else "not there")
        h.ensure("a checkpoint is there iff its file is", h.iff(got, C.mkbool(was)))
        h.ensure("asking changes nothing", h.iff(C.mkbool(has(a.t)), C.mkbool(was)))
    elif op == "reset":
        h.cover("reset")
        k, r = h.outcome(c.reset_all)
        h.ensure("no checkpoint is there", h.And(k == "return", state["directory"], h.Not(a in c)), r)
        k, r = h.outcome(c.set, a)
        h.ensure("and they can be set again", h.And(k == "return", a in c), r)
    else:
        h.cover("no name")
        x = h.any("no name")
        h.assume(h.Not(h.is_a(x, str)))
        for f in (c.set, c.__contains__):
            k, r = h.outcome(f, x)
            h.ensure("what is no string is no name", k == "raise" and isinstance(r, TypeError), r)
        h.ensure("and changes nothing", h.iff(C.mkbool(has(a.t)), C.mkbool(was)))
