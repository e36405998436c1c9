"""C18: the command-line tools on key-value stores keep every key with its value."""
import io
import json
import os
import pathlib
import subprocess
import sys
import tarfile
import warnings
import zipfile

from pyvc.harness import contract

KV = "vistautils.key_value"
SC = "vistautils.scripts."
BASE = ["vistautils.range", "vistautils._graph", "vistautils.parameters", "vistautils.io_utils", KV]
OPTS = dict(modules=BASE, runs=1500, rand=1000)
KEYS = ["a", "b", "c", "d/e", "\u00e9", "f.txt", "g h", "10", "9"]
VALUES = [b"", b"x", b"\xff\x00", b"y" * 5000]


def store(h, m, path, name="store", hi=4, wide=9):
    out = {}
    for _ in range(h.size(name + ".n", 0, hi, wide)):
        k = h.choice(name + ".key", KEYS)
        if k not in out:
            out[k] = h.choice(name + ".value", VALUES)
    for i in range(h.choice(name + ".many more", [0] * 12 + [80])):
        out["more%d" % i] = b"%d" % i
    with m.KeyValueSink.zip_bytes_sink(path) as s:
        for k, v in out.items():
            s.put(k, v)
    return out


def content(m, path):
    with m.KeyValueSource.zip_bytes_source(path) as s:
        return dict(s.items())


def quiet(f):
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        return f()
    finally:
        sys.stdout = out


def shared(h):
    m = h.mod(KV)
    P = h.mod("vistautils.parameters")
    d = pathlib.Path(h.tmpdir())
    return m, P, d


@contract("C18.even_split", prove=False, covers=["more slices than keys", "split", "joined"], scope="stores of up to 4 keys (random: 9), up to 4 slices (random: 7)", **OPTS)
def even_split(h):
    m, P, d = shared(h)
    want = store(h, m, d / "in.zip")
    n = h.int("slices", small=(1, 4), wide=(1, 7))
    h.cover("more slices than keys" if n > len(want) else "split")
    base = {"input": {"type": "zip", "path": str(d / "in.zip")}, "num_slices": n}
    seed = h.choice("seed", [None, 1, 7])
    if seed is not None:
        base["random_seed"] = seed
    results = []
    for run in ("one", "two"):
        o = d / run
        if run == "two" and h.bool("the same store, made in another order"):
            ks = h.choice("order", [sorted(want), sorted(want, reverse=True), sorted(want, key=lambda x: x[::-1])])
            with zipfile.ZipFile(d / "in.zip", "w") as z:
                for x in ks:
                    z.writestr(x, want[x])
                z.writestr("__keys", "\n".join(ks).encode("utf-8"))
        h.mod(SC + "split_key_value_store").main(P.Parameters.from_mapping({**base, "output_dir": str(o)}))
        lines = (o / "_slices.txt").read_text(encoding="utf-8").split("\n")
        h.ensure("the list of slices names the slices", [os.path.basename(x) for x in lines] == ["%d.zip" % i for i in range(n)] and all(os.path.isfile(x) for x in lines), lines)
        h.ensure("nothing else is written", sorted(os.listdir(o)) == sorted(["%d.zip" % i for i in range(n)] + ["_slices.txt"]), os.listdir(o))
        parts = [content(m, x) for x in lines]
        sizes = [len(x) for x in parts]
        h.ensure("the sizes of the slices differ by one at most", max(sizes) - min(sizes) <= 1, sizes)
        h.ensure("each key is in exactly one slice", sum(sizes) == len(want) and set().union(*parts) == set(want), (sizes, want))
        h.ensure("each key keeps its value", all(want[k] == v for x in parts for k, v in x.items()))
        results.append(parts)
    h.ensure("the split is the same each time", results[0] == results[1], results)
    h.mod(SC + "join_key_value_stores").main(
        P.Parameters.from_mapping({"input_store_list_file": str(d / "one" / "_slices.txt"), "output": {"type": "zip", "path": str(d / "out.zip")}})
    )
    h.cover("joined")
    h.ensure("the slices joined are the store", content(m, d / "out.zip") == want, want)


@contract("C18.explicit_split", prove=False, covers=["split", "unknown key", "not exhaustive", "allowed not to be exhaustive"], scope="stores of up to 4 keys (random: 9), up to 3 parts", **OPTS)
def explicit_split(h):
    m, P, d = shared(h)
    want = store(h, m, d / "in.zip")
    parts, ns = [], {}
    for i in range(h.size("parts", 1, 2, 3)):
        keys = [k for k in sorted(want) if h.bool("taken")]
        if h.bool("unknown key") and h.bool("really"):
            keys.insert(h.size("at", 0, len(keys)), "unknown")
        parts.append(keys)
        lines = []
        for k in keys:
            lines.append(k)
            if h.bool("blank line") and h.bool("really"):
                lines.append("")
        (d / ("keys%d" % i)).write_text("\n".join(lines) + ("\n" if h.bool("final newline") else ""), encoding="utf-8")
        ns["part%d" % i] = {"keys_file": str(d / ("keys%d" % i)), "output_file": str(d / "o" / ("%d.zip" % i))}
    must = h.choice("must be exhaustive", [None, True, False])
    if must is not None:
        ns["must_be_exhaustive"] = must
    outside = {}
    if h.bool("stated outside"):  # the namespace of the split has the last word
        outside = {"must_be_exhaustive": h.bool("outside")}
        must = outside["must_be_exhaustive"] if must is None else must
    k, r = h.outcome(h.mod(SC + "split_key_value_store").main, P.Parameters.from_mapping(dict(outside, input={"type": "zip", "path": str(d / "in.zip")}, explicit_split=ns)))
    unknown = any("unknown" in x for x in parts)
    missed = set(want) - {x for p in parts for x in p}
    if unknown:
        h.cover("unknown key")
        h.ensure("a key which is not in the store is a RuntimeError", k == "raise" and isinstance(r, RuntimeError), r)
        return
    if missed and must is not False:
        h.cover("not exhaustive")
        h.ensure("a split leaving out a key is a RuntimeError", k == "raise" and isinstance(r, RuntimeError), r)
        return
    h.cover("allowed not to be exhaustive" if missed else "split")
    h.ensure("the split is accepted", k == "return", r)
    for i, keys in enumerate(parts):
        got = content(m, d / "o" / ("%d.zip" % i))
        h.ensure("each part holds exactly its keys with their values", got == {x: want[x] for x in keys}, (got, keys))


@contract("C18.join", prove=False, covers=["joined", "duplicate"], scope="up to 3 stores of up to 2 keys (random: 4)", **OPTS)
def join(h):
    m, P, d = shared(h)
    stores = [store(h, m, d / ("%d.zip" % i), "store%d" % i, 2, 4) for i in range(h.size("stores", 0, 3, 4))]
    lines = []
    for i in range(len(stores)):
        if h.bool("comment") and h.bool("really"):
            lines += ["# comment", ""]
        lines.append(str(d / ("%d.zip" % i)))
    (d / "list").write_text("\n".join(lines) + "\n", encoding="utf-8")
    k, r = h.outcome(h.mod(SC + "join_key_value_stores").main, P.Parameters.from_mapping({"input_store_list_file": str(d / "list"), "output": {"type": "zip", "path": str(d / "out.zip")}}))
    if len({x for s in stores for x in s}) < sum(map(len, stores)):
        h.cover("duplicate")
        h.ensure("a key in two stores is a RuntimeError", k == "raise" and isinstance(r, RuntimeError), r)
        return
    h.cover("joined")
    h.ensure("the stores can be joined", k == "return", r)
    h.ensure("the result holds all keys of all stores with their values", content(m, d / "out.zip") == {x: v for s in stores for x, v in s.items()}, stores)


@contract("C18.downsample", prove=False, covers=["all", "some"], scope="stores of up to 4 keys (random: 9)", **OPTS)
def downsample(h):
    m, P, d = shared(h)
    want = store(h, m, d / "in.zip")
    n = h.int("sample", small=(1, 5), wide=(1, 12)) * h.choice("times", [1, 1, 6])
    h.cover("all" if n >= len(want) else "some")
    seed = h.choice("seed", [None, 0, 3])
    got = []
    for o in ("one.zip", "two.zip"):
        ps = {"input": {"type": "zip", "path": str(d / "in.zip")}, "num_to_sample": n, "output_zip_path": str(d / "o" / o)}
        if seed is not None:
            ps["random_seed"] = seed
        k, r = h.outcome(h.mod(SC + "downsample_key_value_store").main, P.Parameters.from_mapping(ps))
        h.ensure("the store can be sampled", k == "return", r)
        got.append(content(m, d / "o" / o))
    h.ensure("as many keys as asked for, or all there are", len(got[0]) == min(n, len(want)), got)
    h.ensure("keys of the store with their values", all(want.get(k) == v for k, v in got[0].items()), got)
    h.ensure("the sample is the same each time", got[0] == got[1], got)


@contract("C18.directory", prove=False, covers=["identity", "stripped", "clash"], scope="directories of up to 4 files (random: 9)", **OPTS)
def directory(h):
    m, P, d = shared(h)
    names = ["a", "a.txt", "a.txt.gz", ".b", "c d", "\u00e9.x", "d."]
    files = {}
    (d / "in").mkdir()
    for _ in range(h.size("files", 0, 3, 7)):
        files[h.choice("name", names)] = h.choice("value", VALUES)
    for n, v in files.items():
        if h.bool("a link"):
            # to a file elsewhere
            (d / "elsewhere").mkdir(exist_ok=True)
            (d / "elsewhere" / n).write_bytes(v)
            (d / "in" / n).symlink_to(d / "elsewhere" / n)
        else:
            (d / "in" / n).write_bytes(v)
    ps = {"input_directory": str(d / "in"), "output": {"type": "zip", "path": str(d / "out.zip")}}
    fn = h.choice("key function", [None, "identity", "strip_one_extension"])
    if fn:
        ps["key_function"] = fn

    def key(n):
        if fn != "strip_one_extension":
            return n
        i = n.rfind(".")
        return n[:i] if 0 < i < len(n) - 1 else n

    k, r = h.outcome(h.mod(SC + "directory_to_key_value_store").main, P.Parameters.from_mapping(ps))
    keys = [key(n) for n in files]
    if len(set(keys)) < len(keys):
        h.cover("clash")
        h.ensure("two files with the same key are a ValueError", k == "raise" and isinstance(r, ValueError), r)
        return
    h.cover("stripped" if fn == "strip_one_extension" else "identity")
    h.ensure("the directory can be copied", k == "return", r)
    h.ensure("each file is there under its key", content(m, d / "out.zip") == {key(n): v for n, v in files.items()}, files)


@contract("C18.tar_gz_to_zip", prove=False, covers=["streamed", "unpacked", "large file left out", "existing file replaced"], scope="archives of up to 3 files (random: 6)", **OPTS)
def tar_to_zip(h):
    m, P, d = shared(h)
    ext, mode = h.choice("name", [(".tar", "w"), (".tgz", "w:gz"), (".tar.gz", "w:gz"), (".other", "w")])
    stem = h.choice("stem", ["x", "x.tar", "a.b", "x.tgz"])
    unpack = h.bool("unpacked")
    members = {}
    with tarfile.open(d / (stem + ext), mode) as t:
        for i in range(h.size("members", 0, 3, 6)):
            n = h.choice("member", ["a", "b.txt", "c d"] + ([] if unpack else ["s/e", "s/f/g"]))
            if n in members:
                continue
            members[n] = h.choice("value", VALUES)
            if not unpack and h.bool("directory"):
                ti = tarfile.TarInfo("dir%d" % i)
                ti.type = tarfile.DIRTYPE
                t.addfile(ti)
            ti = tarfile.TarInfo(n)
            ti.size = len(members[n])
            ti.mtime = 1500000000
            t.addfile(ti, io.BytesIO(members[n]))
    exp = dict(members)
    out = d / ((stem if ext != ".other" else stem + ext) + ".zip")
    args = ["prog", str(d / (stem + ext))]
    if unpack:
        args.append("--dont-stream")
        h.cover("unpacked")
    else:
        h.cover("streamed")
        if h.bool("omit large files"):
            cutoff = h.choice("cutoff in bytes", [0, 1, 2, 4999, 5000])
            args += ["--omit-large-files", "--large-file-cutoff", repr(cutoff / 1e9)]
            exp = {k: v for k, v in exp.items() if len(v) <= cutoff}
            if exp != members:
                h.cover("large file left out")
        elif h.bool("cutoff without omission"):
            args += ["--large-file-cutoff", repr(h.choice("cutoff in bytes", [0, 1]) / 1e9)]
    if h.bool("output exists"):
        h.cover("existing file replaced")
        with zipfile.ZipFile(out, "w") as z:
            z.writestr("old", "old")
    before, argv = os.getcwd(), sys.argv
    (d / "cwd").mkdir()
    os.chdir(d / "cwd")
    sys.argv = args
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            k, r = h.outcome(quiet, h.mod(SC + "tar_gz_to_zip").main)
        left = os.listdir(d / "cwd")
    finally:
        os.chdir(before)
        sys.argv = argv
    h.ensure("the archive can be converted", k == "return", r)
    h.ensure("nothing is left in the working directory", not left, left)
    with zipfile.ZipFile(out) as z:
        h.ensure("the zip is named after the archive and holds exactly its files", sorted(z.namelist()) == sorted(exp), (z.namelist(), exp))
        h.ensure("each file has its content", all(z.read(n) == v for n, v in exp.items()))


@contract("C18.text_at_offsets", prove=False, covers=["within"], scope="texts of up to 4 characters (random: 12)", **OPTS)
def text_at_offsets(h):
    m, P, d = shared(h)
    text = h.text("text", "a\u4e2d\U0001f600\r\n\ufeff", 4, 12)
    h.assume(text != "")
    a = h.size("start", 0, len(text) - 1)
    b = h.size("end", a + 1, len(text))
    h.cover("within")
    (d / "t").write_bytes(text.encode("utf-8"))
    argv, sys.argv = sys.argv, ["prog", str(d / "t"), str(a), str(b)]
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        k, r = h.outcome(h.mod(SC + "text_at_offsets").main)
        got = sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdout = argv, out
    h.ensure("the characters from start up to but excluding end, counted as code points", k == "return" and got == text[a:b] + "\n", (text, a, b, got, r))


@contract("C18.seeds", prove=False, covers=["split", "sample"], scope="one store of 12 keys, 8 seeds", runs=40, rand=20, modules=BASE)
def seeds(h):
    m, P, d = shared(h)
    want = {"k%02d" % i: b"%d" % i for i in range(12)}
    with m.KeyValueSink.zip_bytes_sink(d / "in.zip") as s:
        for k, v in want.items():
            s.put(k, v)
    inp = {"type": "zip", "path": str(d / "in.zip")}
    what = h.choice("what", ["split", "sample"])
    h.cover(what)

    def run(i, seed):
        ps = {"input": inp, **seed}
        if what == "split":
            h.mod(SC + "split_key_value_store").main(P.Parameters.from_mapping({**ps, "num_slices": 3, "output_dir": str(d / ("o%d" % i))}))
            return [sorted(content(m, d / ("o%d" % i) / ("%d.zip" % j))) for j in range(3)]
        h.mod(SC + "downsample_key_value_store").main(P.Parameters.from_mapping({**ps, "num_to_sample": 5, "output_zip_path": str(d / ("o%d.zip" % i))}))
        return sorted(content(m, d / ("o%d.zip" % i)))

    got = [run(i, {"random_seed": i}) for i in range(1, 9)]
    h.ensure("another seed may give another result", any(x != got[0] for x in got), got)
    if what == "split":
        h.ensure("without a seed, keys are dealt out in their order", run(9, {}) == [["k%02d" % i for i in range(12) if i % 3 == j] for j in range(3)])
    k, r = h.outcome(run, 10, {"random_seed": "x"})
    h.ensure("a seed is a number", k == "raise" and isinstance(r, P.ParameterError), r)
    if what == "split":
        for ps in ({}, {"num_slices": 2, "explicit_split": {"must_be_exhaustive": False}}):
            k, r = h.outcome(h.mod(SC + "split_key_value_store").main, P.Parameters.from_mapping({"input": inp, "output_dir": str(d / "x"), **ps}))
            h.ensure("exactly one kind of split is asked for", k == "raise" and isinstance(r, P.ParameterError), (ps, r))


@contract("C18.programs", prove=False, covers=["split", "join", "sample", "directory", "convert", "text"], scope="each program run once as a process", runs=6, rand=0, modules=BASE)
def programs(h):
    """run the way a user does"""
    m, P, d = shared(h)
    want = {"a": b"1", "b": b"2"}
    with m.KeyValueSink.zip_bytes_sink(d / "in.zip") as s:
        for k, v in want.items():
            s.put(k, v)
    inp = {"type": "zip", "path": str(d / "in.zip")}
    out = {"type": "zip", "path": str(d / "out.zip")}
    what = h.choice("what", ["split", "join", "sample", "directory", "convert", "text"])
    h.cover(what)
    args = None
    if what == "split":
        script, ps = "split_key_value_store", {"input": inp, "num_slices": 1, "output_dir": str(d / "o")}
    elif what == "join":
        (d / "list").write_text(str(d / "in.zip"), encoding="utf-8")
        script, ps = "join_key_value_stores", {"input_store_list_file": str(d / "list"), "output": out}
    elif what == "sample":
        script, ps = "downsample_key_value_store", {"input": inp, "num_to_sample": 5, "output_zip_path": str(d / "out.zip")}
    elif what == "directory":
        (d / "in").mkdir()
        for k, v in want.items():
            (d / "in" / k).write_bytes(v)
        script, ps = "directory_to_key_value_store", {"input_directory": str(d / "in"), "output": out}
    elif what == "convert":
        script = "tar_gz_to_zip"
        with tarfile.open(d / "out.tgz", "w:gz") as t:
            for k, v in want.items():
                ti = tarfile.TarInfo(k)
                ti.size, ti.mtime = len(v), 1500000000
                t.addfile(ti, io.BytesIO(v))
        args = [str(d / "out.tgz")]
    else:
        script = "text_at_offsets"
        (d / "t").write_text("hello", encoding="utf-8")
        args = [str(d / "t"), "1", "3"]
    if args is None:
        (d / "p.params").write_text(json.dumps(ps), encoding="utf-8")
        args = [str(d / "p.params")]
    main = h.mod(SC + script).__file__
    r = subprocess.run([sys.executable, main] + args, cwd=str(d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100, env=dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.dirname(main)))))
    h.ensure("the program succeeds", r.returncode == 0, r.stdout[-600:])
    if what == "text":
        h.ensure("the program writes the text", r.stdout == b"el\n", r.stdout)
        return
    got = d / "o" / "0.zip" if what == "split" else d / "out.zip"
    if what == "convert":
        with zipfile.ZipFile(got) as z:
            res = {n: z.read(n) for n in z.namelist()}
    else:
        res = content(m, got)
    h.ensure("the program does its work", res == want, res)


# --------------------------------------------------------------- proofs, for stores of any size
class Given:
    """parameters: what the accessors give is their contract (properties C11 and C21)"""

    def __init__(self, h, **given):
        self.h, self.given = h, given

    def value(self, kind, name, default=None):
        if name in self.given:
            k, v = self.given[name]
            if k != kind:
                raise self.h.C.Unsupported("parameter %s read as %s" % (name, kind))
            return v
        return default

    def required(self, kind, name):
        if name not in self.given:
            raise self.h.C.Unsupported("parameter %s" % name)
        return self.value(kind, name)

    def __contains__(self, name):
        return name in self.given

    def positive_integer(self, name):
        return self.required("positive", name)

    def integer(self, name, *a, **k):
        if a or set(k) - {"default"}:
            raise self.h.C.Unsupported("options %r" % (k,))
        return self.value("integer", name, k.get("default"))

    def optional_positive_integer(self, name):
        return self.value("positive", name)

    def creatable_file(self, name):
        return self.required("creatable file", name)

    def existing_file(self, name):
        return self.required("existing file", name)

    def existing_directory(self, name):
        return self.required("existing directory", name)

    def creatable_directory(self, name):
        return self.required("creatable directory", name)

    def boolean(self, name, *, default=None):
        return self.value("boolean", name, default)

    def optional_string(self, name, valid=None):
        return self.value("string", name)

    def namespace(self, name):
        return self.required("namespace", name)

    def path_list_from_file(self, name, **k):
        return self.required("path list", name)

    def assert_exactly_one_present(self, names):
        if sum(n in self.given for n in names) != 1:
            raise self.h.mod("vistautils.parameters").ParameterError(names)


class Beneath:
    """a source for an arbitrary mapping: what its methods do is the contract of KeyValueSource (C16, C17)"""

    def __init__(self, h, mapping):
        self.h, self.map, self.opened = h, mapping, False

    def __enter__(self):
        self.opened = True
        return self

    def __exit__(self, *a):
        self.opened = False
        return None

    def used(self):
        self.h.ensure("a source is used while it is open", self.opened)

    def keys(self):
        self.used()
        return self.map

    def get(self, key, _default=None):
        self.used()
        k = self.h.A.any_term(key)
        return self.map.get_at(k) if self.h.C.mkbool(self.map.has(k)) else _default

    def __getitem__(self, key):
        self.used()
        k = self.h.A.any_term(key)
        if not self.h.C.mkbool(self.map.has(k)):
            raise KeyError(key)
        return self.map.get_at(k)

    def items(self, key_filter=None):
        self.used()
        return self.map.items() if key_filter is None else self.h.filtered(self.map.items(), lambda kv: key_filter(kv[0]))


class Log:
    """a sink which records what is put into it; that keys may not be repeated is up to the obligations"""

    def __init__(self, h):
        self.h, self.puts, self.opened, self.left = h, h.S.mklist([]), False, []

    def __enter__(self):
        self.opened = True
        return self

    def __exit__(self, *a):
        self.opened = False
        self.left.append(a)

    def put(self, key, value):
        self.h.ensure("a sink is used while it is open", self.opened)
        self.puts.append((key, value))

    __setitem__ = put


def zip_sinks(h, m, made):
    """stores written are zip stores: `made` records the paths with their sinks"""

    class Sinks:
        @staticmethod
        def zip_bytes_sink(path, **k):
            if k:
                raise h.C.Unsupported("options %r" % k)
            made.append((path, Log(h)))
            return made[-1][1]

    h.patch(m, "KeyValueSink", Sinks)


@contract("C18.sample", concrete=False, covers=["all", "some"], **OPTS)
def sample(h):
    """downsampling a store of any size to any number of keys, with any seed, twice"""
    m = h.mod(SC + "downsample_key_value_store")
    z3, A, C, S = h.z3, h.A, h.C, h.S
    want = h.any_map("store")
    n = h.int("number")
    h.assume(n > 0)
    seed = h.choice("seed", ["given", "not given"])
    given = {"num_to_sample": ("positive", n), "output_zip_path": ("creatable file", "OUT")}
    if seed == "given":
        given["random_seed"] = ("integer", h.int("seed"))
    PERM = h.fn("shuffled", "int", "int", "int", "int")
    BACK = h.fn("shuffled_back", "int", "int", "int", "int")

    class Random:
        """the documented contract of random.Random: shuffling permutes a list, the way determined by the seed"""

        def __init__(self, x=None):
            self.state = C.cur().const("unseeded", z3.IntSort()) if x is None else C.I(x)

        def shuffle(self, xs):
            old = S.consume(xs)
            s, size = self.state, old.n
            self.state = C.cur().const("state", z3.IntSort())

            def at(i):
                j = PERM(s, size, i)
                inside = z3.And(i >= 0, i < size)
                C.cur().axiom(z3.Implies(inside, z3.And(j >= 0, j < size, BACK(s, size, j) == i)))
                S.index_term(C.cur(), j)
                return old.at(j)

            xs._set(S.SymSeq(size, at))

    class Module:
        pass

    Module.Random = Random
    hidden = Random()
    Module.shuffle = staticmethod(lambda xs: hidden.shuffle(xs))
    Module.seed = staticmethod(lambda x=None: hidden.__init__(x))
    h.patch(m, "random", Module)
    h.patch(m, "byte_key_value_source_from_params", lambda params: Beneath(h, want))
    made = []
    zip_sinks(h, m, made)
    outs = []
    claim = h.choice("claim", ["number", "distinct", "same"])
    for _ in range(2 if claim == "same" else 1):
        m.main(Given(h, **given))
        outs.append(S.consume(made[-1][1].puts))
        h.ensure("one store is written, to the path named", len(made) == len(outs) and made[-1][0] == "OUT", made)
        h.ensure("the store written is complete", not made[-1][1].opened and len(made[-1][1].left) == 1)
    got = outs[0]
    size = want.n
    if claim == "number":
        h.cover("all" if C.mkbool(C.I(n) >= size) else "some")
        h.ensure("as many keys as asked for, or all there are", C.mkbool(got.n == z3.If(C.I(n) < size, C.I(n), size)))
        i = C.cur().const("position", z3.IntSort())
        S.index_term(C.cur(), i)
        C.cur().assume(z3.And(i >= 0, i < got.n))
        k, v = got.at(i)
        h.ensure("each is a key of the store", C.mkbool(want.has(k.t)))
        h.ensure("with its value", h.same(v, want.get_at(k.t)))
    elif claim == "distinct":
        i, j = C.cur().const("one", z3.IntSort()), C.cur().const("other", z3.IntSort())
        S.index_term(C.cur(), i)
        S.index_term(C.cur(), j)
        C.cur().assume(z3.And(i >= 0, i < j, j < got.n))
        h.ensure("no key is there twice", h.Not(h.same(got.at(i)[0], got.at(j)[0])))
    else:
        h.ensure("as many each time", C.mkbool(outs[0].n == outs[1].n))
        h.ensure_sequence("the same each time", outs[1], outs[0].n, lambda i: outs[0].at(C.I(i)))


@contract("C18.files", concrete=False, covers=["identity", "stripped", "no file"], **OPTS)
def files(h):
    """copying a directory with any number of entries; what a path is is answered by the contract of pathlib"""
    m = h.mod(SC + "directory_to_key_value_store")
    A, C, S, MM = h.A, h.C, h.S, h.MM
    NAME, STEM, FILE, DATA = h.fn("name", "any", "any"), h.fn("stem", "any", "any"), h.fn("is_file", "any", "bool"), h.fn("bytes", "any", "any")
    h.model_class(
        pathlib.Path,
        {
            "name": lambda t: MM.SymStr(NAME(t)),
            "stem": lambda t: MM.SymStr(STEM(t)),
            "is_file": lambda t: lambda: C.mkbool(FILE(t)),
            "read_bytes": lambda t: lambda: A.SymAny(DATA(t)),
        },
    )
    entries = h.any_list("entries")
    paths = S.SymSeq(entries.n, lambda i: A.SymOf(entries.at(i).t, pathlib.Path))

    class Directory:
        def rglob(self, pattern):
            if pattern != "*":
                raise C.Unsupported("pattern %r" % (pattern,))
            return paths

    log = Log(h)

    def sink(params, **k):
        if set(k) - {"eval_context"}:
            raise C.Unsupported("options %r" % (k,))
        return log

    h.patch(m, "byte_key_value_sink_from_params", sink)
    fn = h.choice("key function", [None, "identity", "strip_one_extension"])
    given = {"input_directory": ("existing directory", Directory())}
    if fn:
        given["key_function"] = ("string", fn)
    h.cover("stripped" if fn == "strip_one_extension" else "identity")
    m.main(Given(h, **given))
    KEY = STEM if fn == "strip_one_extension" else NAME

    def kept(i):
        t = entries.at(i.t).t
        if not C.mkbool(FILE(t)):
            h.cover("no file")
            return []
        return [(MM.SymStr(KEY(t)), A.SymAny(DATA(t)))]

    h.ensure("the store written is complete", not log.opened and len(log.left) == 1)
    h.ensure_filtered("each file, under its key, with its content", log.puts, entries.n, kept)


@contract("C18.members", concrete=False, covers=["streamed", "unpacked", "no file", "omitted", "kept", "replaced"], **OPTS)
def members(h):
    """converting an archive with any number of members; tarfile and zipfile are answered by their contracts"""
    m = h.mod(SC + "tar_gz_to_zip")
    A, C, S, MM, z3 = h.A, h.C, h.S, h.MM, h.z3
    NAME, SIZE, FILE, DATA = h.fn("name", "any", "any"), h.fn("size", "any", "int"), h.fn("is_file", "any", "bool"), h.fn("data", "any", "any")
    TI = tarfile.TarInfo
    h.model_class(TI, {"name": lambda t: MM.SymStr(NAME(t)), "isfile": lambda t: lambda: C.mkbool(FILE(t)), "size": lambda t: C.mkint(SIZE(t))})
    things = h.any_list("members")
    ms = S.SymSeq(things.n, lambda i: A.SymOf(things.at(i).t, TI))
    name = h.choice("name", ["x.tar", "a/x.tgz", "x.tar.gz", "x.tar.tgz", "x.tgz.tar", "x.gz", "xtar", "x.other"])
    unpack, omit, cutoff = h.choice("options", [(True, False, None), (False, False, None), (False, True, None), (False, True, 0.0), (False, True, 3e-9), (False, False, 0.0)])
    exists = h.bool("output exists")
    out = name
    for e in (".tar.gz", ".tar", ".tgz"):
        if name.endswith(e):
            out = name[: -len(e)]
            break
    out += ".zip"
    args = ["prog", name] + ["--dont-stream"] * unpack + ["--omit-large-files"] * omit + (["--large-file-cutoff", repr(cutoff)] if cutoff is not None else [])
    h.patch(sys, "argv", args)
    h.patch(m, "print", lambda *a, **k: None)
    log, removed, disk = S.mklist([]), S.mklist([]), []
    there = [exists]

    class Data:
        def __init__(self, t):
            self.t = t

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def read(self):
            return A.SymAny(DATA(self.t))

    class Tar(A.SymReiterable):
        def __init__(self):
            A.SymReiterable.__init__(self, ms)

        def extractall(self):
            disk.append("unpacked")

        def extractfile(self, member):
            h.ensure("only regular files are read", C.mkbool(FILE(member.t)))
            return Data(member.t)

        def getmembers(self):
            return ms

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

    class Module:
        TarInfo = TI

        @staticmethod
        def open(n, mode="r"):
            h.ensure("the archive is opened for reading, compressed or not", n == name and mode in ("r", "r:*"), (n, mode))
            return Tar()

    state = []

    class Zip:
        def __init__(self, n, mode="r"):
            h.ensure("the output is named after the archive", str(n) == out, n)
            h.ensure("a file which is there is replaced", mode == "w" or (mode == "x" and not there[0]), mode)
            state.append("opened")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            state.append("closed")

        def writestr(self, n, data):
            log.append((n, data))

        def write(self, n, arcname=None):
            h.ensure("files are there when they are copied", disk == ["unpacked"])
            if arcname is not None:
                raise C.Unsupported("arcname")
            log.append((n, A.SymAny(h.fn("on_disk", "any", "any")(A.any_term(n)))))

    class Os:
        class path:
            @staticmethod
            def exists(n):
                h.ensure("the output is looked for", n == out, n)
                return there[0]

        @staticmethod
        def remove(n):
            if isinstance(n, str):
                h.ensure("only the output is removed", n == out and there[0], n)
                h.cover("replaced")
                there[0] = False
            else:
                removed.append(n)

    for n, x in (("tarfile", Module), ("ZipFile", Zip), ("os", Os)):
        h.patch(m, n, x)
    h.cover("unpacked" if unpack else "streamed")
    m.main()
    h.ensure("the zip file is complete", state == ["opened", "closed"], state)

    def kept(i):
        t = things.at(i.t).t
        if not C.mkbool(FILE(t)):
            h.cover("no file")
            return []
        if omit and C.mkbool(z3.ToReal(SIZE(t)) > z3.RealVal(repr((2 if cutoff is None else cutoff) * 1e9))):
            h.cover("omitted")
            return []
        h.cover("kept")
        return [(MM.SymStr(NAME(t)), A.SymAny(h.fn("on_disk", "any", "any")(NAME(t)) if unpack else DATA(t)))]

    h.ensure_filtered("exactly the regular files, but for large ones on request, with their content", log, things.n, kept)
    if unpack:
        h.ensure_filtered("what was unpacked is removed", removed, things.n, lambda i: [MM.SymStr(NAME(things.at(i.t).t))])
    else:
        h.ensure("nothing else is removed", list(removed) == [])


@contract("C18.slice", concrete=False, covers=["within"], **OPTS)
def slice_of_text(h):
    """the text at any offsets within any text"""
    m = h.mod(SC + "text_at_offsets")
    A, C = h.A, h.C
    text = h.SM.SymInput(h.string("text").t)
    path = h.string("path")
    a, b = h.int("start"), h.int("end")
    n = h.S.sym_len(text)
    h.assume(h.And(a >= 0, a < b, b <= n))
    out = []

    class File:
        opened = True

        def read(self, n=-1):
            h.ensure("the file is read once, while it is open", self.opened and n in (-1, None))
            return text

        def __enter__(self):
            return self

        def __exit__(self, *x):
            self.opened = False

    def opened(name, mode="r", encoding=None, newline=None, **k):
        if k or mode not in ("r", "rt"):
            raise C.Unsupported("options %r" % ((mode, k),))
        h.ensure("the file named is read", h.same(name, path))
        h.ensure("as UTF-8", encoding is not None and encoding.lower().replace("_", "-") in ("utf-8", "utf8"), encoding)
        h.ensure("without changing line breaks", newline in ("", "\n"), newline)
        return File()

    class Parser:
        def __init__(self, **k):
            self.names = []

        def add_argument(self, name, **k):
            if name.startswith("-") or set(k) - {"type", "help"}:
                raise C.Unsupported("argument %r" % ((name, k),))
            self.names.append((name, k.get("type", str)))

        def parse_args(self):
            h.ensure("there are three arguments", [t for _, t in self.names] == [str, int, int], self.names)
            r = Module()
            for (nm, _), v in zip(self.names, (path, a, b)):
                setattr(r, nm, v)
            return r

    class Module:
        ArgumentParser = Parser

    h.patch(m, "argparse", Module)
    h.patch(m, "open", opened)
    h.patch(m, "print", lambda *x: out.append(x))
    h.cover("within")
    m.main()
    h.ensure("one line is written", len(out) == 1 and len(out[0]) == 1, out)
    h.ensure_text("the characters from start up to but excluding end", out[0][0], [("slice", text, C.I(a), C.I(b))])


@contract("C18.joined", concrete=False, covers=["joined", "duplicate"], **OPTS)
def joined(h):
    """joining any number of stores of any size"""
    m = h.mod(SC + "join_key_value_stores")
    z3, A, C, S, MM, G = h.z3, h.A, h.C, h.S, h.MM, h.G
    I, B = C.I, C.mkbool
    paths = h.any_list("paths")
    N = paths.n
    FIRST = h.fn("first_store", "any", "int")
    maps = {}

    def at(i):
        """the store at a position of the list"""
        i = z3.simplify(I(i))
        t = paths.at(i).t
        if t.get_id() not in maps:
            maps[t.get_id()] = MM.term_map("store", t)
        return maps[t.get_id()]

    def first(k, *others):
        """the position of the first store with a key, N if there is none: the least of a set of numbers"""
        f = FIRST(k)
        p = C.cur()
        p.axiom(z3.And(f >= 0, f <= N))
        p.axiom(z3.Implies(f < N, at(f).has(k)))
        for x in others:
            x = I(x)
            p.axiom(z3.Implies(z3.And(x >= 0, x < f), z3.Not(at(x).has(k))))
        return f

    stores = []

    class Sources:
        @staticmethod
        def zip_bytes_source(path, **k):
            if k:
                raise C.Unsupported("options %r" % k)
            stores.append(path)
            return Beneath(h, MM.term_map("store", A.path_term(path)))

    h.patch(m, "KeyValueSource", Sources)

    class Out(Log):
        def put(self, key, value):
            h.ensure("a sink is used while it is open", self.opened)
            h.ensure("no key is put twice", h.Not(key in self.content), key)
            self.content = self.content.put(key, value)

        __setitem__ = put

    out = Out(h)
    out.content = MM.from_dict({})

    def sink(params, **k):
        if set(k) - {"eval_context"}:
            raise C.Unsupported("options %r" % (k,))
        return out

    h.patch(m, "byte_key_value_sink_from_params", sink)
    a0 = h.string("any key").t
    x0 = h.int("any store")
    h.assume(h.And(x0 >= 0, B(I(x0) < N)))
    h.instantiate(x0)

    class Now:
        i = None

    def seen(env):
        ss = {id(v): v for v in env.values() if type(v) is S.ESet}
        if len(ss) != 1:
            raise C.Unsupported("%d sets" % len(ss))
        return next(iter(ss.values()))

    def place(env, has):
        s = seen(env)
        s.segs = None
        set.clear(s)
        s.update(G.arbitrary_set(has))
        out.content = MM.derived(has, lambda k: at(first(k)).get_at(k))

    def check(env, say, has, extra):
        a = C.cur().const("anystring", A.ANY)
        C.cur().axiom(A.INST(a, A.const(str)))
        h.speak_of(A.SymAny(a))
        want = has(a)
        say("the keys noted are those written so far", h.iff(B(G.membership(seen(env))(a)), B(want)))
        d = out.content
        say("the keys written are those of the stores so far", B(d.has(a) == want))
        if C.cur().decide(z3.And(d.has(a), want)):
            say("with their values", h.same(d.get_at(a), at(first(a)).get_at(a)))
        say("no other store so far has a key", extra)

    def outer_has(i):
        def has(k):
            # the store reached is the first one with the key iff none before it has it
            return first(k, i, i - 1, x0) < I(i)

        return has

    def unique(i):
        i = I(i)
        return z3.Implies(z3.And(I(x0) < i, at(x0).has(a0)), first(a0, x0) == I(x0))

    def outer_state(env, i):
        Now.i = I(i)
        place(env, outer_has(I(i)))
        C.cur().assume(unique(i))
        return {}

    def outer_check(env, i, say):
        check(env, say, outer_has(I(i)), B(unique(i)))

    outer = h.invariant("scripts.join_key_value_stores.main#1", outer_state, outer_check, lambda env: [seen(env)])

    def within(j):
        def has(k):
            i = Now.i
            return z3.Or(first(k, i, x0) < i, z3.And(at(i).has(k), at(i).idx(k) < I(j)))

        return has

    def unique_in(j):
        i = Now.i
        here = z3.And(at(i).has(a0), at(i).idx(a0) < I(j))
        return z3.And(unique(i), z3.Implies(here, first(a0, i, x0) == i))

    def inner_state(env, j):
        place(env, within(j))
        C.cur().assume(unique_in(j))
        return {}

    def inner_check(env, j, say):
        check(env, say, within(j), B(unique_in(j)))

    inner = h.invariant("scripts.join_key_value_stores.main#2", inner_state, inner_check, lambda env: [seen(env)])
    inner.split = outer.split = True
    k, r = h.outcome(m.main, Given(h, input_store_list_file=("path list", paths)))
    if k == "raise":
        h.cover("duplicate")
        h.ensure("refusal is a RuntimeError", isinstance(r, RuntimeError), r)
        return
    h.cover("joined")
    h.ensure("the store written is complete", not out.opened and len(out.left) == 1)
    a = MM.SymStr(a0)
    h.speak_of(a)
    d = out.content
    f = first(a0, x0)
    h.ensure("a key of a store is written", h.implies(B(at(x0).has(a0)), B(d.has(a0))))
    h.ensure("a key written is one of a store", h.implies(B(d.has(a0)), B(z3.And(f < N, at(f).has(a0)))))
    if B(z3.And(d.has(a0), at(x0).has(a0))):
        h.ensure("with the value it has in the store", h.same(d.get_at(a0), at(x0).get_at(a0)))
        h.ensure("and is in no other store", B(f == I(x0)))


@contract("C18.parts", concrete=False, covers=["split", "unknown key", "not exhaustive"], **OPTS)
def parts(h):
    """splitting a store of any size into any number of parts of any size, given by lists of keys"""
    m = h.mod(SC + "split_key_value_store")
    z3, A, C, S, MM, G = h.z3, h.A, h.C, h.S, h.MM, h.G
    I, B = C.I, C.mkbool
    VALUE = h.fn("value", "any", "any")
    want = h.any_map("store", lambda k: A.SymOf(VALUE(k), bytes))
    spaces = h.any_list("parts")
    N = spaces.n
    FIRST, KEYSFILE, OUTFILE = h.fn("first_part", "any", "int"), h.fn("keys_file", "any", "any"), h.fn("output_file", "any", "any")
    F = lambda n, *s: h.fn("keys." + n, "any", *s)  # noqa: E731
    HAS, NUM, KEY, IDX = F("has", "any", "bool"), F("n", "int"), F("key", "int", "any"), F("idx", "any", "int")
    made = {}

    def keys_in(f):
        """the keys listed in a file, each once"""
        if f.get_id() not in made:
            fn = {"n": NUM(f), "key": lambda i: KEY(f, i), "idx": lambda k: IDX(f, k)}
            from immutablecollections import immutableset

            made[f.get_id()] = (G.StrSet(lambda k: HAS(f, k), lambda k: None, lambda what: fn[what], None, immutableset()), f)
        return made[f.get_id()][0]

    def at(i):
        return keys_in(KEYSFILE(spaces.at(z3.simplify(I(i))).t))

    def first(k, *others):
        """the position of the first part with a key, N if there is none"""
        f = FIRST(k)
        p = C.cur()
        p.axiom(z3.And(f >= 0, f <= N))
        p.axiom(z3.Implies(f < N, at(f).has(k)))
        for x in others:
            x = I(x)
            p.axiom(z3.Implies(z3.And(x >= 0, x < f), z3.Not(at(x).has(k))))
        return f

    class Part:
        pass

    def file_of(kind, name, fn):
        def field(t):
            def f(n):
                if n != name:
                    raise C.Unsupported("parameter %s" % n)
                return A.SymAny(fn(t))

            return f

        return field

    h.model_class(
        Part,
        {
            "existing_file": file_of("existing file", "keys_file", KEYSFILE),
            "creatable_file": file_of("creatable file", "output_file", OUTFILE),
            "namespace_prefix": lambda t: MM.SymStr(h.fn("prefix", "any", "any")(t)),
        },
    )
    variant, must = h.choice("must be exhaustive", [("not said", True), ("there", True), ("there", False), ("outside", False), ("outside", True), ("both", False), ("both", True)])
    given = {"explicit_split": None}
    ns = Given(h, **({"must_be_exhaustive": ("boolean", must)} if variant in ("there", "both") else {}))
    ns.sub_namespaces = lambda: S.SymSeq(N, lambda i: A.SymOf(spaces.at(i).t, Part))
    given["explicit_split"] = ("namespace", ns)
    if variant in ("outside", "both"):
        given["must_be_exhaustive"] = ("boolean", must if variant == "outside" else not must)

    a0 = h.string("any key").t
    x0 = h.int("any part")
    h.assume(h.And(x0 >= 0, B(I(x0) < N)))
    h.instantiate(x0)

    class Now:
        i, asked, done = None, None, z3.BoolVal(False)

    class Source(Beneath):
        def get(self, key, _default=None):
            Now.asked = A.any_term(key)
            return Beneath.get(self, key, _default)

        def __getitem__(self, key):
            Now.asked = A.any_term(key)
            return Beneath.__getitem__(self, key)

    class Sink(Log):
        def __init__(self):
            Log.__init__(self, h)
            self.content = MM.from_dict({})

        def put(self, key, value):
            h.ensure("a sink is used while it is open", self.opened)
            h.ensure("no key is put twice", h.Not(key in self.content), key)
            self.content = self.content.put(key, value)

        __setitem__ = put

        def __exit__(self, *exc):
            Log.__exit__(self, *exc)
            if exc[0] is None:
                a = C.cur().const("anystring", A.ANY)
                C.cur().axiom(A.INST(a, A.const(str)))
                here = at(Now.i).has(a)
                h.ensure("a part holds exactly its keys", B(self.content.has(a) == here))
                if C.cur().decide(z3.And(self.content.has(a), here)):
                    h.ensure("with their values", h.same(self.content.get_at(a), want.get_at(a)))
                Now.done = z3.Or(Now.done, Now.i == I(x0))

    class Sinks:
        @staticmethod
        def zip_bytes_sink(path, **k):
            if k:
                raise C.Unsupported("options %r" % k)
            h.ensure("a part is written to its own file", h.same(path, A.SymAny(OUTFILE(spaces.at(Now.i).t))))
            Now.sink = Sink()
            return Now.sink

    h.patch(m, "KeyValueSink", Sinks)
    source = Source(h, want)
    h.patch(m, "byte_key_value_linear_source_from_params", lambda params: source)
    h.patch(m, "file_lines_to_set", lambda f: keys_in(A.any_term(f)))
    h.patch(m, "str_list_limited", lambda xs, n: "...")

    def immutableset(it=None):
        return it if isinstance(it, G.StrSet) else G.str_set(S.consume(it))

    h.patch(m, "immutableset", immutableset)

    def copied(env):
        xs = {id(v): v for v in env.values() if type(v) is S.EList}
        if len(xs) != 1:
            raise C.Unsupported("%d lists" % len(xs))
        return next(iter(xs.values()))

    def there(lst):
        """the strings in a list"""
        if lst.segs is None:
            return lambda k: z3.Or(*[k == A.any_term(x) for x in lst] or [z3.BoolVal(False)])
        fs = []
        for s in lst.segs:
            if isinstance(s, S.GenChunk):
                mp = getattr(s.comp.whole, "map", None)
                if mp is None:
                    raise C.Unsupported("list of other things")
                fs.append(mp.has)
            else:
                fs.append(lambda k, s=s: k == A.any_term(s))
        return lambda k: z3.Or(*[f(k) for f in fs] or [z3.BoolVal(False)])

    def outer_has(i):
        return lambda k: first(k, i, i - 1, x0) < I(i)

    def known(i):
        i = I(i)
        return z3.Implies(z3.And(I(x0) < i, at(x0).has(a0)), want.has(a0))

    def outer_state(env, i):
        Now.i = I(i)
        h.put_bag(copied(env), outer_has(Now.i))
        Now.done = C.cur().const("done", z3.BoolSort())
        C.cur().assume(z3.And(known(i), z3.Implies(I(x0) < Now.i, Now.done)))
        return {}

    def outer_check(env, i, say):
        a = C.cur().const("anystring", A.ANY)
        C.cur().axiom(A.INST(a, A.const(str)))
        h.speak_of(A.SymAny(a))
        say("the keys copied are those of the parts so far", B(there(copied(env))(a) == outer_has(I(i))(a)))
        say("they are in the store", B(known(i)))
        say("each part so far has been written", B(z3.Implies(I(x0) < I(i), Now.done)))

    outer = h.invariant("scripts.split_key_value_store._explicit_split#1", outer_state, outer_check, lambda env: [copied(env)])

    def within(j):
        def has(k):
            return z3.And(at(Now.i).has(k), at(Now.i).idx(k) < I(j))

        return has

    def known_in(j):
        return z3.And(known(Now.i), z3.Implies(within(j)(a0), want.has(a0)))

    def inner_state(env, j):
        h.put_bag(copied(env), lambda k: z3.Or(first(k, Now.i, x0) < Now.i, within(j)(k)))
        Now.sink.content = MM.derived(within(j), want.get_at)
        C.cur().assume(known_in(j))
        return {}

    def inner_check(env, j, say):
        a = C.cur().const("anystring", A.ANY)
        C.cur().axiom(A.INST(a, A.const(str)))
        h.speak_of(A.SymAny(a))
        here = within(j)(a)
        say("the keys copied are those so far", B(there(copied(env))(a) == z3.Or(first(a, Now.i, x0) < Now.i, here)))
        say("the part holds its keys so far", B(Now.sink.content.has(a) == here))
        if C.cur().decide(z3.And(Now.sink.content.has(a), here)):
            say("with their values", h.same(Now.sink.content.get_at(a), want.get_at(a)))
        say("they are in the store", B(known_in(j)))

    inner = h.invariant("scripts.split_key_value_store._explicit_split#2", inner_state, inner_check, lambda env: [copied(env)])
    inner.split = outer.split = True
    k, r = h.outcome(m.main, Given(h, **given))
    h.ensure("the source is left", not source.opened)
    if k == "raise":
        h.ensure("refusal is a RuntimeError", isinstance(r, RuntimeError), repr(r))
        h.instantiate(0)
        if Now.asked is not None:
            h.cover("unknown key")
            h.ensure("refused because of a key which is not in the store", B(z3.And(at(Now.i).has(Now.asked), z3.Not(want.has(Now.asked)))))
        else:
            h.cover("not exhaustive")
            h.ensure("refused only if the split must be exhaustive", must)
            h.ensure("and there is a key in no part", h.exists_key(want, lambda k: first(k) >= N, at=[0]))
        return
    h.cover("split")
    h.speak_of(A.SymAny(a0))
    h.ensure("every part is written", B(Now.done))
    h.ensure("every key asked for is in the store", B(z3.Implies(at(x0).has(a0), want.has(a0))))
    if must:
        h.ensure("every key of the store is in a part", B(z3.Implies(want.has(a0), first(a0) < N)))


@contract("C18.slices", concrete=False, covers=["in order", "shuffled"], **OPTS)
def slices(h):
    """splitting a store of any size evenly into any number of slices, twice"""
    m = h.mod(SC + "split_key_value_store")
    z3, A, C, S, MM = h.z3, h.A, h.C, h.S, h.MM
    I, B = C.I, C.mkbool
    want = h.any_map("store")
    N = want.n
    n = h.int("slices")
    h.assume(n > 0)
    PATH, SINK = h.fn("path_of_slice", "int", "any"), h.fn("sink", "any", "any")
    PERM, BACK, STATE = h.fn("shuffled", "int", "int", "int", "int"), h.fn("shuffled_back", "int", "int", "int", "int"), h.fn("after_seeding", "int", "int")
    claim = h.choice("claim", ["files", "slice", "value", "once", "all", "order", "same"])
    seed = h.choice("seed", ["given", "not given"]) if claim not in ("files",) else "not given"
    given = {"num_slices": ("positive", n)}
    if seed == "given":
        s = h.int("seed")
        h.assume(s > 0)
        given["random_seed"] = ("positive", s)

    class Directory:
        def __truediv__(self, x):
            if isinstance(x, str):
                return "DIR/" + x
            ps = getattr(x, "parts", ())
            if len(ps) != 2 or ps[0][0] != "int" or ps[1] != ".zip":
                raise C.Unsupported("slices with other names")
            return A.SymOf(PATH(I(ps[0][1])), pathlib.Path)

    given["output_dir"] = ("creatable directory", Directory())

    class Run:
        def __init__(self):
            self.written, self.entered, self.puts, self.open, self.state = [], S.mklist([]), S.mklist([]), [], None
            self.source = Beneath(h, want)

    run = [None]

    class Text:
        def __init__(self, path):
            self.path = path

        def write(self, text):
            run[0].written.append((self.path, text))

    class CharSink:
        to_file = staticmethod(lambda path: Text(path))

    class Store:
        pass

    def put(t):
        def f(key, value):
            h.ensure("a sink is used while it is open", run[0].open == ["open"], run[0].open)
            run[0].puts.append((A.SymAny(t), key, value))

        return f

    h.model_class(Store, {"put": put})

    class Sinks:
        @staticmethod
        def zip_bytes_sink(path, **k):
            if k:
                raise C.Unsupported("options %r" % k)
            return A.SymOf(SINK(A.path_term(path)), Store)

    class Stack:
        """a stack of contexts"""

        def __enter__(self):
            run[0].open.append("open")
            return self

        def __exit__(self, *a):
            run[0].open.append("closed")

        def enter_context(self, x):
            run[0].entered.append(x)
            return x

    def reseed(x=None):
        run[0].state = STATE(I(x)) if x is not None else None

    def shuffle(xs):
        old = S.consume(xs)
        st = run[0].state if run[0].state is not None else C.cur().const("unseeded", z3.IntSort())
        run[0].state = None
        size = old.n

        def at(i):
            j = PERM(st, size, i)
            C.cur().axiom(z3.Implies(z3.And(i >= 0, i < size), z3.And(j >= 0, j < size, BACK(st, size, j) == i)))
            S.index_term(C.cur(), j)
            return old.at(j)

        run[0].shuffled = (st, size, old)
        xs._set(S.SymSeq(size, at))

    class Random:
        pass

    Random.seed, Random.shuffle = staticmethod(reseed), staticmethod(shuffle)
    for nm, x in (("random", Random), ("ExitStack", Stack), ("CharSink", CharSink), ("KeyValueSink", Sinks)):
        h.patch(m, nm, x)
    h.patch(m, "byte_key_value_linear_source_from_params", lambda params: run[0].source)
    runs = []
    for _ in range(2 if claim == "same" else 1):
        run[0] = Run()
        run[0].shuffled = None
        m.main(Given(h, **given))
        runs.append(run[0])
    got = S.consume(run[0].puts)
    h.cover("in order" if seed == "not given" else "shuffled")

    def position(name):
        i = C.cur().const(name, z3.IntSort())
        S.index_term(C.cur(), i)
        C.cur().assume(z3.And(i >= 0, i < got.n))
        return i

    if claim == "files":
        h.ensure("the slices are named in one file", len(run[0].written) == 1 and str(run[0].written[0][0]) == "DIR/_slices.txt", run[0].written)
        h.ensure_text("one on each line", run[0].written[0][1], [("join", "\n", n, lambda i: [("str", A.SymAny(PATH(I(i))))])])
        h.ensure_sequence("each slice is opened", S.consume(run[0].entered), n, lambda i: A.SymAny(SINK(PATH(I(i)))))
        h.ensure("and closed", run[0].open == ["open", "closed"] and not run[0].source.opened, run[0].open)
    elif claim == "slice":
        i = position("position")
        j = C.symbolic_mod(i, I(n))
        h.ensure("loop invariant of the deal: each slice in turn gets a key", h.same(got.at(i)[0], A.SymAny(SINK(PATH(j)))))
    elif claim == "value":
        _, k, v = got.at(position("position"))
        h.ensure("what is put is a key of the store", B(want.has(A.any_term(k))))
        h.ensure("with its value", h.same(v, want.get_at(A.any_term(k))))
    elif claim == "once":
        h.ensure("as many keys as there are", B(got.n == N))
        i, j = position("one"), position("other")
        C.cur().assume(i < j)
        h.ensure("no key is put twice", h.Not(h.same(got.at(i)[1], got.at(j)[1])))
    elif claim == "all":
        # a sequence as long as the store, without repetition, holds every key: shown for the order used
        x = C.cur().const("place", z3.IntSort())
        C.cur().assume(z3.And(x >= 0, x < N))
        S.index_term(C.cur(), x)
        seqs = C.cur().store.get("sorted_seqs", ())
        if len(seqs) != 1:
            raise C.Unsupported("%d sorted sequences" % len(seqs))
        r = seqs[0].rank(x)
        if run[0].shuffled is not None:
            st, size, old = run[0].shuffled
            b = BACK(st, size, r)
            C.cur().axiom(z3.Implies(z3.And(r >= 0, r < size), z3.And(b >= 0, b < size, PERM(st, size, b) == r)))
            r = b
        S.index_term(C.cur(), r)
        h.ensure("loop invariant of the deal: every key is put", h.And(B(z3.And(r >= 0, r < got.n)), h.same(got.at(r)[1], MM.SymStr(want.key_at(x)))))
    elif claim == "order":
        i, j = position("one"), position("other")
        C.cur().assume(i < j)
        ks = got if run[0].shuffled is None else S.SymSeq(N, lambda x: (None, run[0].shuffled[2].at(x), None))
        if run[0].shuffled is not None:
            h.ensure("loop invariant of the deal: shuffled as the seed says", B(run[0].shuffled[0] == STATE(I(s))))
        a, b = A.any_term(ks.at(i)[1]), A.any_term(ks.at(j)[1])
        h.ensure("loop invariant of the deal: keys are taken in their order", B(h.SM.STR_ORD(a) <= h.SM.STR_ORD(b)))
    else:
        first = S.consume(runs[0].puts)
        h.ensure("as many each time", B(first.n == got.n))
        h.ensure_sequence("the same each time", got, first.n, lambda i: first.at(I(i)))
