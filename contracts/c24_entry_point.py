"""C24: programs which take a parameter file run with the parameters of that file and of the command line."""
import io
import logging
import os
import pathlib
import re
import sys

sys.path.insert(0, os.path.dirname(__file__))
from params_common import PAR, params_model, plain, private_get_by_contract, same_tree, tree  # noqa: E402
from c12_parameters_unify import Conflict, unified  # noqa: E402

from pyvc.harness import contract  # noqa: E402

import yaml  # noqa: E402

EP = "vistautils.parameters_only_entrypoint"
OPTS = dict(modules=["vistautils.range", "vistautils.io_utils", "vistautils._graph", PAR, "vistautils.logging_utils", EP], runs=2500, rand=2500)
LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10}


class Logging:
    """restores the logging configuration, and silences it meanwhile"""

    def __enter__(self):
        root = logging.getLogger()
        self.disabled = root.manager.disable
        logging.disable(logging.NOTSET)
        for x in root.manager.loggerDict.values():  # (a logging configuration file disables the loggers there are)
            x.disabled = False
        self.state = root.level, list(root.handlers)
        for x in self.state[1]:
            root.removeHandler(x)
        self.out, sys.stdout = sys.stdout, io.StringIO()
        self.err, sys.stderr = sys.stderr, io.StringIO()

    def __exit__(self, *a):
        root = logging.getLogger()
        root.setLevel(self.state[0])
        for x in list(root.handlers):
            root.removeHandler(x)
        for x in self.state[1]:
            root.addHandler(x)
        sys.stdout, sys.stderr = self.out, self.err
        logging.disable(self.disabled)


def nested(pairs):
    out = {}
    for k, v in pairs:
        d = out
        cs = k.split(".")
        for c in cs[:-1]:
            d = d.setdefault(c, {})
        d[cs[-1]] = v
    return out


@contract("C24.entry_point", prove=False, covers=["file", "given", "overridden", "added", "conflict", "no file", "failing program", "unknown level"], scope="parameters of depth 2, up to 2 overrides (random: 4)", **OPTS)
def entry_point(h):
    m = h.mod(PAR)
    e = h.mod(EP)
    d = tree(h, depth=1, leaves=["s", 7, True, "", 0, "<%E%>"], null=False)
    level = h.choice("level", [None, "DEBUG", "ERROR", "none"])
    if level:
        d["logging"] = {"root_level": level}
    pairs = []
    for _ in range(h.size("overrides", 0, 2, 4)):
        k = h.choice("name", ["a", "b", "a.b", "n.a", "n.b", "c", "a.c"])
        h.assume(all(not (k + ".").startswith(x + ".") and not (x + ".").startswith(k + ".") or x == k for x, _ in pairs))
        pairs.append((k, h.choice("value", ["v", "", "7", "%a%"])))
    over = h.choice("level given", [None, None, "WARNING"])
    if over:
        pairs.append(("logging.root_level", over))
    level = over or level
    args = []
    for k, v in pairs:
        args += ["-p", k, v]
    given = h.bool("given explicitly")
    seen, state = [], []
    fails = h.bool("failing program")

    def main(params):
        seen.append(params)
        state.append((logging.getLogger().level, sys.stdout.getvalue()))
        if fails:
            raise KeyError("program")

    kw = h.choice("named", [{"program_name": "prog"}, {}])
    if given:
        h.cover("given")
        kw["parameters"] = m.Parameters.from_mapping(d)
        missing = False
    else:
        h.cover("file")
        f = pathlib.Path(h.tmpdir()) / "x.params"
        f.write_text(yaml.safe_dump(d, sort_keys=False), encoding="utf-8")
        missing = h.bool("file missing") and h.bool("really")
        if missing:
            f.unlink()
        args.insert(0 if h.bool("file first") else len(args), str(f))
    argv, sys.argv = sys.argv, ["prog"] + args

    def loaded(x):
        return {k: loaded(v) for k, v in x.items()} if isinstance(x, dict) else "<env>" if x == "<%E%>" else x

    env = os.environ.get("E")
    os.environ["E"] = "env"
    try:
        want = unified(d if given else loaded(d), nested(pairs))
    except Conflict as x:
        want = x
    with Logging():
        try:
            k, r = h.outcome(lambda: e.parameters_only_entry_point(main, "usage", **kw))
        finally:
            sys.argv = argv
            os.environ.pop("E")
            if env is not None:
                os.environ["E"] = env
    if missing:
        h.cover("no file")
        h.ensure("a file which is not there is an error, and the program does not run", k == "raise" and isinstance(r, OSError) and not seen, r)
        return
    if isinstance(want, Conflict):
        h.cover("conflict")
        h.ensure("overriding a namespace by a parameter is an IOError, and the program does not run", k == "raise" and isinstance(r, IOError) and not seen, r)
        return
    if level == "none":
        h.cover("unknown level")
        h.ensure("an unknown logging level is a ParameterError, and the program does not run", k == "raise" and isinstance(r, m.ParameterError) and not seen, r)
        return
    if any(k in d for k, _ in pairs):
        h.cover("overridden")
    elif pairs:
        h.cover("added")
    h.ensure("the program runs once, with the parameters of the file overridden by those of the command line", len(seen) == 1 and same_tree(plain(seen[0]), want), (d, pairs, want, seen, r))
    h.ensure("logging is configured before the program runs", state[0][0] == LEVELS[level or "INFO"], (state, level))
    shown = all(str(x) in state[0][1] for x in want) and "Ran with parameters" in state[0][1]
    h.ensure("the parameters are logged before the program runs", shown if state[0][0] <= 20 else not state[0][1], state)
    if fails:
        h.cover("failing program")
        h.ensure("its failure is reported", k == "raise" and isinstance(r, KeyError), r)
    else:
        h.ensure("nothing fails", k == "return" and r is None, r)


@contract("C24.usage", prove=False, covers=["help", "refused"], scope="help, and wrong numbers of arguments", **OPTS)
def usage(h):
    m, e = h.mod(PAR), h.mod(EP)
    seen = []
    kw = h.choice("named", [{"program_name": "some-prog"}, {"program_name": None}, {}])
    given = h.bool("given explicitly")
    if given:
        kw = dict(kw, parameters=m.Parameters.from_mapping({"x": 1}))
    args = h.choice("arguments", [["-h"], ["f", "g"], ["-p", "a"], ["-p", "a", "b", "c", "d"], ["-q"]])
    argv, sys.argv = sys.argv, ["argv0"] + args
    main_file, main = None, sys.modules["__main__"]
    name = "some-prog" if kw.get("program_name") else os.path.basename(main.__file__)
    with Logging():
        try:
            k, r = h.outcome(lambda: e.parameters_only_entry_point(seen.append, "what it does", **kw))
        except SystemExit as x:
            k, r = "exit", x.code
        finally:
            sys.argv = argv
            out, err = sys.stdout.getvalue(), sys.stderr.getvalue()
    h.ensure("the program does not run", not seen, seen)
    if args == ["-h"]:
        h.cover("help")
        h.ensure("help shows the name of the program and its usage", k == "exit" and not r and name in out and "what it does" in out and ("param_file" in out) == (not given), (out, err))
    else:
        h.cover("refused")
        h.ensure("wrong arguments are refused", k == "exit" and r == 2 and name in err, (k, r, out, err))


@contract("C24.logging", prove=False, covers=["level", "default", "refused", "config file", "configured before"], scope="each level, known and unknown", **OPTS)
def levels(h):
    m = h.mod(PAR)
    l = h.mod("vistautils.logging_utils")
    level = h.choice("level", sorted(LEVELS) + [None, "debug", "", "10", " INFO"])
    d = {"x": "CONTENT"}
    if level is not None or h.bool("null"):
        d["logging"] = {"root_level": level}
    with Logging():
        root = logging.getLogger()
        root.setLevel(h.choice("before", [0, 10, 35]))
        if h.bool("configured before"):
            h.cover("configured before")
            l.configure_logging_from(m.Parameters.from_mapping({"logging": {"root_level": h.choice("first", ["DEBUG", "ERROR"])}}))
        already = root.handlers[:]
        if h.bool("config file"):
            h.cover("config file")
            f = pathlib.Path(h.tmpdir()) / "log.conf"
            lv = h.choice("configured", ["ERROR", "DEBUG"])
            f.write_text("[loggers]\nkeys=root\n[handlers]\nkeys=h\n[formatters]\nkeys=\n[logger_root]\nlevel=%s\nhandlers=h\n[handler_h]\nclass=StreamHandler\nargs=(sys.stderr,)\n" % lv)
            d.setdefault("logging", {})["config_file"] = str(f)
            k, r = h.outcome(l.configure_logging_from, m.Parameters.from_mapping(d))
            h.ensure("the configuration file decides", k == "return" and root.level == LEVELS[lv], (root.level, lv, r))
            return
        k, r = h.outcome(l.configure_logging_from, m.Parameters.from_mapping(d))
        if level is not None and level not in LEVELS:
            h.cover("refused")
            h.ensure("an unknown level is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
            return
        h.cover("level" if level else "default")
        h.ensure("the root level is the one given, INFO otherwise", k == "return" and root.level == (LEVELS[level] if level else 20), (level, root.level))
        before = sys.stdout.getvalue()
        h.ensure("the parameters are not logged unless asked for", "CONTENT" not in before, before)
        mine = [x for x in root.handlers if x not in already]
        root.handlers[:] = mine
        some = logging.getLogger("some.logger")
        for lv, text in ((root.level - 1, "LOW"), (root.level, "RIGHT"), (60, "HIGH")):
            some.log(lv, text)
        out = sys.stdout.getvalue()[len(before):].splitlines()
        h.ensure("messages of that level and above are shown on standard output, once, with their logger", [x.rsplit(":", 1)[1] for x in out] == ["RIGHT", "HIGH"], out)
        h.ensure("lines give time, level and logger", all(re.match(r"\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\] \S+( \d+)?:some.logger:", x) for x in out), out)
        root.handlers[:] = already
        so_far = len(sys.stdout.getvalue())
        logged = m.Parameters.from_mapping(dict(d, shown="THIS"))
        k, r = h.outcome(lambda: l.configure_logging_from(logged, log_params=True))
        new = sys.stdout.getvalue()[so_far:]
        h.ensure("parameters are logged if asked for", k == "return" and ("THIS" in new) == (root.level <= 20), (new, r))


@contract("C24.run", concrete=False, covers=["given", "file", "options", "no options", "failing program", "failing step", "command line"], **OPTS)
def run(h):
    """any parameters, any options: over the contracts of the argument parser, loading, unification and
    the configuration of logging"""
    e, P = h.mod(EP), params_model(h)
    A, C = h.A, h.C
    events, failed = [], []
    step = h.choice("what fails", ["nothing", "arguments", "loading", "options", "unification", "logging", "program"])

    def fails(what):
        if step == what:
            failed.append(KeyError(what) if what == "program" else SystemExit(2) if what == "arguments" else OSError(what))
            raise failed[-1]

    def params(t):
        r = A.SymAny(t)
        h.assume(h.is_a(r, P))
        h.assume(h.Not(h.same(r, None)))
        return r

    file = h.any("parameter file")
    n = h.int("number of options", lo=0)
    pairs = h.any_list("options")
    LOAD, KV, UNIFY = h.fn("load", "any", "any"), h.fn("from_pairs", "any", "any"), h.fn("unify", "any", "any", "any")
    given = h.choice("given explicitly", [True, False])
    options = h.choice("options given", [True, False])
    h.assume(h.C.mkbool(pairs.n > 0))
    args = [h.string("argument"), h.string("another argument")]

    class Parser:
        def __init__(self, **k):
            if set(k) - {"prog", "description"}:
                raise C.Unsupported("options %r" % (k,))
            self.declared = {}

        def add_argument(self, name, **k):
            known = {"param_file": {"type": pathlib.Path}, "-p": {"action": "append", "nargs": 2}}
            k = {a: b for a, b in k.items() if (a, b) not in (("required", False), ("default", None)) and a not in ("help", "metavar")}
            if known.get(name) != k:
                raise C.Unsupported("argument %r" % ((name, k),))
            self.declared[name] = k

        def parse_args(self, got):
            got = list(got)
            h.ensure("the arguments of the program are read", len(got) == 2 and all(h.C.mkbool(A.any_term(x) == A.any_term(y)) for x, y in zip(got, args)))
            h.ensure("a parameter file is expected unless parameters are given", ("param_file" in self.declared) == (not given))
            events.append("arguments")
            fails("arguments")
            r = type("Namespace", (), {})()
            r.p = None
            if not given:
                r.param_file = file
            if options:
                h.ensure("options are understood", "-p" in self.declared)
                r.p = pairs
            return r

    h.patch(e, "ArgumentParser", Parser)

    class Loader:
        def __init__(self, **k):
            if set(k) - {"interpolate_environmental_variables"}:
                raise C.Unsupported("options %r" % (k,))
            h.ensure("references to environment variables in the file are replaced", bool(k.get("interpolate_environmental_variables", True)))

        def load(self, f, **k):
            if k:
                raise C.Unsupported("options %r" % (k,))
            events.append("load")
            fails("loading")
            return params(LOAD(A.path_term(f)))

    h.patch(e, "YAMLParametersLoader", Loader)

    def from_pairs(xs, **k):
        if k:
            raise C.Unsupported("options %r" % (k,))
        if xs is not pairs:
            raise C.Unsupported("other pairs")
        fails("options")
        return params(KV(A.const("the options")))

    def unify(self, other, **k):
        if k:
            raise C.Unsupported("options %r" % (k,))
        fails("unification")
        return params(UNIFY(A.any_term(self), A.any_term(other)))

    h.patch(P, "from_key_value_pairs", staticmethod(from_pairs))
    h.patch(P, "unify", unify)

    def configure(p, **k):
        events.append(("logging", A.any_term(p)))
        fails("logging")

    h.patch(e, "configure_logging_from", configure)

    class Log:
        def info(self, text, *xs):
            events.append(("shown", [A.any_term(x) for x in xs]))

    h.patch(e, "log", Log())

    def main(p):
        events.append(("run", A.any_term(p)))
        fails("program")
        return h.any("result of the program")

    kw = {"program_name": h.string("name of the program")} if h.choice("named", [True, False]) else {}
    if given:
        h.cover("given")
        base = h.instance("parameters", P)
        kw["parameters"] = base
        base = A.any_term(base)
    else:
        h.cover("file")
        base = LOAD(A.any_term(file))
    how = h.choice("called", ["command line", "arguments"])
    try:
        if how == "command line":
            h.cover("command line")
            h.patch(sys, "argv", ["prog"] + args)
            k, r = h.outcome(lambda: e.parameters_only_entry_point(main, "usage", **kw))
        else:
            k, r = h.outcome(lambda: e._real_parameters_only_entry_point(main, "usage", args=args, **kw))
    except SystemExit as x:
        k, r = "raise", x
    runs = [x[1] for x in events if x[0] == "run"]
    if failed:
        h.cover("failing program" if step == "program" else "failing step")
        h.ensure("a failure is passed on", k == "raise" and len(failed) == 1 and r is failed[0], r)
        h.ensure("the program is not run unless everything before went well", len(runs) == (step == "program"), events)
        if step != "program":
            return
    else:
        h.ensure("nothing else fails", k == "return" and r is None, r)
    want = base
    if options:
        h.cover("options")
        want = UNIFY(base, KV(A.const("the options")))
    else:
        h.cover("no options")
    h.ensure("the program runs exactly once", len(runs) == 1, events)
    h.ensure("with the parameters overridden by the options, if any", C.mkbool(runs[0] == want))
    kinds = [x if isinstance(x, str) else x[0] for x in events]
    h.ensure("the file is read exactly if parameters are not given", kinds.count("load") == (0 if given else 1), kinds)
    configured = [x[1] for x in events if x[0] == "logging"]
    h.ensure("logging is configured by these parameters before the program runs", len(configured) >= 1 and kinds.index("logging") < kinds.index("run"))
    h.ensure("by exactly these", h.And(*[C.mkbool(x == want) for x in configured]))
    shown = [x[1] for x in events if x[0] == "shown"]
    if any(not x for x in shown):
        raise C.Unsupported("a message made beforehand")
    h.ensure("the parameters are logged after that and before the program runs", any(a == "shown" and kinds.index("logging") < i < kinds.index("run") for i, a in enumerate(kinds)))
    h.ensure("the parameters logged are these", h.Or(*[C.mkbool(y == want) for x in shown for y in x]))


@contract("C24.configure", concrete=False, covers=["config file", "level", "default", "unknown level", "logged"], **OPTS)
def configure(h):
    """logging configured by any parameters"""
    m, l = h.mod(PAR), h.mod("vistautils.logging_utils")
    P = params_model(h)
    A, C = h.A, h.C
    find = private_get_by_contract(h)
    done = []
    root_level, handlers = [], []
    FILE = h.fn("file", "any", "any")
    missing = h.choice("configuration file missing", [True, False])

    def existing_file(self, name):
        nowhere, value = find(self, name)
        if nowhere or not h.is_a(value, str) or missing:
            raise m.ParameterError("no file")
        return A.SymAny(FILE(value.t))

    h.patch(P, "existing_file", existing_file)

    class Root:
        @staticmethod
        def setLevel(n):
            root_level.append(n)

        @staticmethod
        def addHandler(x):
            handlers.append(x)

    class Handler:
        level, formatter = 0, None

        def __init__(self, stream=None):
            self.stream = stream

        def setLevel(self, n):
            self.level = n

        def setFormatter(self, x):
            self.formatter = x

    class Config:
        @staticmethod
        def fileConfig(f, *a, **k):
            done.append(f)

    class Module:
        config = Config

        StreamHandler = Handler

        @staticmethod
        def getLogger(name=None):
            if name is not None:
                raise C.Unsupported("logger %r" % (name,))
            return Root

        Formatter = logging.Formatter

        def __getattr__(self, name):
            if name in LEVELS:
                return LEVELS[name]
            raise C.Unsupported("logging." + name)

    logged = []

    class Log:
        def info(self, text, *xs):
            logged.append((list(root_level), list(done)))

    h.patch(l, "logging", Module())
    h.patch(l, "log", Log())
    h.patch(l, "_LEVEL_STRINGS_TO_LEVELS", h.MM.from_dict(l._LEVEL_STRINGS_TO_LEVELS))
    me = h.instance("parameters", P)
    kw = {}
    show = h.choice("log the parameters", [None, True, False])
    if show is not None:
        kw["log_params"] = show
    k, r = h.outcome(lambda: l.configure_logging_from(me, **kw))
    nofile, file = find(me, "logging.config_file")
    if h.And(h.Not(nofile), h.Not(h.same(file, None))):
        h.cover("config file")
        if k == "raise":
            h.ensure("a configuration file is refused only if it is not there, with a ParameterError", h.And(isinstance(r, m.ParameterError), h.Or(missing, h.Not(h.is_a(file, str)))))
            h.ensure("and then nothing is configured", not root_level and not handlers and not done)
            return
        h.ensure("a configuration file takes precedence", len(done) == 1 and not root_level and not handlers)
        got = A.any_term(done[0])  # a path, or its text
        f = FILE(file.t)
        h.ensure("and is read", h.And(h.is_a(file, str), not missing, C.mkbool(h.z3.Or(got == f, got == h.T.STR_OF(f)))))
    else:
        nolevel, level = find(me, "logging.root_level")
        h.ensure("no configuration file is read otherwise", not done)
        if h.Or(nolevel, h.same(level, None)):
            h.cover("default")
            want = 20
        else:
            h.cover("level")
            want = None
            if h.is_a(level, str):
                text = h.MM.SymStr(level.t)
                for x in sorted(LEVELS):
                    if text == x:
                        want = LEVELS[x]
        if want is None:
            h.cover("unknown level")
            h.ensure("an unknown level is a ParameterError", k == "raise" and isinstance(r, m.ParameterError), r)
            h.ensure("and configures nothing", not root_level and not handlers)
            return
        h.ensure("a known level is accepted", k == "return", r)
        h.ensure("the root level is the one given, INFO otherwise", bool(root_level) and root_level[-1] == want, root_level)
        h.ensure("messages of that level and above are shown once, on standard output", len(handlers) == 1 and handlers[0].stream is sys.stdout and handlers[0].level <= want, handlers)
    h.ensure("the parameters are logged, in the end, exactly if asked for", len(logged) == bool(show), logged)
    if show:
        h.cover("logged")
        h.ensure("after logging is configured", logged[0] == (root_level, done), logged)
