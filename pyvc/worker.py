"""One contract in one process: `worker.py MODE CONTRACT --tier T --seed N --limit S --out FILE`."""
import argparse
import glob
import importlib.util
import json
import os
import resource
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load_contracts(prop):
    import pyvc.harness as H

    for f in sorted(glob.glob(os.path.join(os.environ.get("PYVC_CONTRACTS", os.path.join(ROOT, "contracts")), prop.lower() + "_*.py"))):
        name = "pyvc_contracts_" + os.path.basename(f)[:-3]
        spec = importlib.util.spec_from_file_location(name, f)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
    return {k: v for k, v in H.REGISTRY.items() if v.prop == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("contract")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--limit", type=float, default=60)
    ap.add_argument("--out")
    ap.add_argument("--fixed")
    a = ap.parse_args()
    if a.mode != "prove" and os.environ.get("PYVC_LOCALE") != "ascii":
        # bounded runs: file names are UTF-8, but the locale's own encoding is ASCII, so that text whose
        # encoding is left to the locale does not survive
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, LC_ALL="C.UTF-8", PYTHONUTF8="0", PYVC_LOCALE="ascii"))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sys.setrecursionlimit(20000 if a.mode == "prove" else 1000)
    repo = os.environ.get("PYVC_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.path.insert(0, ROOT)
    import random

    random.seed(12345)
    try:
        if a.mode == "prove":
            from pyvc import anymodels, textmodels, mapmodels, graphmodels, sortmodels, loader, models, prove  # noqa: F401

            loader.install()
            c = load_contracts(a.contract.split(".")[0])[a.contract]
            for m in c.opts.get("modules", ["vistautils.range"]):
                __import__(m)
            r = prove.SymRun(c, a.tier, a.limit, cross=(a.tier == "thorough"))
            r.go()
            out = r.as_dict()
        else:
            if a.mode == "transformed":
                # the self-test: the bounded runs, of the code as the loader transforms it
                from pyvc import anymodels, textmodels, mapmodels, graphmodels, sortmodels, loader, models  # noqa: F401

                loader.install()
            c = load_contracts(a.contract.split(".")[0])[a.contract]
            import warnings

            warnings.simplefilter("ignore")
            import logging

            logging.disable(logging.CRITICAL)
            import vistautils

            assert os.path.dirname(vistautils.__file__).startswith(repo), vistautils.__file__
            from pyvc import harness as H
            import locale

            locale.setlocale(locale.LC_CTYPE, "C")
            if a.mode in ("bounded", "transformed"):
                out = H.run_concrete(c, a.tier, a.seed, a.limit).as_dict()
            else:
                with open(a.fixed, encoding="utf-8") as f:
                    failure = json.load(f)
                out = {"failure": H.replay_concrete(c, failure, a.tier)}
    except MemoryError:
        out = {"crash": "MemoryError"}
    except BaseException as e:  # noqa: B902
        out = {"crash": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
    text = json.dumps(out, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(text)
    else:
        print(json.dumps(out, default=str, indent=1))


if __name__ == "__main__":
    sys.modules.setdefault("pyvc", __import__("types").ModuleType("pyvc"))
    sys.modules["pyvc"].__path__ = [HERE]
    main()
