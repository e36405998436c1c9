"""The engine tried on itself: `selftest.py [--quick]`.

1. claims of selftest/self_claims.py about small functions: the true ones must be proved, the false ones
   must not be (each false claim is the sibling of a true one, for one rule of the engine);
2. the repository's tests on the transformed modules give the results they give on the original ones;
3. (not --quick) the bounded contracts hold on the transformed modules.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
PY = "/opt/venv/bin/python"
TEST = """
import os, sys, types
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
m = types.ModuleType("pyvc"); m.__path__ = [%r]; sys.modules["pyvc"] = m
from pyvc import anymodels, textmodels, mapmodels, graphmodels, sortmodels, loader, models
loader.install()
"""


def worker(mode, name, limit, env):
    r = subprocess.run([PY, os.path.join(HERE, "worker.py"), mode, name, "--limit", str(limit)], capture_output=True, text=True, env=dict(os.environ, **env), check=False)
    try:
        return json.loads(r.stdout)
    except ValueError:
        return {"crash": r.stdout[-300:] + r.stderr[-1500:]}


def claims(w):
    """names of the claims which the engine gets wrong"""
    repo = os.path.join(w, "repo")
    shutil.copytree(os.path.join(REPO, "vistautils"), os.path.join(repo, "vistautils"), ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(os.path.join(ROOT, "selftest", "samples.py"), os.path.join(repo, "vistautils", "pyvc_selftest_samples.py"))
    env = {"PYVC_REPO": repo, "PYVC_CONTRACTS": os.path.join(ROOT, "selftest"), "PYTHONDONTWRITEBYTECODE": "1"}
    src = open(os.path.join(ROOT, "selftest", "self_claims.py"), encoding="utf-8").read()
    names = []
    for kind, n, beyond in re.findall(r'^@(claim|variants)\("([^"]+)"(, beyond=True)?', src, re.M):
        names += ["SELF." + n] if kind == "claim" else ["SELF." + n + "+", "SELF." + n + ("~" if beyond else "-")]
    bad = []
    with ThreadPoolExecutor(8) as ex:
        for n, r in zip(names, ex.map(lambda n: worker("prove", n, 60, env), names)):
            v = r.get("verdict", "crash")
            if v not in {"+": ["proved"], "-": ["refuted", "vacuous"], "~": ["undecided"]}[n[-1]]:
                bad.append("%s: %s" % (n, v))
                if os.environ.get("PYVC_VERBOSE"):
                    print(bad[-1], [u[:150] + " ... " + u[-300:] for u in r.get("unsupported", [])][:1], r.get("crash", "")[-600:], r.get("refuted", [])[:1])
    return len(names), bad


def tests(w, transformed):
    plug = os.path.join(w, "plug")
    os.makedirs(plug, exist_ok=True)
    with open(os.path.join(plug, "pyvc_transformed.py"), "w", encoding="utf-8") as f:
        f.write(TEST % HERE)
    env = dict(os.environ, PYTHONPATH=plug, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    cmd = [PY, "-m", "pytest", "tests", "-q", "-rA", "--tb=no", "-p", "no:cacheprovider", "--basetemp", os.path.join(w, "tmp")]
    r = subprocess.run(cmd + (["-p", "pyvc_transformed"] if transformed else []), cwd=REPO, capture_output=True, text=True, env=env, check=False)
    return {m.group(2): m.group(1) for m in re.finditer(r"^(PASSED|FAILED|ERROR) (.*?)(?: - .*)?$", r.stdout, re.M)}


def bounded():
    jobs = []
    for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "c[0-9]*.py"))):
        for m in re.finditer(r'^@contract\(\s*"([^"]+)"(.*?)^def', open(f, encoding="utf-8").read(), re.M | re.S):
            if "concrete=False" not in m.group(2):
                jobs.append(m.group(1))
    with ThreadPoolExecutor(8) as ex:
        return len(jobs), [n for n, r in zip(jobs, ex.map(lambda n: worker("transformed", n, 5, {}), jobs)) if r.get("failure") or r.get("crash")]


def main():
    w = tempfile.mkdtemp(prefix="pyvc_self_")
    try:
        n, bad = claims(w)
        print("self-test: %d claims, %d wrong %s" % (n, len(bad), bad or ""))
        a, b = tests(w, False), tests(w, True)
        differ = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        print("self-test: %d tests, %d passed, %d differ on the transformed code %s" % (len(a), sum(v == "PASSED" for v in a.values()), len(differ), differ or ""))
        bad += differ
        if "--quick" not in sys.argv:
            n, failed = bounded()
            print("self-test: %d bounded contracts on the transformed code, %d fail %s" % (n, len(failed), failed or ""))
            bad += failed
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return 1 if bad or not a else 0


if __name__ == "__main__":
    sys.exit(main())
