"""Runner: decides one property.

For each contract of the property: a `prove` worker (deductive check of the real functions) and a
`bounded` worker (the same contract executed on the untransformed code, exhaustively in a small
scope and then at random).  Verdict policy, in DESIGN.md section "Verdicts":
  violation   a concrete input fails on the real code (found by the bounded run, or by replaying the
              solver's counterexample), or a quantifier-free obligation is refuted by the solver and
              the counterexample cannot be turned into inputs (no-failing-input-found)
  undecided   an obligation is neither discharged nor refuted: reported, never an alarm
"""
import argparse
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = sys.executable
WORKER = os.path.join(HERE, "worker.py")


def load(prop):
    import types

    m = types.ModuleType("pyvc")
    m.__path__ = [HERE]
    sys.modules["pyvc"] = m
    sys.path.insert(0, ROOT)
    from pyvc.worker import load_contracts

    return load_contracts(prop)


def spawn(args, timeout, outfile):
    cmd = [PY, WORKER] + args + ["--out", outfile]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return {"crash": "worker exceeded %d s" % timeout, "timeout": True}
    try:
        with open(outfile) as f:
            return json.load(f)
    except Exception:
        return {"crash": "worker ended with status %s: %s" % (p.returncode, out.decode(errors="replace")[-2000:])}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    quick = a.tier != "thorough"
    prop = a.prop
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=evdir)
    atexit.register(shutil.rmtree, work, ignore_errors=True)
    contracts = load(prop)
    if not contracts:
        print("no contracts for", prop)
        return 2
    plim, blim = (150, 40) if quick else (650, 300)
    jobs = []
    for name, c in contracts.items():
        if c.opts.get("prove", True):
            jobs.append(("prove", name, c))
    for name, c in contracts.items():
        if c.opts.get("concrete", True):
            jobs.append(("bounded", name, c))
    # the longest first
    jobs.sort(key=lambda j: (j[0] != "prove", -j[2].opts.get("cost", 1)))

    def one(job):
        mode, name, c = job
        lim = plim if mode == "prove" else c.opts.get("limit", blim)
        left = (780 if quick else 3400) - (time.monotonic() - t0)
        if left < 20:
            return {"crash": "no time left", "timeout": True}
        lim = min(lim, left)
        r = spawn(
            [mode, name, "--tier", a.tier, "--seed", str(a.seed), "--limit", str(lim)],
            lim + (45 if quick else 200),
            os.path.join(work, "%s-%s.json" % (mode, name)),
        )
        return r

    with ThreadPoolExecutor(a.jobs) as ex:
        results = list(ex.map(one, jobs))

    known = {}
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = json.load(f)
    findings = [k for k in known.get("findings", []) if k["property"] == prop]
    violations = []  # (text, replay dict, concrete)
    undecided = []
    errors = []
    rep = {}
    trust = set()
    for (mode, name, c), r in zip(jobs, results):
        e = rep.setdefault(name, {})
        if r.get("crash"):
            e[mode] = {"crash": r["crash"][-1500:]}
            if mode == "prove":
                undecided.append("%s: proof attempt ended early: %s" % (name, r["crash"].strip().splitlines()[-1][:300]))
            elif r.get("timeout"):
                undecided.append("%s: bounded run ended early" % name)
            else:
                errors.append("%s: %s" % (name, r["crash"][-1500:]))
            continue
        if mode == "bounded":
            d = {k: r[k] for k in ("runs", "skipped", "exhausted", "random_runs", "covers", "wall", "distinct")}
            d["scope"] = c.opts.get("scope", "values drawn from small ranges, see the contract")
            d["samples"] = r["samples"][:3]
            e[mode] = d
            if r["failure"]:
                violations.append((name, r["failure"], True))
            elif r["runs"] + r["random_runs"] - r["skipped"] <= 0:
                errors.append("%s: bounded run executed nothing" % name)
        else:
            e[mode] = {
                k: r[k]
                for k in (
                    "verdict", "obligations", "paths", "completed_paths", "infeasible_paths", "covers", "functions",
                    "wall_s", "solver_s", "queries", "unsupported", "limit", "cross_checked", "cross_unknown", "cut_contracts",
                )
            }
            if r["verdict"] == "refuted":
                handled = False
                for x in r["refuted"]:
                    if not c.opts.get("concrete", True):
                        x["fixed"] = None  # nothing to replay: the inputs are not all concrete values
                    if x["fixed"] is None:
                        continue
                    fx = {"contract": name, "mode": "model", "fixed": x["fixed"], "label": x["label"]}
                    ff = os.path.join(work, "model-%s.json" % name)
                    with open(ff, "w") as f:
                        json.dump(fx, f)
                    rr = spawn(["replay", name, "--tier", a.tier, "--fixed", ff], 60, ff + ".out")
                    if rr.get("failure"):
                        rr["failure"].update(mode="model", fixed=x["fixed"], model=x["model"], goal=x["goal"])
                        violations.append((name, rr["failure"], True))
                        handled = True
                        break
                if not handled:
                    solid = [x for x in r["refuted"] if not x["quantified"] and x["fixed"] is None]
                    # an invariant written for another loop says nothing about this one
                    unfit = [k for k, o in r["obligations"].items() if k.startswith("loop invariant") and o["refuted"] + o["unknown"]]
                    if solid and not unfit:
                        x = solid[0]
                        violations.append((name, dict(x, contract=name, mode="obligation"), False))
                    else:
                        undecided.append(
                            "%s: obligation '%s' not discharged (candidate counterexample does not fail on the real code)"
                            % (name, r["refuted"][0]["label"])
                        )
            elif r["verdict"] != "proved":
                why = r["limit"] or (r["unsupported"][0] if r["unsupported"] else "")
                unk = [k for k, o in r["obligations"].items() if o["unknown"]]
                undecided.append("%s: %s %s %s" % (name, r["verdict"], why[:400], unk[:3]))

    # a proof did not go through and nothing concrete failed: search for a failing input
    if not any(v[2] for v in violations):
        failed = [n for n, e in rep.items() if "prove" in e and e["prove"].get("verdict") != "proved"]
        able = [n for n, e in rep.items() if "bounded" in e and "crash" not in e["bounded"]]
        todo = [n for n in failed if n in able]
        if len(todo) < len(failed):  # no concrete counterpart of its own: all the property's bounded contracts
            todo = able
        left = (800 if quick else 3500) - (time.monotonic() - t0)
        if todo and left > 60:
            each = max(1, 8 // len(todo))
            span = min(75 if quick else 400, (left - 40) / (1 + (each * len(todo) - 1) // 8))
            plan = [(n, k) for n in todo for k in range(each)]

            def search(x):
                n, k = x
                return spawn(["bounded", n, "--tier", "search", "--seed", str(a.seed + 1000 * (k + 1)), "--limit", str(span)], span + 30, os.path.join(work, "search-%s-%d.json" % (n, k)))

            with ThreadPoolExecutor(a.jobs) as ex:
                for (n, k), r in zip(plan, ex.map(search, plan)):
                    if r.get("failure"):
                        violations.append((n, r["failure"], True))
                    rep[n].setdefault("search", []).append(r.get("random_runs", 0))

    # known findings: suppress exactly the listed failing inputs
    real = []
    seen_known = []
    for v in violations:
        k = match_known(findings, v)
        if k is None:
            real.append(v)
        else:
            seen_known.append(k)
    concrete = [v for v in real if v[2]]
    nofail = [v for v in real if not v[2]]
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    write_evidence(prop, a, contracts, rep, undecided, real, errors, t0, quick, evdir)
    for k in {x["what"] for x in seen_known} | {x["what"] for x in findings}:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for u in undecided:
        print("UNDECIDED:", u.replace("\n", " | ")[:600])
    if a.verbose or True:
        summarise(prop, rep)
    if concrete or nofail:
        v = (concrete or nofail)[0]
        path = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"\W+", "_", v[0])))
        with open(path, "w") as f:
            json.dump(v[1], f, indent=1, default=str)
        print("failed obligation: %s / %s" % (v[0], v[1].get("label")))
        print("inputs: %s" % json.dumps(v[1].get("inputs", v[1].get("fixed")), default=str)[:1500])
        print("detail: %s" % str(v[1].get("detail", ""))[-1500:])
        print("replay with: /verif/replay %s" % path)
        print(
            "VIOLATION property=%s replay=%s%s" % (prop, path, "" if concrete else " no-failing-input-found")
        )
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    return 0


def match_known(findings, v):
    for k in findings:
        if k.get("contract") != v[0] or k.get("label") != v[1].get("label"):
            continue
        want = k.get("inputs")
        got = {n: x for n, x in v[1].get("inputs", [])} if v[1].get("inputs") else v[1].get("fixed", {})
        if want is None or all(got.get(n) == x for n, x in want.items()):
            return k
    return None


def summarise(prop, rep):
    for n in sorted(rep):
        e = rep[n]
        p = e.get("prove")
        b = e.get("bounded")
        s = "%-30s" % n
        if p:
            if "crash" in p:
                s += " proof: ended early"
            else:
                ob = p["obligations"].values()
                s += " %s: %d/%d obligations, %d paths, %d functions, %.1fs" % (
                    p["verdict"],
                    sum(o["discharged"] for o in ob),
                    sum(o["discharged"] + o["refuted"] + o["unknown"] for o in ob),
                    p["completed_paths"],
                    len(p["functions"]),
                    p["wall_s"],
                )
        if b:
            if "crash" in b:
                s += " | bounded: ended early"
            else:
                s += " | bounded: %d cases%s, %.1fs" % (
                    b["runs"] + b["random_runs"] - b["skipped"],
                    " (scope exhausted)" if b["exhausted"] else "",
                    b["wall"],
                )
        print(s)


def write_evidence(prop, a, contracts, rep, undecided, real, errors, t0, quick, evdir):
    from pyvc import trust as T

    tot = dis = triv = 0
    backends = {}
    fns = {}
    solver_s = 0.0
    queries = 0
    cross = [0, 0]
    samples = []
    proved = []
    bounded_only = []
    evals = distinct = 0
    per = {}
    for n, e in sorted(rep.items()):
        p = e.get("prove")
        if p and "crash" not in p:
            for lab, o in p["obligations"].items():
                tot += o["discharged"] + o["refuted"] + o["unknown"]
                dis += o["discharged"]
                triv += o["trivial"]
                if o["trivial"]:
                    backends["evaluation on the path (no solver query)"] = backends.get("evaluation on the path (no solver query)", 0) + o["trivial"]
                for b, k in o.get("backend", {}).items():
                    backends[b] = backends.get(b, 0) + k
            solver_s += p["solver_s"]
            queries += p["queries"]
            cross[0] += p["cross_checked"]
            cross[1] += p["cross_unknown"]
            for f in p["functions"]:
                fns.setdefault(f, []).append(n)
            if p["verdict"] == "proved":
                proved.append(n)
        b = e.get("bounded")
        if b and "crash" not in b:
            evals += b["runs"] + b["random_runs"]
            distinct += b["distinct"]
            for s in b["samples"][:2]:
                samples.append({"contract": n, "inputs": s})
        if n not in proved:
            bounded_only.append(n)
        per[n] = {
            "proof": None if not p else ("ended early" if "crash" in p else {
                "verdict": p["verdict"],
                "obligations": {k: [o["discharged"], o["refuted"], o["unknown"]] for k, o in p["obligations"].items()},
                "paths": p["completed_paths"],
                "reached": p["covers"],
                "wall_s": round(p["wall_s"], 2),
                "bound": contracts[n].opts.get("bound"),
            }),
            "bounded": None if not b else ("ended early" if "crash" in b else {
                "cases": b["runs"] + b["random_runs"] - b["skipped"],
                "scope_exhausted": b["exhausted"],
                "scope": b["scope"],
                "reached": b["covers"],
            }),
        }
    level = T.LEVEL.get(prop, "proof")
    cov = {
        "obligations": tot,
        "discharged": dis,
        "checker_cmd": "/verif/check %s --tier %s" % (prop, a.tier),
        "trusted_base": T.BASE + T.EXTRA.get(prop, []),
        "obligations_by_back_end": backends,
        "solver_seconds": round(solver_s, 2),
        "solver_queries": queries,
        "functions_under_contract": {f: sorted(set(v)) for f, v in sorted(fns.items())},
        "contracts": per,
        "contracts_proved": proved,
        "contracts_bounded_only": bounded_only,
        "undecided_this_run": undecided,
        "cross_checked_with_cvc5": {"confirmed": cross[0], "no_answer": cross[1]},
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": "bounded stand-ins and replays, never counted as proved: contract inputs enumerated exhaustively in a small scope, then drawn at random with the run's seed; a case is non-trivial if it satisfies the preconditions and evaluates at least one postcondition; distinct by the tuple of inputs",
        "samples": samples[:12],
    }
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed,
        "level": level,
        "coverage": cov,
        "assumptions": T.assumptions(prop),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(real),
    }
    if errors:
        ev["coverage"]["errors"] = errors
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors="backslashreplace")  # inputs may hold anything
    try:
        status = main()
    except Exception:
        traceback.print_exc()
        status = 2  # no answer
    sys.exit(status)
