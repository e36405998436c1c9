#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing; both files are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
R, S = "vistautils/range.py", "vistautils/span.py"
TECH = "contract-based deductive verification of the real functions (pyvc: symbolic execution of the repository's own code, obligations discharged by z3/cvc5, unbounded sequences by summaries); bounded runs of the same contracts on the real code as labelled stand-ins and for counterexample replay"

PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), level="proof", note=""):
    PROPS.append(
        dict(
            line=dict(
                id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(
                    files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                    state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                    observe_at=list(observe), hook_needed=None,
                ),
            ),
            level=level, note=note,
        )
    )


exec(open(os.path.join(ROOT, "meta_props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["line"]) + "\n")
    man = dict(
        version=1,
        setup_cmd="/verif/setup",
        checks=[
            dict(
                property=p["line"]["id"],
                quick_cmd="/verif/check %s --tier quick" % p["line"]["id"],
                thorough_cmd="/verif/check %s --tier thorough" % p["line"]["id"],
                technique=TECH,
                level=p["level"],
                level_note=p["note"],
            )
            for p in PROPS
            if p["level"]
        ],
        not_applicable=[dict(property=p["line"]["id"], reason=p["note"]) for p in PROPS if not p["level"]],
        notes="No hooks in /repo: contracts live in /verif/contracts and bind to the repository's functions at import. See DESIGN.md.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
