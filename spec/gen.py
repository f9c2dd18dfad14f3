#!/usr/bin/env python3
"""Writes properties.jsonl, harness/props.json and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, harnesses, note, outside, assume=(), na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  harnesses=harnesses, note=note, outside=outside, assume=list(assume), na=na, observe=observe))


def H(name, bounds, reach="done", thorough=False, race=False, cli=False, whole=False, native=0, seconds=0):
    h = dict(name=name, bounds=bounds, reach=reach.split())
    if thorough: h["thorough_only"] = True
    if race: h["race"] = True
    if cli: h["cli"] = True
    if whole: h["whole"] = True
    if native: h["native"] = native
    if seconds: h["seconds"] = seconds
    return h


exec(open(os.path.join(V, "spec", "props.py")).read())

TECH = "symbolic execution of the Go SSA of the real code; field identities and path conditions decided by SMT (z3/cvc5) and polynomial arithmetic; counterexamples replayed natively"


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]: a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    props = {p["id"]: dict(outside=p["outside"], assume=p["assume"], harnesses=p["harnesses"]) for p in P if not p["na"]}
    with open(os.path.join(V, "harness", "props.json"), "w") as f:
        json.dump(props, f, indent=1)
        f.write("\n")
    checks = [dict(property=p["id"], quick_cmd="bash check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
                   technique=TECH, level="model_checking", level_note=p["note"]) for p in P if not p["na"]]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
             notes="No hooks in /repo: the checks load the packages of /repo from source on every run. Constants of the code under test in [2^17,2^22] are scaled by 2^-18 in the checks (both symbolic and native runs).")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
