#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import specs

PROPS = []
NOTE = {}
NA = {}
INC = "include/lsst/sphgeom/"


def P(pid, title, statement, text, why, files, mech, state=(), observe=(), note="", na=None, over=("inputs",)):
    PROPS.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "observe_at": list(observe), "hook_needed": None}})
    NOTE[pid] = note
    if na:
        NA[pid] = na


exec(open(os.path.join(V, "tools", "proplist.py")).read())

BASE = ("Clang lowers the current /repo sources and the harness to LLVM IR; a symbolic executor explores every path and Z3/cvc5 decide "
        "every assertion, memory access and signed overflow for all values within the bounds; counterexamples are replayed against a native build before being reported, "
        "and sampled paths are replayed to validate the encoding. ")


def main():
    assert len({p["id"] for p in PROPS}) == len(PROPS)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in specs.SPECS:
            checks.append({
                "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": specs.SPECS[i].get("technique", "symbolic execution of the LLVM IR of the real code, Z3/cvc5 deciding all values within bounds"),
                "level": specs.SPECS[i]["level"], "level_note": BASE + NOTE[i]})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    for s in specs.SPECS:
        assert s in NOTE, s
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "hooks": {"guard": "none", "enable": "no hooks are needed: checks compile /repo's sources unchanged"},
         "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
