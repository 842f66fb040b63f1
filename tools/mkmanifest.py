#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.checks import registry
TECH = {
    "C12": "exhaustive exploration of operation histories on generators and ranges against a reference state machine",
    "C13": "exhaustive enumeration of pattern strings; the compile-time parser automaton's verdict against a reference recogniser",
    "C15": "exhaustive enumeration of programs; the compiler's verdict on each against the reference model",
    "C17": "exhaustive exploration of accessor/copy/move histories on real result objects against a reference state",
    "C18": "exhaustive enumeration of executions in both evaluation modes against the reference machine",
    "C19": "exhaustive exploration of call histories and generator interleavings, plus a free-running race-detector pass",
}
NOTE = {
    "C17": "Every history of reads, copies, moves and ownings up to the stated depth is replayed on real result objects under AddressSanitizer, after the input is destroyed where the result owns it, and compared with the reference result.",
    "C18": "Every execution of the stated space is evaluated by the compiler's constant evaluator (which rejects undefined behaviour) and at run time; both must equal the reference machine's result.",
    "C19": "Every sequence of calls up to the stated depth and every interleaving of generators runs in one process and every result must be the one the operation gives alone. Threads are covered by the absence of any write outside the call's own frame along these histories plus a race-detector pass, which is not exhaustive.",
    "C12": "Every operation sequence up to the stated depth on the real generator and range objects is compared step by step with the reference machine.",
    "C13": "Every string of the stated alphabets and lengths is parsed by the library's compile-time parser and by the reference recogniser; both must agree on acceptance and error position.",
    "C15": "Every program of the stated families is given to the compiler; rejections must be the expected ones. Trusts g++'s verdict and distinguishes rejections from resource exhaustion.",
}
DEF_TECH = "explicit-state exploration of all (pattern, operation, input) executions of the real code in stated bounds against a reference backtracking machine"
DEF_NOTE = ("Every execution inside the stated bounds is run on the real code, instantiated from /repo's headers, on memory between guard pages, and compared with an independent "
            "explicit-state reference machine (matched state and every group span). Says nothing about patterns and inputs outside the bounds; trusts g++ and the reference model, which a second, denotational semantics cross-checks.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEF_TECH), "level": "model_checking", "level_note": NOTE.get(i, DEF_NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q vlib check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is header-only and every check instantiates it from /repo/include of the working tree. known_findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, ps)
print(len(checks), "checks", len(na), "not applicable")
