#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
COMMON = ("Solver verdict over all values within the bounds in the evidence file; the LLVM IR (clang 18, -O1) and the assembled machine code "
          "are taken from the working tree on every run. Trusts the symbolic executor, clang's front end and middle end, nasm and z3; "
          "counterexamples are reported only after a native build of the tree reproduces them. ")
NOTE = {
    "C01": "Block function proved by induction for every block count; padding, chaining and digest for one update of any 64-bit size.",
}
for f in ("notes.json",):
    p = os.path.join(here, "tools", f)
    if os.path.exists(p):
        NOTE.update(json.load(open(p)))
NA = {}
checks = []
na = []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (here, i.lower())) and i not in NA:
        checks.append(dict(property=i, quick_cmd="./run.py %s quick" % i, thorough_cmd="./run.py %s thorough" % i,
                           technique="symbolic execution of LLVM IR / machine code with SMT (z3)", level="other",
                           level_note=COMMON + NOTE.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="true",
               hooks=dict(guard="MILO_VERIF", enable="clang++ -DMILO_VERIF ... -S -emit-llvm (sx/build.py)", source_commits=["155ced5"]),
               checks=checks, not_applicable=na), open(here + "/MANIFEST.json", "w"), indent=1)
