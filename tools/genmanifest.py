#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, re, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
have = set()
for f in glob.glob(R + "/harness/h/*.go"):
    for m in re.finditer(r"^func ([A-Z]\d\d)_\w+\(\)", open(f).read(), re.M):
        have.add(m.group(1))
NOTES = {}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
        continue
    checks.append(dict(
        property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique="bounded symbolic execution of the real Go SSA with SMT (z3, cvc5 fallback); counterexamples replayed on the compiled code",
        level="model_checking",
        level_note="Holds for all symbolic values within the bounds stated per harness in the evidence file. " + NOTES.get(i, "") +
        "Trusts the symgo interpreter and its standard-library stand-ins (validated per run by replaying sampled path models on the compiled code) and the SMT solvers. Violations are reported only if the compiled code reproduces them."))
m = dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=na,
         notes="No hooks: the checks encode /repo's unmodified sources. See DESIGN.md.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
