"""Writes /verif/MANIFEST.json from the table of levels below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.levels import LEVEL, NOTE  # noqa: E402

TECH_P = ("contracts on the real functions, verified deductively from /repo's AST (symbolic execution to verification "
          "conditions, loop invariants checked by induction, z3/cvc5 and normal-form rewriting); executable contracts replay refutations")
TECH_B = ("contracts on the real functions; what the deductive verifier reaches is discharged, the rest is decided by the same "
          "contracts evaluated on the real code over generated inputs (bounded stand-in, labelled)")

checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    lev = LEVEL.get(pid, "exploration")
    checks.append(dict(property=pid, quick_cmd="python3-vt check.py %s --tier quick" % pid,
                       thorough_cmd="python3-vt check.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique=TECH_P if lev == "proof" else TECH_B, level=lev,
                       level_note=NOTE.get(pid, "Executable contracts on generated inputs only: bounded, not a proof.")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
         notes="Properties, method, bounds, findings and planted bugs: DESIGN.md. known_findings.txt lists the recorded finding and the repairs.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
