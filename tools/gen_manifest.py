"""Writes /verif/MANIFEST.json.  A property is claimed when checks/cNN.py exists."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "symbolic execution of the Python source (AST-instrumented real code) + SMT (z3), bounded"
NOTE = {
    "default": "Bounded symbolic execution of the current /repo source: every path within the stated bounds, reals as mathematical reals (no rounding), z3 decides each obligation; counterexamples are replayed on the real package before being reported. Trusts z3, the shim semantics of numpy/builtins (witness models of every job are replayed on the real code and compared) and the stated oracles.",
}
NA = {
    "C21": "the space group is found by spglib (compiled C, floating-point search); it cannot be encoded symbolically here and wulfric only forwards its answer. How the answer is used is C07-C09, C12, C16 (spglib replaced by a nondeterministic stub).",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": NOTE.get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet (work in progress)")})
m = {
    "version": 1,
    "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import numpy'",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the symbolic loader instruments the source text at import time, outside /repo. See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na], "not")
