"""writes /verif/MANIFEST.json: every property that has a checks/<id>.py is claimed, the others are not_applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C31": "the two-grid contact force cannot execute on this tree (it refers to state that no longer exists), so there is no behaviour to encode",
}
TECH = {i: "path-wise symbolic execution of the real Python code on symbolic numbers (branches forked, feasibility and obligations decided by Z3)" for i in ("C30", "C34", "C35")}
PY = "/opt/venv/bin/python run.py"
NOTE = ("Holds for every value in the stated boxes (real-valued; sizes of particle sets, grids and batches are bounded and listed in the "
        "evidence): the jaxpr of the real code is executed symbolically and each obligation's negation is refuted by exact algebra or Z3. "
        "Trusts: JAX tracing, the interpreter (validated against the real code at random points on every run), exact-real idealisation of "
        "float32 (counterexamples are replayed in float32 before being reported).")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "%s %s --tier quick" % (PY, i), "thorough_cmd": "%s %s --tier thorough" % (PY, i),
                       "technique": TECH.get(i, "symbolic execution of the traced jaxpr of the real code + Z3 (nonlinear real arithmetic)"),
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); from jaxsym import harness; harness.boot(); import z3'",
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks are needed in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
