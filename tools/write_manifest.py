"""Writes /verif/MANIFEST.json from the properties that have contracts."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = (
    "contract-based deductive verification: contracts on the real functions, verification conditions by symbolic "
    "execution of the real code over symbolic-size matrices, discharged by a matrix-algebra normaliser and z3; "
    "refutations replayed on the uninstrumented code"
)
HISTORY = (
    "One operation from an arbitrary state is proved for an unbounded state (loops are cut); histories of several "
    "operations and random programs are executed in addition, labelled bounded, and not counted as proved."
)
ARITY = (
    "Every obligation is discharged for all sizes, inputs, and values over real arithmetic, relative to the contracts of LAB's "
    "primitives. Up to three distributions, pairs or members per call (nested: up to five); larger arities are not covered."
)
NOTE = {
    "C01": "One operation on operands with an arbitrary joint law is the general step; compositions are explored up to "
    "depth three. All sizes, inputs and values over real arithmetic, relative to the contracts of LAB's primitives.",
    "C02": "Derivatives of kernels and means (mlkernels, automatic differentiation) are a formal operator that is trusted; "
    "finite-difference formulas are arbitrary ones with two and three points. All sizes, inputs and values.",
    "C04": HISTORY,
    "C05": HISTORY,
    "C06": HISTORY,
    "C07": HISTORY,
    "C08": ARITY,
    "C09": ARITY + " One known finding.",
    "C10": ARITY,
    "C11": ARITY + " Two known findings.",
    "C14": "Every obligation is discharged for all sizes and values over real arithmetic, relative to the contracts of LAB's "
    "primitives. That the squared Wasserstein distance is nonnegative is assumed.",
    "C16": ARITY,
    "C17": "Products of two processes with an arbitrary joint law; all sizes, inputs and values. One known finding.",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH,
                "level": "proof",
                "level_note": NOTE.get(
                    i,
                    "Every obligation is discharged for all sizes and values over real arithmetic, relative to the "
                    "contracts of LAB's primitives; arities of variadic operations are bounded as stated in DESIGN.md.",
                ),
            }
        )
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump(
    {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, lab, matrix, mlkernels, algebra, plum\"",
        "checks": checks,
        "not_applicable": na,
    },
    open(os.path.join(ROOT, "MANIFEST.json"), "w"),
    indent=1,
)
