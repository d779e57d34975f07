"""Writes /verif/MANIFEST.json: one check per checks/<ID>.py, the rest not applicable."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
NA = {
}
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "checks" / f"{i}.py").exists():
        checks.append({
            "property": i,
            "quick_cmd": f"./run.py {i} quick",
            "thorough_cmd": f"./run.py {i} thorough",
            "technique": "symbolic execution of the real Python code (AST-instrumented) with z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": "Bounded: decided for all values within the shapes listed in the evidence (string lengths, alphabets, "
                          "list sizes); environment stubbed as described in DESIGN.md; counterexamples replayed on the real code.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet: harness not built.")})
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3\"",
    "checks": checks,
    "not_applicable": na,
}, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in na])
