"""Writes the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
rows = {}
for f in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(f.read_text())
    rows.setdefault(m["property"], []).append((f.parent.name, m["needs"]))
out = ["| Property | Bug (caught by its quick check) | Needs |", "|---|---|---|"]
for p in sorted(rows):
    out += [f"| {p} | {i} | {n} |" for i, n in rows[p]]
d = ROOT / "DESIGN.md"
a, b = "<!-- planted -->", "<!-- /planted -->"
s = d.read_text()
d.write_text(s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):])
