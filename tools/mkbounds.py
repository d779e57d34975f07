"""Writes /verif/BOUNDS.md: per check what is encoded and the bounds of every shape."""
import ast
import importlib.util
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
out = ["# What each check encodes and its bounds", "",
       "Written by tools/mkbounds.py from the checks themselves. A shape is one symbolic exploration; every tuple is a set of",
       "choices the solver ranges over (numbers of things, string lengths, alphabets as strings, table entries); strings have",
       "the stated lengths and symbolic characters from the stated alphabet. `covers` are the reachability witnesses: the check",
       "fails if one of them is not reached on an exhaustive run.", ""]
for p in props:
    f = ROOT / "checks" / f"{p['id']}.py"
    if not f.exists():
        continue
    doc = " ".join(ast.get_docstring(ast.parse(f.read_text())).split())
    spec = importlib.util.spec_from_file_location("c" + p["id"], f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out += [f"## {p['id']}: {p['title']}", "", doc, "", "Functions: " + ", ".join(f"`{x}`" for x in m.FUNCTIONS), ""]
    for tier in ("quick", "thorough"):
        if tier not in m.SHAPES:
            out += [f"{tier}: as quick", ""]
            continue
        out += [f"{tier}:", ""]
        for s in m.SHAPES[tier]:
            rest = ", ".join(f"{k}={v!r}" for k, v in s.items() if k not in ("name", "covers"))
            out.append(f"- {s.get('name', '-')}: {rest[:600]}; covers {', '.join(s.get('covers', getattr(m, 'COVERS', ())))}")
        out.append("")
(ROOT / "BOUNDS.md").write_text("\n".join(out))
