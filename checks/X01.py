"""The wheel and index commands with one file operation, any one, failing or being the last
before the process ends; then the same command again."""
import json

from harness.metadata import nested, variant
from harness.wheels import TABLES, build, variant_wheel, world

FUNCTIONS = ["variantlib.commands.make_variant:_make_variant", "variantlib.commands.unmake_variant:", "variantlib.commands.generate_index_json:",
             "variantlib.commands.add_wheel_to_index_json:", "variantlib.commands.utils:"]
_I = dict(lal="kl", n=(1,), nal="n", fal="f", val="1", tables=(1,))
SHAPES = {
    "quick": [
        dict(name="make", command="make", files=(0, 1, 2), which=[[0], [3]], dl=(0, 2), covers=["error", "killed", "completed", "over old output"]),
        dict(name="unmake", command="unmake", files=(0, 1, 2), which=[[0], [3]], dl=(0, 2), covers=["error", "killed", "completed", "over old output"]),
        dict(name="generate", command="generate", wheels=(1, 2), **_I, covers=["error", "killed", "completed", "over old output"]),
        dict(name="add", command="add", **_I, covers=["error", "killed", "completed", "over old output"]),
    ],
    "thorough": [
        dict(name="make", command="make", files=(0, 1, 2, 3), dl=(0, 2), after=(0, 1), covers=["error", "killed", "completed", "over old output"]),
        dict(name="unmake", command="unmake", files=(0, 1, 2, 3), dl=(0, 2), after=(0, 1), covers=["error", "killed", "completed", "over old output"]),
        dict(name="generate", command="generate", wheels=(1, 2, 3), projects=("x-1", "y-2"), **{**_I, "n": (0, 1), "tables": (1, 3)},
             covers=["error", "killed", "completed", "over old output"]),
        dict(name="add", command="add", **{**_I, "n": (0, 1), "tables": (1, 3)}, covers=["error", "killed", "completed", "over old output"]),
    ],
}
SIBLINGS = [("w/d/x-1-py2-none-any.whl", b""), ("w/d/x-0-variants.json", b"{}"), ("w/d/x-1-variants.json.tmp", b"old"), ("w/o/x-1-py2-none-any.whl", b""),
            ("w/o/x-1-py3-none-any-j.whl", b""), ("w/o/x-0-py3-none-any-k.whl", b"old"), ("w/o/x-1-variants.json.old", b""), ("w/o/x-0-variants.json", b"")]
CONSTANTS = ["null", "n", "f", "g", "3", "9", "other", "plug"]


def scenario(S):
    p = S.p
    with world(S, memory=True) as w:
        for d in ("w/d", "w/o"):
            w.dir(d)
        w.file("w/d/notes.txt", b"unrelated")
        w.file("w/o/notes.txt", b"unrelated")
        # other wheels and indices, among them empty and unreadable ones, beside the input and the output
        for t, c in SIBLINGS:
            w.file(t, c)
        outputs, fn, args = COMMANDS[p["command"]](S, w)
        if S.flag("old output"):
            for o in outputs:
                w.file(o, b"old")
            old = True
        else:
            old = False
        inputs = [(t, c) for t, c in w.all() if t not in outputs]
        kept = lambda: S.And(*[S.Or(*[S.And(S.eq(t, u), S.eq(c, d)) for u, d in w.all()]) for t, c in inputs])  # noqa: E731
        # what it does when nothing happens
        saved = [(t, n.content, n.entries) for t, n in w.files]
        w.made = []
        r, _ = w.run(fn, args)
        S.check(r.ok, "runs", f"{r!r} for {args!r}")
        want = w.all()
        S.check(S.And(kept(), len(want) == len(inputs) + len(outputs)), "only the output", f"{[t for t, _ in want]!r}")
        # what it does when something does, and when there already is a file by any name it used
        names = [t for t in w.made if not any(t == o or t.startswith(o + "/") for o in outputs + w.unique)]
        if names:
            name = S.pick("bystander", (None, *dict.fromkeys(names)))
            if name is not None:
                saved.append((name, b"mine", None))
                inputs.append((name, (b"mine", None)))
        restore(w, saved)
        w.faults, w.steps = ("error", "killed"), 0
        r, _ = w.run(fn, args)
        w.faults, fault, w.fault = (), w.fault, None
        S.observe("fault", fault)
        S.check(kept(), "damage", f"{fault} at operation {w.steps}: {[t for t, _ in w.all()]!r}")
        if fault == "error":
            S.check(r is not None and not r.ok or holds(S, w.all(), want), "silent failure", f"{r!r} after an error at operation {w.steps}")
        S.cover(fault or "completed")
        if old:
            S.cover("over old output")
        # again
        r, _ = w.run(fn, args)
        S.check(r.ok, "again", f"{r!r} for {args!r}")
        S.check(holds(S, w.all(), want), "different result", f"{fault} at operation {w.steps}: {w.all()!r} instead of {want!r}")


def holds(S, now, want):
    return S.And(*[S.Or(*[S.And(S.eq(t, u), S.eq(c, d)) for u, d in now]) for t, c in want])


def restore(w, saved):
    from harness.wheels import Node

    w.files = [(t, Node(c, e)) for t, c, e in saved]


def make(S, w):
    from variantlib.commands.make_variant import make_variant

    entries, _ = build(S, S.p)
    w.zip("w/d/x-1-py3-none-any.whl", entries)
    w.file("w/d/pyproject.toml", b"[variant]\n")
    args = ["-f", "w/d/x-1-py3-none-any.whl", "-o", "w/o", "--pyproject-toml", "w/d/pyproject.toml", "--skip-plugin-validation", "--no-isolation",
            "-p", "n::f::1", "--variant-label", "k"]
    return ["w/o/x-1-py3-none-any-k.whl"], make_variant, args


def unmake(S, w):
    from variantlib.commands.unmake_variant import unmake_variant

    entries, _ = build(S, S.p, meta="{}")
    w.zip("w/d/x-1-py3-none-any-k.whl", entries)
    return ["w/o/x-1-py3-none-any.whl"], unmake_variant, ["-f", "w/d/x-1-py3-none-any-k.whl", "-o", "w/o"]


def generate(S, w):
    from variantlib.commands.generate_index_json import generate_index_json

    p = S.p
    wheels = [variant_wheel(S, w, f"w{i}", p, "w/d", ("good",)) for i in range(S.pick("wheels", p["wheels"]))]
    for x in wheels:
        S.assume(x[3] == "good")
    return ["w/d/" + x + "-variants.json" for x in sorted({x[1] for x in wheels})], generate_index_json, ["-d", "w/d"]


def add(S, w):
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json

    p = S.p
    wheel = variant_wheel(S, w, "w", p, "w/d", ("good",))
    S.assume(wheel[3] == "good")
    table = TABLES[p["tables"][0]]
    label = S.str("label", 1, "z")
    w.file("w/d/i.json", json.dumps({**table, "variants": {label: nested(S, variant(S, "i", 1, p))}}).encode("utf-8"))
    S.assume(wheel[4] == table)
    return ["w/o/x-1-variants.json"], add_wheel_to_index_json, ["-f", "w/d/" + wheel[0], "-o", "w/o", "-i", "w/d/i.json", "-w"]


COMMANDS = dict(make=make, unmake=unmake, generate=generate, add=add)
