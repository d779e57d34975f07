"""generate-index-json on directories of up to three wheels of all kinds, listed in any order."""
import itertools
import json

from harness.wheels import KINDS, TABLES, agree, index_says, variant_wheel, world

FUNCTIONS = ["variantlib.commands.generate_index_json:", "variantlib.variant_dist_info:", "variantlib.variants_json:"]
SHAPES = {
    "quick": [
        dict(name="one", wheels=(0, 1), kinds=KINDS, lal="kl", mislabel=True, n=(0, 1), nal="n", fal="f", val="12", tables=(0, 1, 4, 5), files=(0, 1),
             which=[[1, 8]], covers=["listed", "skipped", "mislabelled"]),
        dict(name="two", wheels=(2,), kinds=("good",), lal="kl", n=(1,), nal="n", fal="f", val="12", tables=(1, 2), tags=("any", "win"),
             projects=("x-1", "y-2"), covers=["listed", "disagreeing", "two projects"]),
        dict(name="mixed", wheels=(2,), kinds=KINDS, lal="kl", mislabel=True, n=(1,), nal="n", fal="f", val="1", covers=["listed", "skipped", "mislabelled"]),
        dict(name="nulls", wheels=(2,), kinds=("good",), lal="k", n=(0, 1), nal="n", fal="f", val="1", tables=(0,), tags=("any", "win"), covers=["listed", "mislabelled"]),
        dict(name="order", wheels=(3,), kinds=("good",), lal="kl", n=(1,), nal="n", fal="f", val="1", tables=(1, 3), tags=("any", "win"), covers=["listed", "disagreeing"]),
        dict(name="missing", missing=True, covers=["missing"]),
        dict(name="many", many=(10, 40), wheels=(1,), kinds=("good",), lal="kl", n=(1,), nal="n", fal="f", val="12", tables=(1, 2), covers=["listed", "disagreeing"]),
        dict(name="prefixes", wheels=(2,), kinds=("good",), lal="k", n=(1,), nal="n", fal="f", val="1", tables=(1,), grow=True, covers=["listed"]),
        dict(name="spellings", wheels=(2,), kinds=("good",), lal="k", n=(1,), nal="n", fal="f", val="1", tables=(1,), tags=("any", "win"), projects=("x-1", "X-1", "x_Y-1.0+l", "x.y-1"), builds=("", "-2b"), covers=["listed", "two projects"]),
    ],
    "thorough": [
        dict(name="one", wheels=(0, 1), kinds=KINDS, lal="klm", ll=(1, 2), mislabel=True, n=(0, 1, 2), nal="nm", fal="fg", val="12", tables=(0, 1, 2, 3, 4, 5),
             files=(0, 1), which=[[0, 1, 2, 4, 8]], covers=["listed", "skipped", "mislabelled"]),
        dict(name="two", wheels=(2,), kinds=("good",), lal="kl", n=(0, 1, 2), nal="n", fal="f", val="12", tables=(1, 2, 3, 4, 5), tags=("any", "win"),
             projects=("x-1", "y-2"), covers=["listed", "disagreeing", "two projects"]),
        dict(name="mixed", wheels=(3,), kinds=KINDS, lal="kl", mislabel=True, n=(1,), nal="n", fal="f", val="1", covers=["listed", "skipped", "mislabelled"]),
        dict(name="order", wheels=(3,), kinds=("good",), lal="kl", n=(0, 1), nal="n", fal="f", val="12", tables=(1, 3), tags=("any", "win"),
             projects=("x-1", "y-2"), covers=["listed", "disagreeing"]),
        dict(name="four", wheels=(4,), kinds=("good", "none"), lal="kl", n=(1,), nal="n", fal="f", val="1", tables=(1, 3), tags=("any", "win"), covers=["listed", "disagreeing"]),
        dict(name="missing", missing=True, covers=["missing"]),
    ],
}
CONSTANTS = ["null", "n", "f", "g", "3", "9", "other", "plug"]


SUB = json.dumps({"default-priorities": {"namespace": ["sub"]}, "providers": {"sub": {"requires": ["sub"]}},
                  "variants": {"s": {"sub": {"f": ["1"]}}}})


def scenario(S):
    from variantlib.commands.generate_index_json import generate_index_json
    from variantlib.models.variant import VariantProperty

    p = S.p
    with world(S) as w:
        w.dir("w/d")
        if p.get("missing"):
            S.cover("missing")
            w.file("w/f.whl", b"")
            before = w.all()
            r, _ = w.run(generate_index_json, ["-d", ("w/none", "w/f.whl")[S.flag("file")]])
            S.check(not r.ok and w.unchanged(before), "missing directory", f"{r!r}")
            return
        others = []
        for i in range(S.pick("many", p.get("many", (0,)))):
            meta = json.dumps({**TABLES[1], "variants": {f"y{i}": {"n": {"f": [f"y{i}"]}}}})
            others.append((f"x-1-py3-none-any-y{i}.whl", "x-1", f"y{i}", "good", TABLES[1], f"y{i}", [VariantProperty("n", "f", f"y{i}")]))
            w.zip("w/d/" + others[-1][0], [("x-1.dist-info/variant.json", meta.encode("utf-8"), 0o644)])
        wheels = [variant_wheel(S, w, f"w{i}", p, "w/d", p["kinds"]) for i in range(S.pick("wheels", p["wheels"]))]
        w.file("w/d/notes.txt", b"unrelated")
        # below the directory, hence not in it
        w.dir("w/d/sub")
        w.zip("w/d/sub/x-1-py3-none-any-s.whl", [("x-1.dist-info/variant.json", SUB, 0o644)])
        # the index of an earlier run, with the variants of other wheels
        table = TABLES[p.get("tables", (1,))[0]]
        old = S.pick("old-index", (None, *(["empty"] if p.get("mislabel") else []), "full"))
        if old:
            was = {f"o{i}": {"n": {"f": [f"o{i}"]}} for i in range(60)}
            text = json.dumps({**table, "variants": was}, indent=4) if old == "full" else "{}"
            w.file("w/d/x-1-variants.json", text.encode("utf-8"))
        w.rank = [x[0] for x in S.perm("listed", wheels)]
        if others:
            w.rank[S.pick("at", (0, 1)):0] = [x[0] for x in others]
        before = w.all()
        r, _ = w.run(generate_index_json, ["-d", "w/d"])
        S.observe("result", r)
        S.check(r.ok, "runs", f"{r!r} for {[x[:4] for x in wheels]!r}")
        usable = [x for x in wheels if x[3] == "good"]
        written = []
        for project in p.get("projects", ("x-1",)):
            mine = [x for x in usable if x[1] == project]
            if not mine:
                continue
            path = f"w/d/{project}-variants.json"
            written.append(path)
            data = w.read(path)
            S.check(data is not None, "written", f"no index for {[x[:4] for x in mine]!r}")
            outcomes = []
            for order in [[*others, *mine], [*mine, *others]] if others else itertools.permutations(mine):
                state = None
                for x in order:
                    new = agree(S, state, x)
                    if new is None:
                        S.cover("disagreeing")
                    state = new or state
                outcomes.append(state)
            S.check(S.Or(*[index_says(S, data, *o) for o in outcomes]), "index", f"{data!r} for {[x[:4] for x in mine]!r}")
            S.cover("listed")
        if len(written) == 2:
            S.cover("two projects")
        for x in wheels:
            if x[3] != "good":
                S.cover("mislabelled" if x[3] == "mislabelled" else "skipped")
        S.check(w.unchanged(before, written), "nothing else written", f"{[t for t, _ in w.all()]!r}")
