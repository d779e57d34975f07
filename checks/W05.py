"""add-wheel-to-index-json: wheels of all kinds, with no index, a valid, an invalid or a missing
one, into a new file, over another file or over the index itself."""
import json

from harness.metadata import nested, variant
from harness.wheels import KINDS, TABLES, agree, index_says, said_by, variant_wheel, world

FUNCTIONS = ["variantlib.commands.add_wheel_to_index_json:", "variantlib.variant_dist_info:", "variantlib.variants_json:"]
INDEXES = ("none", "valid", "in place", "text", "invalid", "missing")
SHAPES = {
    "quick": [
        dict(name="wheel", kinds=KINDS, lal="kl", mislabel=True, n=(0, 1), nal="n", fal="f", val="12", tables=(1, 5), files=(0, 1), which=[[1, 8]],
             index=("none", "valid"), itables=(1,), entries=(1,), covers=["added", "refused wheel", "disagrees"]),
        dict(name="index", kinds=("good",), lal="kl", n=(0, 1), nal="n", fal="f", val="12", index=INDEXES, itables=(1, 3), entries=(0, 1), inull=True,
             covers=["added", "refused index", "disagrees", "already there"]),
        dict(name="two", kinds=("good",), lal="kl", n=(1,), nal="n", fal="f", val="12", index=("valid", "in place"), itables=(1, 2, 4), entries=(2,),
             covers=["added", "disagrees", "already there"]),
        dict(name="output", kinds=("good",), lal="k", n=(1,), nal="n", fal="f", val="1", projects=("x-1", "y-2"), index=("none", "valid", "in place"), itables=(1,),
             entries=(1,), existing=True, covers=["added", "exists", "overwritten", "no directory"]),
        dict(name="long", kinds=("good",), lal="kl", n=(1,), nal="n", fal="f", val="12", index=("none", "valid"), itables=(1,), entries=(0, 1), long=300, short=["label"],
             covers=["added", "disagrees"]),
        dict(name="many", many=(12, 60), kinds=("good",), lal="kl", n=(0, 1), nal="n", fal="f", val="12", index=("valid", "in place"), itables=(1, 2), entries=(1,),
             covers=["added", "disagrees", "already there"]),
        dict(name="prefixes", kinds=("good",), lal="k", n=(1,), nal="n", fal="f", val="1", index=("valid", "in place"), itables=(1,), entries=(1,), grow=True, covers=["added", "disagrees", "already there"]),
        dict(name="spellings", kinds=("good",), lal="k", n=(1,), nal="n", fal="f", val="1", projects=("X-1", "x_Y-1.0+l", "x.y-1"), builds=("", "-2b"), index=("none", "valid"), itables=(1,), entries=(1,), covers=["added"]),
    ],
    "thorough": [
        dict(name="wheel", kinds=KINDS, lal="klm", ll=(1, 2), mislabel=True, n=(0, 1, 2), nal="n", fal="fg", val="12", tables=(0, 1, 2, 3, 4, 5), files=(0, 1),
             which=[[1, 8]], index=("none", "valid"), itables=(1, 5), entries=(1,), covers=["added", "refused wheel", "disagrees"]),
        dict(name="index", kinds=("good",), lal="kl", n=(0, 1, 2), nal="n", fal="f", val="12", index=INDEXES, itables=(0, 1, 2, 3, 4, 5), entries=(0, 1, 2), inull=True,
             tables=(1, 3), covers=["added", "refused index", "disagrees", "already there"]),
        dict(name="three", kinds=("good",), lal="klm", n=(1,), nal="n", fal="f", val="12", index=("valid", "in place"), itables=(1, 2, 4), entries=(3,),
             covers=["added", "disagrees", "already there"]),
        dict(name="output", kinds=("good",), lal="kl", n=(0, 1), nal="n", fal="f", val="12", projects=("x-1", "y-2"), index=INDEXES, itables=(1,),
             entries=(1,), existing=True, covers=["added", "exists", "overwritten", "no directory"]),
    ],
}
CONSTANTS = ["null", "n", "f", "g", "3", "9", "other", "plug"]


def scenario(S):
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json
    from variantlib.models.variant import VariantProperty

    p = S.p
    with world(S) as w:
        w.dir("w/d")
        wheel = variant_wheel(S, w, "w", p, "w/d", p["kinds"])
        filename, project, label, kind, table, _, qs = wheel
        out = "w/o/" + project + "-variants.json"
        if p.get("existing") and S.flag("no directory"):
            out = None
        else:
            w.dir("w/o")
        # the index
        how = S.pick("index", p["index"])
        at, state, text = "w/i.json", None, None
        if how in ("valid", "in place", "invalid"):
            itable = TABLES[S.pick("itable", p["itables"])]
            variants = []
            for i in range(S.pick("entries", p["entries"])):
                k = "null" if p.get("inull") and i == 0 and S.flag("null entry") else S.strv(f"i{i}.label", p.get("ll", (1,)), p["lal"])
                S.assume(S.And(*[S.Not(S.eq(k, l)) for l, _ in variants]))
                variants.append((k, [] if k == "null" else variant(S, f"i{i}.p", S.pick(f"i{i}.n", [n for n in p["n"] if n] or (1,)), p)))
            for i in range(S.pick("many", p.get("many", (0,)))):
                variants.insert(i, (f"y{i}", [VariantProperty("n", "f", f"y{i}")]))
            doc = {**{k: dict(v) for k, v in itable.items()}, "variants": {k: nested(S, q) for k, q in variants}}
            if how == "invalid":
                doc["variants"]["other"] = {"n": {"f": "9"}}
            state = said_by(itable), variants
            text = json.dumps(doc)
        elif how == "text":
            text = "{"
        if how == "in place":
            at = out
            S.assume(at is not None)
        if text is not None:
            w.file(at, text.encode("utf-8"))
        exists = how == "in place"
        if p.get("existing") and out and not exists and S.flag("existing"):
            w.file(out, b"something else")
            exists = True
        overwrite = S.flag("overwrite")
        args = ["-f", "w/d/" + filename, "-o", "w/o"] + ([] if how == "none" else ["-i", at]) + (["-w"] if overwrite else [])
        before = w.all()
        r, _ = w.run(add_wheel_to_index_json, args)
        S.observe("result", r)
        want = None
        if how in ("none", "valid", "in place"):
            want = agree(S, state, wheel)
        said = [wheel[:4], label, qs, state]
        if kind != "good" or want is None or out is None or (exists and not overwrite):
            S.check(not r.ok, "accepts", f"{said!r} {args!r}")
            S.check(w.unchanged(before), "refused but writes", f"{said!r}")
            S.cover("refused wheel" if kind != "good" else "no directory" if out is None else "exists" if want is not None else
                    "refused index" if how in ("text", "invalid", "missing") else "disagrees")
            return
        S.check(r.ok, "fails", f"{r!r} for {said!r} {args!r}")
        data = w.read(out)
        S.check(data is not None and S.decide(index_says(S, data, *want)), "index", f"{data!r} for {said!r}")
        S.check(w.unchanged(before, [out]), "something else written", f"{[t for t, _ in w.all()]!r}")
        S.cover("overwritten" if exists else "added")
        if state and len(want[1]) == len(state[1]):
            S.cover("already there")
