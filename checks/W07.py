"""analyze-wheel: wheels of all kinds."""
from harness.wheels import KINDS, variant_wheel, world

FUNCTIONS = ["variantlib.commands.analyze_wheel:", "variantlib.variant_dist_info:", "variantlib.api:get_variant_label"]
SHAPES = {
    "quick": [
        dict(name="kinds", kinds=KINDS, lal="kl", mislabel=True, n=(0, 1), nal="n", fal="f", val="12", tables=(0, 1, 5), files=(0, 1), which=[[1, 8, 9]],
             covers=["variant", "null", "plain", "refused"]),
        dict(name="properties", kinds=("good",), lal="k", n=(2,), nal="n", fal="fg", val="12", tables=(1,), covers=["variant"]),
        dict(name="other files", kinds=("good", "none"), lal="k", n=(1,), nal="n", fal="f", val="1", tables=(1,), files=(1, 2),
             which=[list(range(15))] * 2, covers=["variant", "refused"]),
        dict(name="long", kinds=("good",), lal="k", n=(1, 2), nal="n", fal="f", val="12", tables=(1,), long=300, short=["label"], covers=["variant"]),
        dict(name="many", kinds=("good",), lal="k", n=(0, 1), nal="n", fal="f", val="12", tables=(1,), more=(12, 60), covers=["variant"]),
        dict(name="prefixes", kinds=("good",), lal="k", n=(2,), nal="n", fal="f", val="1", tables=(1,), grow=True, covers=["variant"]),
        dict(name="spellings", kinds=("good", "plain"), lal="k", n=(1,), nal="n", fal="f", val="1", tables=(1,), projects=("X-1", "x_Y-1.0+l", "x.y-1"), builds=("", "-2b"), covers=["variant", "plain"]),
    ],
    "thorough": [
        dict(name="kinds", kinds=KINDS, lal="klm", ll=(1, 2, 8), mislabel=True, n=(0, 1), nal="n", fal="fg", val="12", tables=(0, 1, 2, 3, 4, 5), files=(0, 1),
             which=[[1, 8, 9]], covers=["variant", "null", "plain", "refused"]),
        dict(name="properties", kinds=("good",), lal="k", n=(1, 2, 3), nal="nm", fal="fg", val="1.", tables=(0,), covers=["variant"]),
        dict(name="long", kinds=("good",), lal="k", n=(1,), nal="n9_", fal="f9_", val="1.a", lens=(1, 2, 3), vlens=(1, 2, 3), tables=(0,), covers=["variant"]),
    ],
}
CONSTANTS = ["null", "n", "f", "g", "3", "9", "other", "plug"]


def scenario(S):
    from variantlib.commands.analyze_wheel import analyze_wheel
    from variantlib.models.variant import VariantDescription

    p = S.p
    with world(S) as w:
        w.dir("w/d")
        filename, _, label, kind, _, _, qs = variant_wheel(S, w, "w", p, "w/d", p["kinds"])
        before = w.all()
        r, out = w.run(analyze_wheel, ["-i", "w/d/" + filename])
        S.observe("result", r)
        S.check(w.unchanged(before), "writes", f"{filename!r}")
        if kind == "plain":
            S.check(r.ok and not bool(out), "plain", f"{r!r} {out!r} for {filename!r}")
            S.cover("plain")
            return
        if kind != "good":
            S.check(not r.ok, "accepts", f"{out!r} for {filename!r}, which is {kind}")
            S.cover("refused")
            return
        S.check(r.ok, "fails", f"{r!r} for {filename!r} {qs!r}")
        head, *lines, foot, end = out.split("\n")
        vhash = VariantDescription(list(qs)).hexdigest if qs else "null"
        S.check(S.eq(head.strip("# "), "Variant: `" + vhash + "`"), "label", f"{head!r} for {qs!r}")
        want = [q.namespace + " :: " + q.feature + " :: " + q.value for q in qs]
        S.check(S.And(len(lines) == len(want), end == "", *[S.Or(*[S.eq(x, y) for y in lines]) for x in want]), "properties", f"{out!r} for {qs!r}")
        S.cover("variant" if qs else "null")
