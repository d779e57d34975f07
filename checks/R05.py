"""The null variant in the result of sort_and_filter_supported_variants: exactly
once and last, for every candidate list with or without null variants (at any
position), every supported-property list and forbid-lists of the listed sizes."""
from harness import NAME
from harness.env import platform
from harness.resolver import count, sprops, variant

FUNCTIONS = ["variantlib.resolver."]
C = ["null-given", "null-implicit", "offered", "alone"]
SHAPES = {
    "quick": [
        dict(name="supported", nd=(0, 1, 2), np=(1,), ns_=(0, 1, 2), nnull=(0, 1, 2), covers=C),
        dict(name="two-props", nd=(1,), np=(2,), ns_=(2,), nnull=(0, 1), covers=C),
        dict(name="forbidden", nd=(1, 2), np=(1,), ns_=(1,), nnull=(0, 1), forbid=True, covers=C),
        dict(name="many-values", nd=(1, 2), np=(1,), ns_=(1,), nnull=(0, 1), many=(30, 1500), of="value", ns="n", fal="f", val="12", constants=("n", "f"), covers=C),
        dict(name="many-features", nd=(1, 2), np=(1,), ns_=(1,), nnull=(0, 1), many=(30, 150), of="feature", ns="n", fal="f", val="12", constants=("n", "f"), covers=C),
        dict(name="many-variants", nd=(1, 2), np=(1,), ns_=(1,), nnull=(0, 1), many=(30, 150), of="variant", ns="n", fal="f", val="12", constants=("n", "f"), covers=["null-given", "null-implicit", "offered"]),
        dict(name="prefixes", nd=(1,), np=(1,), ns_=(1,), nnull=(0, 1), nal="n", fal="f", val="1", grow=True, covers=["null-given"]),
    ],
    "thorough": [
        dict(name="supported", nd=(0, 1, 2, 3), np=(1,), ns_=(0, 1, 2), nnull=(0, 1, 2), covers=C),
        dict(name="two-props", nd=(1, 2), np=(1, 2), ns_=(2, 3), nnull=(0, 1), nal="n", fal="fg", val="12", covers=C),
        dict(name="forbidden", nd=(1, 2), np=(1, 2), ns_=(1,), nnull=(0, 1), forbid=True, covers=C),
    ],
}


def scenario(S):
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
    from variantlib.resolver.lib import sort_and_filter_supported_variants

    p = S.p
    ds = [variant(S, f"d{i}", S.pick(f"np{i}", p["np"])) for i in range(S.pick("nd", p["nd"]))]
    for i in range(S.pick("nnull", p["nnull"])):
        ds.insert(S.pick(f"at{i}", range(len(ds) + 1)), VariantDescription())
    S.cover("null-given" if any(not d.properties for d in ds) else "null-implicit")
    supp = sprops(S, "s", S.pick("ns_", p["ns_"]))
    if p.get("many"):
        more = [VariantProperty("n", "f" if p["of"] != "feature" else f"y{i}", f"y{i}") for i in range(S.pick("many", p["many"]))]
        supp = more + supp
        if p["of"] == "variant":
            k = len(more) // 2
            ds = [VariantDescription([q]) for q in more[:k]] + ds + [VariantDescription([q]) for q in more[k:]]
    ns_prio = ["n"] if p.get("many") else [q.namespace for q in supp]
    kw = {}
    if p.get("forbid"):
        kw["forbidden_namespaces"] = [S.str("fn", 1, p.get("nal", NAME))] if S.flag("f-ns") else []
        kw["forbidden_features"] = [VariantFeature(S.str("ffn", 1, p.get("nal", NAME)), S.str("fff", 1, NAME))] if S.flag(
            "f-f") else None
        kw["forbidden_properties"] = sprops(S, "fp", 1) if S.flag("f-p") else None
    with platform():
        out = sort_and_filter_supported_variants(list(ds), list(supp), ns_prio, **kw)
    S.observe("out", out)
    S.cover("offered" if len(out) > 1 else "alone")
    nulls = [i for i, d in enumerate(out) if not d.properties]
    S.check(nulls == [len(out) - 1], "null-last", f"null variant at {nulls} of {len(out)}")
    S.check(all(S.eq(d, VariantDescription()) for d in out[-1:]), "null-equal")
