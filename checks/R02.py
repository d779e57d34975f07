"""De-duplication and filtering of candidate lists: for every list of the listed
sizes (equal candidates included) the result is exactly the first occurrence of
each compatible candidate, in the given order."""
from harness.resolver import compatible, count, same_variant, sprops, variant

FUNCTIONS = ["variantlib.resolver.filtering:", "variantlib.resolver.lib:filter_variants", "variantlib.models.variant:"]
SHAPES = {
    "quick": [
        dict(name="dedup", nd=(0, 1, 2, 3), np=(0, 1), covers=["repeat"]),
        dict(name="dedup-two", nd=(2,), np=(2,), nl=(1,), covers=["repeat"]),
        dict(name="boundaries", nd=(2,), np=(1, 2), nl=(1, 2), fl=(1,), vl=(1, 2), nal="ab", fal="a", val="ab", covers=["repeat"]),
        dict(name="four", nd=(4,), np=(1,), ns="n", fal="f", val="1234", covers=["repeat"]),
        dict(name="filter", nd=(2, 3), np=(1,), na=1, nal="nx", fal="f", val="12", covers=["repeat", "rejected"]),
        dict(name="many", nd=(2, 3), np=(0, 1), many=(40, 300), nal="nx", fal="f", val="12", covers=["repeat"]),
        dict(name="prefixes", nd=(2,), np=(1,), na=1, nal="n", fal="f", val="1", grow=True, covers=["repeat", "rejected"]),
    ],
    "thorough": [
        dict(name="dedup", nd=(0, 1, 2, 3, 4), np=(0, 1), covers=["repeat"]),
        dict(name="dedup-two", nd=(2,), np=(1, 2), nl=(1, 2), covers=["repeat"]),
        dict(name="boundaries", nd=(2,), np=(1, 2), nl=(1, 2), fl=(1, 2), vl=(1, 2), nal="ab", fal="ab", val="ab", covers=["repeat"]),
        dict(name="five", nd=(5,), np=(1,), ns="n", fal="f", val="12345", covers=["repeat"]),
        dict(name="filter", nd=(2, 3), np=(1, 2), na=2, nal="n", fal="fg", val="12", covers=["repeat", "rejected"]),
    ],
}


def scenario(S):
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.resolver.filtering import remove_duplicates
    from variantlib.resolver.lib import filter_variants

    p = S.p
    n = S.pick("n", p["nd"])
    ds = [variant(S, f"d{i}", S.pick(f"np{i}", p["np"])) for i in range(n)]
    if p.get("many"):
        ds[1:1] = [VariantDescription([VariantProperty("yy", "f", f"y{i}")]) for i in range(S.pick("many", p["many"]))]
    want = []
    for d in ds:
        if any(S.decide(same_variant(S, d, w)) for w in want):
            S.cover("repeat")
            continue
        want.append(d)
    given = list(ds)
    if "na" not in p:
        out = list(remove_duplicates(given))
    else:
        allowed = sprops(S, "a", p["na"], unique=False)
        keep = []
        for d in want:
            if S.decide(compatible(S, d, allowed)):
                keep.append(d)
            else:
                S.cover("rejected")
        want = keep
        out = list(filter_variants(vdescs=given, allowed_properties=allowed))
    S.observe("out", out)
    S.check(S.eq(out, want), "list", "not the first occurrences of the compatible candidates in order")
    S.check(len(given) == len(ds) and all(x is y for x, y in zip(given, ds)), "argument-changed")
