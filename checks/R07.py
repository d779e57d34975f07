"""Arguments of the resolver before and after a call (deep copies made by the
check), and the result of a second call with the same arguments, for every
argument combination of the listed sizes, absent optional arguments included."""
from harness.env import platform
from harness.resolver import sprops, variant

CONSTANTS = ["n", "x", "g"]
FUNCTIONS = ["variantlib.resolver.", "variantlib.utils:"]
SHAPES = {
    "quick": [
        dict(name="resolve", nd=(0, 1, 2), np=(0, 1), ns_=(0, 1, 2), nal="nx", fal="fg", val="12"),
        dict(name="resolve-two", nd=(1,), np=(2,), ns_=(2,), nal="n", fal="fg", val="12"),
        dict(name="filter", filter=True, nd=(1, 2), np=(1,), ns_=(1, 2), nal="nx", fal="f", val="12"),
        dict(name="steps", step=True, nd=(1, 2), np=(1,), ns_=(1, 2), nal="n", fal="fg", val="12"),
        dict(name="many", many=(30,), nd=(1,), np=(1,), ns_=(1,), nal="n", fal="fg", val="12"),
        dict(name="many-steps", many=(30,), step=True, nd=(1,), np=(1,), ns_=(1,), nal="n", fal="fg", val="12"),
        dict(name="prefixes", nd=(1,), np=(1,), ns_=(1,), nal="n", fal="f", val="1", grow=True),
    ],
    "thorough": [
        dict(name="resolve", nd=(0, 1, 2), np=(0, 1, 2), ns_=(0, 1, 2), nal="nx", fal="fg", val="12"),
        dict(name="filter", filter=True, nd=(1, 2, 3), np=(1,), ns_=(1, 2), nal="nx", fal="fg", val="12"),
        dict(name="steps", step=True, nd=(1, 2, 3), np=(1,), ns_=(1, 2), nal="nx", fal="fg", val="12"),
    ],
}
ARGS = ("forbidden_namespaces", "forbidden_features", "forbidden_properties", "feature_priorities", "property_priorities")


def copied(x):
    if isinstance(x, list):
        return [copied(i) for i in x]
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    return x


def scenario(S):
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
    from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants

    p = S.p
    ds = [variant(S, f"d{i}", S.pick(f"np{i}", p["np"])) for i in range(S.pick("nd", p["nd"]))]
    supp = sprops(S, "s", S.pick("ns_", p["ns_"]))
    nss = ["x", "n"]
    if p.get("many"):
        more = [VariantProperty("n", "h", f"y{i}") for i in range(S.pick("many", p["many"]))]
        ds = [VariantDescription([x]) for x in more] + ds
        supp = more + supp
    given = S.pick("given", (None, *ARGS, "all")) if not p.get("step") else None
    opt = {}
    fn = lambda *a, **k: list(filter_variants(*a, **k))
    if given in ("forbidden_namespaces", "all"):
        opt["forbidden_namespaces"] = ["x"]
    if given in ("forbidden_features", "all"):
        opt["forbidden_features"] = [VariantFeature("n", "g")]
    if given in ("forbidden_properties", "all"):
        opt["forbidden_properties"] = sprops(S, "fp", 1)
    if p.get("step"):
        fn, args = step(S, p, ds, supp)
    elif p.get("filter"):
        args = [ds, supp]
    else:
        args = [ds, supp, nss]
        fn = sort_and_filter_supported_variants
        if given in ("feature_priorities", "all"):
            opt["feature_priorities"] = {"n": ["g"], "q": []}
        if given in ("property_priorities", "all"):
            opt["property_priorities"] = {"n": {"f": [S.str("pv", 1, p["val"])]}}
    before = copied([args, opt])
    inner = [list(d.properties) for d in ds]

    def run():
        with platform([("Foo.Bar", "7.8")]):
            return S.call(fn, *args, **opt)

    r1 = run()
    S.check(S.eq([args, opt], before), "argument-changed", "an argument was modified")
    S.check(S.eq([list(d.properties) for d in ds], inner), "variant-changed")
    first = list(r1.value) if r1.ok else type(r1.exc)
    if r1.ok:
        r1.value.append(VariantDescription())
    r2 = run()
    S.check(S.eq(first, r2.value) if r1.ok and r2.ok else (not r1.ok and type(r2.exc) is first), "second-call",
            "the same call gives another result the second time")
    S.check(S.eq([args, opt], before), "argument-changed")
    S.observe("r", r2)


def step(S, p, ds, supp):
    """One of the steps of the resolution, by itself."""
    from variantlib.models.variant import VariantFeature
    from variantlib.resolver import filtering, sorting

    which = S.pick("step", ("duplicates", "namespaces", "features", "property", "sort properties", "sort variants"))
    if which == "duplicates":
        return lambda a: list(filtering.remove_duplicates(a)), [ds]
    if which == "namespaces":
        return lambda a, b: list(filtering.filter_variants_by_namespaces(vdescs=a, forbidden_namespaces=b)), [ds, ["x"]]
    if which == "features":
        return lambda a, b: list(filtering.filter_variants_by_features(vdescs=a, forbidden_features=b)), [ds, [VariantFeature("n", "g")]]
    if which == "property":
        return (lambda a, b, c: list(filtering.filter_variants_by_property(vdescs=a, allowed_properties=b, forbidden_properties=c)),
                [ds, supp, sprops(S, "fp", 1)])
    if which == "sort properties":
        return (lambda a, *prio: list(sorting.sort_variant_properties(a, *prio)),
                [supp, ["n", "x"], {"n": ["g"]}, {"n": {"f": ["2"]}}])
    return lambda a, b: list(sorting.sort_variants_descriptions(a, b)), [ds, supp]
