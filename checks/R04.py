"""Ranking of variants: for every list of variants and ordered supported
properties of the listed sizes, the result is the stable order in which the
first (most important) feature where two variants differ decides, earlier
values first, using a feature before not using it; a variant with an unsupported
feature is refused.  Variants need not be distinct."""
from harness.env import platform
from harness.resolver import (compatible, count, distinct, expected, pads, ranked, same_feature, sprops, supported,
                              variant)

FUNCTIONS = ["variantlib.resolver.sorting:"]
CONSTANTS = ["n", "f", "1"]
C = ["ranked", "refused"]
SHAPES = {
    "quick": [
        dict(name="two-by-two", nd=2, np=(0, 1, 2), no=(0, 1, 2), nal="n", fal="fg", val="12", covers=C),
        dict(name="pairs", nd=2, np=(2,), no=3, nal="n", fal="fg", val="123", covers=C),
        dict(name="namespaces", nd=2, np=(1, 2), no=2, nal="nx", fal="f", val="12", covers=C),
        dict(name="three", nd=3, np=(0, 1), no=2, nal="n", fal="fg", val="12", covers=C),
        dict(name="multi-value", nd=2, np=(2,), no=3, ns="n", fal="f", val="1234", covers=["ranked"]),
        dict(name="three-features", nd=2, np=(2,), no=3, ns="n", fal="fgh", val="1", covers=["ranked"]),
        dict(name="any-name", nd=2, np=(1,), no=2, constants=(), covers=C),
        dict(name="full", full=True, nd=2, np=(1, 2), no=2, nf=1, nv=1, ns="n", fal="fg", val="12", covers=["ranked"]),
        dict(name="full-namespaces", full=True, nd=2, np=(1,), no=2, nns=2, nal="nx", fal="f", val="1", covers=["ranked"]),
        dict(name="many", nd=2, np=(1,), no=3, nal="n", many=(9, 30), fal="fg", val="123", covers=C),
        dict(name="prefixes", nd=2, np=(1,), no=2, nal="n", fal="f", val="1", grow=True, covers=C),
    ],
    "thorough": [
        dict(name="two-by-two", nd=2, np=(0, 1, 2), no=(0, 1, 2), nal="nx", fal="fg", val="12", covers=C),
        dict(name="pairs", nd=2, np=(2,), no=3, nal="n", fal="fg", val="123", covers=C),
        dict(name="four-supported", nd=2, np=(2,), no=4, nal="n", fal="fg", val="123", covers=C),
        dict(name="namespaces", nd=2, np=(1, 2), no=3, nal="nx", fal="f", val="12", covers=C),
        dict(name="three", nd=3, np=(0, 1, 2), no=2, nal="n", fal="fg", val="12", covers=C),
        dict(name="four", nd=4, np=(0, 1), no=3, nal="n", fal="fg", val="12", covers=C),
        dict(name="multi-value", nd=2, np=(2, 3), no=3, ns="n", fal="f", val="1234", covers=["ranked"]),
        dict(name="three-features", nd=2, np=(2, 3), no=3, ns="n", fal="fgh", val="1", covers=["ranked"]),
        dict(name="any-name", nd=2, np=(1, 2), no=2, constants=(), covers=C),
        dict(name="full", full=True, nd=2, np=(1, 2), no=3, nf=1, nv=1, ns="n", fal="fg", val="12", covers=["ranked"]),
        dict(name="full-namespaces", full=True, nd=2, np=(1, 2), no=2, nns=2, nal="nx", fal="f", val="12", covers=["ranked"]),
    ],
}


def full(S, ds, supp):
    """The whole of sort_and_filter_supported_variants."""
    from harness import NAME, VALUE
    from variantlib.models.variant import VariantDescription
    from variantlib.resolver.lib import sort_and_filter_supported_variants

    p = S.p
    ns_prio = [p.get("ns") or S.str(f"np{i}", 1, p["nal"]) for i in range(p.get("nns", 1))]
    S.assume(S.And(*[S.Or(*[S.eq(q.namespace, n) for n in ns_prio]) for q in supp]))
    S.assume(distinct(S, ds))
    feat_prio = {p["ns"]: [S.str("fp", 1, p["fal"])]} if p.get("nf") and S.flag("featprio") else None
    prop_prio = {p["ns"]: {S.str("vf", 1, p["fal"]): [S.str("vp", 1, p["val"])]}} if p.get("nv") and S.flag(
        "propprio") else None
    for i, a in enumerate(supp):
        for k in range(i + 2, len(supp)):
            for b in supp[i + 1:k]:  # providers list a feature's values together
                S.assume(S.Not(S.And(same_feature(S, a, supp[k]), S.Not(same_feature(S, a, b)))))
    with platform():
        out = sort_and_filter_supported_variants(list(ds), list(supp), list(ns_prio), feat_prio, prop_prio)
    S.observe("out", out)
    S.cover("ranked")
    null = VariantDescription()
    keep = [d for d in ds if S.decide(compatible(S, d, supp))]
    want = ranked(S, keep, expected(S, supp, ns_prio, feat_prio, prop_prio))
    if not any(d.is_null_variant() for d in ds):
        want.append(null)
    S.check(S.eq(out, want), "full-order", "not the documented preference order")


def scenario(S):
    from variantlib.errors import ValidationError
    from variantlib.resolver.sorting import sort_variants_descriptions

    p = S.p
    ds = [variant(S, f"d{i}", S.pick(f"np{i}", p["np"])) for i in range(p["nd"])]
    ordered = sprops(S, "o", count(S, "no", p["no"]))
    if p.get("many"):
        VP = type(ordered[0])
        kind = S.pick("many.kind", ("features", "values"))
        ordered = [VP("n", x, "1") if kind == "features" else VP("n", "f", x) for x in pads(S, "many")] + ordered
    if p.get("full"):
        return full(S, ds, ordered)
    r = S.call(sort_variants_descriptions, list(ds), list(ordered))
    S.observe("out", r)
    if not S.decide(S.And(*[supported(S, d, ordered) for d in ds])):
        S.cover("refused")
        S.check(r.refused(ValidationError), "refuse", "an unsupported variant was ranked")
        return
    S.cover("ranked")
    S.check(r.ok, "accept")
    S.check(S.eq(r.value, ranked(S, ds, ordered)), "order", "not the documented preference order")
