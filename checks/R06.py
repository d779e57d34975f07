"""Two runs of sort_and_filter_supported_variants over the same input presented
differently (candidates permuted, each candidate's properties permuted, another
candidate added): the same variants are offered, and two variants the platform
distinguishes come in the same order.  Both orders of every set iteration are
explored in the shapes with setorder."""
from harness.env import platform
from harness.resolver import distinct, prefer, same_variant, sprops

CONSTANTS = ["n", "x"]
FUNCTIONS = ["variantlib.resolver.", "variantlib.models.variant:"]
C = ["distinguished", "undistinguished"]
SHAPES = {
    "quick": [
        dict(name="order", nd=2, np=(1,), ns_=2, nal="n", fal="fg", val="123", covers=["distinguished"]),
        dict(name="properties", nd=2, np=(2,), ns_=2, nal="n", fal="fg", val="12", covers=["distinguished"]),
        dict(name="sets", nd=2, np=(1, 2), ns_=2, nal="n", fal="f", val="123", setorder=True, covers=C),
        dict(name="additional", nd=2, np=(1,), ns_=2, extra=1, nal="n", fal="fg", val="12", covers=["distinguished"]),
        dict(name="three", nd=3, np=(1,), ns_=3, ns="n", fal="f", val="1234", covers=["distinguished"]),
        dict(name="many", nd=2, np=(1,), ns_=2, many=(20, 50), ns="n", fal="fg", val="12", constants=("n", "f", "g"), covers=["distinguished"]),
        dict(name="prefixes", nd=2, np=(1,), ns_=2, ns="n", fal="f", val="1", grow=True, covers=["distinguished"]),
    ],
    "thorough": [
        dict(name="order", nd=2, np=(1,), ns_=3, nal="nx", fal="fg", val="12", covers=["distinguished"]),
        dict(name="properties", nd=2, np=(1, 2), ns_=3, nal="n", fal="fg", val="12", covers=["distinguished"]),
        dict(name="sets", nd=2, np=(1, 2), ns_=3, nal="n", fal="fg", val="12", setorder=True, covers=C),
        dict(name="additional", nd=2, np=(1, 2), ns_=2, extra=2, nal="n", fal="fg", val="12", covers=["distinguished"]),
        dict(name="three", nd=3, np=(1, 2), ns_=3, ns="n", fal="f", val="123", covers=["distinguished"]),
    ],
}


def scenario(S):
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.resolver.lib import sort_and_filter_supported_variants

    p = S.p
    lists = [sprops(S, f"d{i}", S.pick(f"np{i}", p["np"])) for i in range(p["nd"])]
    supp = sprops(S, "s", p["ns_"])
    prio = ["n", "x"]
    first = [VariantDescription(list(x)) for x in lists]
    S.assume(distinct(S, first))
    second = S.perm("order", [VariantDescription(S.perm(f"props{i}", x)) for i, x in enumerate(lists)])
    extra = None
    if p.get("extra"):
        extra = VariantDescription(sprops(S, "e", p["extra"]))
        S.assume(S.And(*[S.Not(same_variant(S, extra, d)) for d in first]))
        second.insert(S.pick("extra-at", range(len(second) + 1)), extra)
    more = []
    if p.get("many"):  # other candidates, and features that come before those of the two
        ps = [VariantProperty("n", f"y{i}", v) for i in range(S.pick("many", p["many"])) for v in ("yy", "yz")]
        more = [VariantDescription([q, r]) for q, r in zip(ps[:1] * len(ps), ps[1:])]
        supp = ps + supp
        k = S.pick("more-at", (0, 2))
        second[k:k] = more
        if S.flag("more-before"):
            first = first + more[::-1]
    with platform():
        a = sort_and_filter_supported_variants(list(first), list(supp), list(prio))
        b = sort_and_filter_supported_variants(list(second), list(supp), list(prio))
    S.observe("a", a)
    if more:
        S.check([S.decide(S.eq(d, m)) for m in more for d in b if m is d] == [True] * len(more), "offered more")
        a, b = ([d for d in r if not any(d is m for m in more)] for r in (a, b))
    if extra is not None:
        b = [d for d in b if not S.decide(same_variant(S, d, extra))]
    S.check(len(a) == len(b) and S.And(*[S.Or(*[S.eq(x, y) for y in b]) for x in a]), "offered",
            "the presentation changes which variants are offered")
    supp = [s for s in supp if not any(s.feature.startswith("y") for _ in more[:1])]
    ordered = [s for n in prio for s in supp if S.decide(S.eq(s.namespace, n))]
    where = [next(j for j, y in enumerate(b) if S.decide(S.eq(x, y))) for x in a]
    for i in range(len(a)):
        for j in range(i):
            if where[j] > where[i]:
                S.cover("undistinguished")
                S.check(S.Not(S.Or(prefer(S, a[i], a[j], ordered), prefer(S, a[j], a[i], ordered))), "order",
                        "the presentation changes the order of distinguishable variants")
            else:
                S.cover("distinguished")
