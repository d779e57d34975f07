"""sort_variant_properties: for every property list and priority lists of the
listed sizes the result is the documented order (namespace, feature, value
priority; the unmentioned after the mentioned, as listed), nothing is lost or
added, and a namespace without priority is refused.  Precondition, as for lists
coming from providers: the properties of a feature without priority are listed
next to each other within their namespace."""
from harness.resolver import BIG, count, expected, index, lookup, pads, same_feature, sprops

FUNCTIONS = ["variantlib.resolver.sorting:"]
C = ["sorted"]
SHAPES = {
    "quick": [
        dict(name="namespaces", n=3, nns=(0, 1, 2, 3), nal="abc", fal="f", val="12", covers=["sorted", "refused"]),
        dict(name="features", n=3, nns=2, nf=(0, 2), ns="a", fal="fgh", val="12", covers=C),
        dict(name="features-two-ns", n=3, nns=2, nf=1, nf2=1, nal="ab", fal="fg", val="1", covers=C),
        dict(name="values", n=3, nns=1, nf=1, nv=(0, 2), ns="a", fal="fg", val="123", covers=C),
        dict(name="values-two-keys", n=3, nns=1, nv=1, nv2=1, ns="a", fal="fg", val="123", covers=C),
        dict(name="mixed", n=3, nns=2, nf=1, nv=1, nal="ab", fal="fg", val="12", covers=C),
        dict(name="any-name", n=3, nns=2, nf=1, nv=1, covers=["sorted", "refused"]),
        dict(name="many-namespaces", n=2, nns=2, many=(9, 1500), nal="ab", fal="f", val="1", covers=["sorted", "refused"]),
        dict(name="many-features", n=3, nns=1, nf=2, ns="a", many=(9, 1500), fal="fgh", val="1", covers=C),
        dict(name="many-values", n=3, nns=1, nv=2, ns="a", many=(9, 1500), fal="f", val="123", covers=C),
        dict(name="prefixes", n=3, nns=2, nf=1, nf2=1, nal="a", fal="f", val="1", grow=True, short=["val"], covers=["sorted", "refused"]),
    ],
    "thorough": [
        dict(name="namespaces", n=4, nns=(0, 1, 2, 3, 4), nal="abcd", fal="f", val="12", covers=["sorted", "refused"]),
        dict(name="features", n=4, nns=2, nf=(0, 1, 2, 3), ns="a", fal="fgh", val="12", covers=C),
        dict(name="features-two-ns", n=3, nns=2, nf=2, nf2=1, nal="ab", fal="fg", val="1", covers=C),
        dict(name="values", n=4, nns=1, nf=1, nv=(0, 1, 2, 3), ns="a", fal="fg", val="123", covers=C),
        dict(name="values-two-keys", n=3, nns=1, nv=2, nv2=1, ns="a", fal="fg", val="123", covers=C),
        dict(name="mixed", n=3, nns=2, nf=2, nv=2, nal="ab", fal="fg", val="12", covers=C),
        dict(name="any-name", n=3, nns=2, nf=1, nv=1, nl=(1, 2), covers=["sorted", "refused"]),
    ],
}


def scenario(S):
    from harness import NAME, VALUE
    from variantlib.errors import ValidationError
    from variantlib.resolver.sorting import sort_variant_properties

    p = S.p
    nal, fal, val = p.get("nal", NAME), p.get("fal", NAME), p.get("val", VALUE)
    props = sprops(S, "p", p["n"])
    ns_prio = pads(S, "many.n") + [p["ns"] if p.get("ns") and i == 0 else S.str(f"np{i}", 1, nal) for i in range(count(S, "nns", p["nns"]))]

    def nsname(name):
        return p["ns"] if p.get("ns") else S.str(name, 1, nal)

    feat_prio = prop_prio = None
    if "nf" in p and S.flag("featprio"):
        feat_prio = {nsname("fk"): pads(S, "many.f") + [S.str(f"fp{i}", 1, fal) for i in range(count(S, "nf", p["nf"]))]}
        if "nf2" in p:
            k2 = S.str("fk2", 1, nal)
            S.assume(S.Not(S.eq(k2, next(iter(feat_prio)))))
            feat_prio[k2] = [S.str(f"fp2{i}", 1, fal) for i in range(p["nf2"])]
    if "nv" in p and S.flag("propprio"):
        n1 = nsname("vk")
        prop_prio = {n1: {S.str("vf", 1, fal): pads(S, "many.v") + [S.str(f"vp{i}", 1, val) for i in range(count(S, "nv", p["nv"]))]}}
        if "nv2" in p:
            f2 = S.str("vf2", 1, fal)
            S.assume(S.Not(S.eq(f2, next(iter(prop_prio[n1])))))
            prop_prio[n1][f2] = [S.str(f"vp2{i}", 1, val) for i in range(p["nv2"])]
    r = S.call(sort_variant_properties, list(props), list(ns_prio), feat_prio, prop_prio)
    S.observe("out", r)
    if not S.decide(S.And(*[S.Or(*[S.eq(q.namespace, n) for n in ns_prio]) for q in props])):
        S.cover("refused")
        S.check(r.refused(ValidationError), "missing-namespace", "a namespace without priority was accepted")
        return
    # precondition: features without priority are listed contiguously in their namespace
    for i, a in enumerate(props):
        for k in range(i + 2, len(props)):
            c = props[k]
            if S.decide(same_feature(S, a, c)) and index(S, a.feature, lookup(S, feat_prio, a.namespace) or []) == BIG:
                for b in props[i + 1:k]:
                    S.assume(S.Not(S.And(S.eq(b.namespace, a.namespace), S.Not(S.eq(b.feature, a.feature)))))
    S.cover("sorted")
    S.check(r.ok, "accept", f"{r!r}")
    S.check(S.eq(r.value, expected(S, props, ns_prio, feat_prio, prop_prio)), "order")
