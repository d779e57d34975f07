"""filter_variants against the documented rule, for every description, list of
supported properties and forbid-lists of the listed sizes over all names and
values of the listed lengths (so every pattern of equal and different names)."""
from harness.env import platform
from harness.resolver import compatible, count, distinct, sprop, sprops, variant
from harness import NAME, VALUE
from harness.plugins import Feature, interpreter, plugin

FUNCTIONS = ["variantlib.resolver.filtering:", "variantlib.resolver.lib:filter_variants", "variantlib.models.variant:",
             "variantlib.resolver.lib:sort_and_filter_supported_variants", "variantlib.api:check_variant_supported"]
C = ["offered", "rejected"]
SMALL = dict(nal="nx", fal="fy", val="12")
SHAPES = {
    "quick": [
        dict(name="support", nd=(0, 1, 2), na=(0, 1, 2), covers=C),
        dict(name="values", ns="n", nd=3, na=3, fal="fgh", val="123", covers=C),
        dict(name="namespaces", nd=2, na=2, nfn=2, nal="nxy", fal="f", val="1", covers=C),
        dict(name="features", nd=2, na=2, nff=(1, 2), nal="nx", fal="fy", val="1", covers=C),
        dict(name="forbidden", nd=2, na=(1, 2), nfp=(1, 2), nal="n", fal="fy", val="123", covers=C),
        dict(name="everything", nd=1, na=1, nfn=(0, 1), nff=(0, 1), nfp=(0, 1), covers=C),
        dict(name="ns-boundaries", nd=1, na=1, nfn=(1, 2), nl=(1, 2), nal="ab_", fal="f", val="1", covers=C),
        dict(name="boundaries", nd=1, na=1, nff=(0, 1), nfp=(0, 1), nl=(1, 2), fl=(1, 2), vl=(1, 2), nal="ab",
             fal="ab", val="ab", covers=C),
        dict(name="whole", whole=True, nd=1, na=(1, 2), nfn=(0, 1), nff=(0, 1), nfp=(0, 1), nal="nx", fal="fy", val="12", covers=C),
        dict(name="two-variants", two=2, nd=2, na=2, nal="n", fal="fy", val="12", covers=C),
        dict(name="api", api=True, nd=(0, 1, 2), np=(0, 1), nf=(1,), nv=(1, 2), ns=(0, 1), nal="nx", fal="f", val="12",
             covers=[*C, "inferred", "not one"]),
        dict(name="python", api=True, nd=(1,), np=(1,), nf=(1,), nv=(1,), ns=(0,), nal="nx", fal="f", val="1", python=True, optional=True,
             covers=[*C, "inferred", "not one", "enabled", "disabled"]),
        dict(name="two-forbid", two=1, nd=1, na=2, nfp=1, nfn=1, nal="nx", fal="f", val="12", covers=C),
        dict(name="long", nd=2, na=2, nfn=(0, 1), nfp=(0, 1), nal="nx", fal="f", val="12", long=300, covers=C),
        dict(name="many", constants=("n", "f", "x"), many=(12, 40), nd=1, na=1, nfn=(0, 1), nff=(0, 1), nfp=(0, 1), nal="nx", fal="f", val="12", covers=C),
        dict(name="prefixes", nd=1, na=1, nfn=(0, 1), nff=(0, 1), nfp=(0, 1), nal="n", fal="f", val="1", grow=True, covers=C),
    ],
    "thorough": [
        dict(name="support", nd=(0, 1, 2), na=(0, 1, 2), nl=(1, 2), covers=C),
        dict(name="values", ns="n", nd=3, na=4, fal="fgh", val="123", covers=C),
        dict(name="values4", ns="n", nd=4, na=3, fal="fg", val="1234", covers=C),
        dict(name="namespaces", nd=2, na=2, nfn=2, covers=C),
        dict(name="features", nd=2, na=2, nff=(1, 2), nal="nxy", fal="fyz", val="1", covers=C),
        dict(name="forbidden", nd=2, na=2, nfp=(1, 2), nal="nx", fal="fy", val="12", covers=C),
        dict(name="everything", nd=(1, 2), na=(1, 2), nfn=(0, 1), nff=(0, 1), nfp=(0, 1), **SMALL, covers=C),
        dict(name="boundaries", nd=1, na=2, nff=(0, 1), nfp=(0, 1), nl=(1, 2), fl=(1, 2), vl=(1, 2), nal="ab",
             fal="ab", val="ab", covers=C),
        dict(name="whole", whole=True, nd=(1, 2), na=(1, 2), nfn=(0, 1), nff=(0, 1), nfp=(0, 1), nal="nx", fal="fy", val="12", covers=C),
        dict(name="two-variants", two=2, nd=2, na=3, nal="n", fal="fy", val="123", covers=C),
        dict(name="api", api=True, nd=(0, 1, 2), np=(0, 1), nf=(1, 2), nv=(1, 2), ns=(0, 1), nal="nx", fal="fy", val="12",
             covers=[*C, "inferred", "not one"]),
        dict(name="two-forbid", two=2, nd=2, na=2, nfp=1, nfn=1, nal="nx", fal="f", val="12", covers=C),
    ],
}


def scenario(S):
    from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
    from variantlib.resolver.lib import filter_variants, sort_and_filter_supported_variants

    p = S.p
    if p.get("api"):
        return api(S)
    ds = [variant(S, "d", count(S, "nd", p["nd"]))]
    if p.get("two"):
        ds.append(variant(S, "e", p["two"]))
        S.assume(S.Not(S.eq(ds[0], ds[1])))
    whole = p.get("whole")
    allowed = sprops(S, "a", count(S, "na", p["na"]), unique=bool(whole))
    nfn, nff, nfp = (count(S, k, p.get(k, 0)) for k in ("nfn", "nff", "nfp"))
    fn = [S.strv(f"fn{i}", p.get("nl", (1,)), p.get("nal", NAME)) for i in range(nfn)]
    ff = [VariantFeature(S.strv(f"ff{i}.n", p.get("nl", (1,)), p.get("nal", NAME)),
                         S.strv(f"ff{i}.f", p.get("fl", (1,)), p.get("fal", NAME))) for i in range(nff)]
    fp = sprops(S, "fp", nfp, unique=False)
    if p.get("many"):
        # many others of everything in front
        n = S.pick("many", p["many"])
        ds = [VariantDescription([VariantProperty("n", "f", f"y{i}")]) for i in range(n)] + ds
        allowed = [VariantProperty("n", "f", f"y{i}") for i in range(0, n, 2)] + allowed
        fn = [f"y{i}" for i in range(n * nfn)] + fn
        ff = [VariantFeature("n", f"y{i}") for i in range(n * nff)] + ff
        fp = [VariantProperty("n", "f", f"y{i}") for i in range(0, n * nfp, 4)] + fp
    forbidden = dict(forbidden_namespaces=list(fn) if "nfn" in p else None,
                     forbidden_features=list(ff) if "nff" in p else None,
                     forbidden_properties=list(fp) if "nfp" in p else None)
    if whole:
        with platform():
            out = sort_and_filter_supported_variants(list(ds), list(allowed), [q.namespace for q in allowed], **forbidden)
    else:
        out = list(filter_variants(vdescs=list(ds), allowed_properties=list(allowed), **forbidden))
    S.observe("out", out)
    for d in ds:
        g = S.decide(S.Or(*[S.eq(o, d) for o in out]))
        S.cover("offered" if g else "rejected")
        S.check(S.Iff(g, compatible(S, d, allowed, fn, ff, fp)), "offered",
                "a compatible variant was dropped" if not g else "an incompatible variant was offered")


def api(S):
    """check_variant_supported with what one plugin and the static properties support; the
    variant given, or the only one of an index."""
    from variantlib.api import check_variant_supported
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.models.variant_info import ProviderInfo, VariantInfo
    from variantlib.variants_json import VariantsJson

    p = S.p
    allowed, modules, providers, static, args = [], {}, {}, {}, {}

    def features(ns, key):
        out = []
        for j in range(S.pick(key + "nf", p["nf"])):
            f = S.str(f"{key}f{j}", 1, p["fal"])
            S.assume(S.And(*[S.Not(S.eq(f, g)) for g, _ in out]))
            vs = []
            for k in range(S.pick(f"{key}nv{j}", p["nv"])):
                v = S.str(f"{key}v{j}.{k}", 1, p["val"])
                S.assume(S.And(*[S.Not(S.eq(v, w)) for w in vs]))
                vs.append(v)
            out.append((f, vs))
            allowed.extend(VariantProperty(ns, f, v) for v in vs)
        return out

    if S.pick("np", p["np"]):
        ns = S.str("pns", 1, p["nal"])
        supported = features(ns, "p")
        modules["m"] = plugin(ns, [Feature(f, list(v)) for f, v in supported], [Feature("f", ["1", "2", "3"]), Feature("y", ["1"])])
        providers[ns] = ProviderInfo(plugin_api="m", requires=["x"], optional=bool(p.get("optional")))
        if p.get("optional"):
            enabled = S.pick("enable", ("absent", False, True, "list"))
            if enabled == "list":
                enabled = [S.str(f"enabled{i}", 1, p["nal"]) for i in range(S.pick("enabled", (0, 1, 2)))]
            if enabled != "absent":
                args["enable_optional_plugins"] = list(enabled) if isinstance(enabled, list) else enabled
            on = enabled is True or isinstance(enabled, list) and S.decide(S.Or(*[S.eq(ns, x) for x in enabled]))
            S.cover("enabled" if on else "disabled")
            if not on:
                allowed.clear()
    if S.pick("ns", p["ns"]):
        sns = S.str("sns", 1, p["nal"])
        S.assume(S.And(*[S.Not(S.eq(sns, n)) for n in providers]))
        static[sns] = {f: list(v) for f, v in features(sns, "s")}
        providers[sns] = ProviderInfo(install_time=False)
    info = VariantInfo(namespace_priorities=list(providers), providers=providers, static_properties=static)
    d = variant(S, "d", S.pick("nd", p["nd"]))
    kw = {"vdesc": d}
    if S.flag("index"):
        info = VariantsJson(info)
        many = S.pick("variants", (1, 0, 2))
        if many:
            info.variants["l"] = d
        if many == 2:
            info.variants["null"] = VariantDescription([])
        if S.flag("inferred"):
            kw = {}
            S.cover("inferred")
    elif S.flag("no variant"):
        kw, many = {}, 0
    with interpreter(S, modules) as where:
        r = S.call(check_variant_supported, variant_info=info, **kw, **args, **where)
    S.observe("supported", r)
    if not kw and many != 1:
        S.cover("not one")
        S.check(not r.ok, "not one", "answered without a variant")
        return
    S.check(r.ok, "fails", f"{r!r}")
    g = S.decide(compatible(S, d, allowed))
    S.cover("offered" if g else "rejected")
    S.check(r.value is g, "supported", f"{r.value!r} instead of {g!r}")
