"""Variant metadata tables (project file, wheel metadata, index) with symbolic
names, and what they say."""
from harness import NAME, VALUE

REQUIRES = (["plug-a"], ["plug-a >= 1", "other"], [])
APIS = (None, "mod:Cls.attr", "mod")
MARKERS = (None, "python_version >= '3'", "os_name == 'none'")


def names(S, name, n, lens, al, unique=True):
    out = []
    for i in range(n):
        x = S.strv(f"{name}{i}", lens, al)
        if unique:
            S.assume(S.And(*[S.Not(S.eq(x, y)) for y in out]))
        out.append(x)
    return out


def common(S, p, name="d", wheel=False):
    """(document table, fields): the part shared by all three formats.  In a
    wheel or index every ahead-of-time provider has static properties."""
    nl, fl, vl = p.get("nl", (1,)), p.get("fl", (1,)), p.get("vl", (1,))
    nal, fal, val = p.get("nal", NAME), p.get("fal", NAME), p.get("val", VALUE)
    spaces = names(S, f"{name}.ns", S.pick(f"{name}.np", p.get("np", (0, 1))), nl, nal)
    providers, pdata, static = {}, {}, {}
    fprio, vprio = {}, {}
    for i, ns in enumerate(spaces):
        kind = S.pick(f"{name}.kind{i}", p.get("kinds", ("install", "aot")))
        free = p.get("free")  # texts of the settings: symbolic, over this alphabet
        if kind == "static":
            requires = []
        elif free:
            requires = names(S, f"{name}.rq{i}.", S.pick(f"{name}.req{i}", p.get("req", (0, 1))), p.get("tl", (1,)), free, False)
        else:
            requires = list(REQUIRES[S.pick(f"{name}.req{i}", p.get("req", (0, 1)))])
        d = {}
        if requires or (p.get("settings") and S.flag(f"{name}.reqgiven{i}")):
            d["requires"] = list(requires)
        optional = api = marker = None
        if p.get("settings"):
            optional = S.pick(f"{name}.opt{i}", (None, False, True))
            if free:
                api = S.strv(f"{name}.apit{i}", p.get("tl", (1,)), free) if S.flag(f"{name}.api{i}") else None
                marker = S.strv(f"{name}.ift{i}", p.get("tl", (1,)), free) if S.flag(f"{name}.if{i}") else None
            else:
                api = S.pick(f"{name}.api{i}", APIS[:2])
                marker = S.pick(f"{name}.if{i}", MARKERS[:2])
            if optional is not None:
                d["optional"] = optional
            if api is not None:
                d["plugin-api"] = api
            if marker is not None:
                d["enable-if"] = marker
        if kind != "install":
            d["install-time"] = False
        elif p.get("settings") and S.flag(f"{name}.inst{i}"):
            d["install-time"] = True
        pdata[ns] = d
        providers[ns] = (api, marker, kind == "install", bool(optional), requires)
        feats = []
        if kind == "static" or (wheel and kind == "aot"):
            feats = names(S, f"{name}.s{i}.", S.pick(f"{name}.sn{i}", p.get("sf", (1,))), fl, fal)
            static[ns] = {f: names(S, f"{name}.sv{i}.{j}.", S.pick(f"{name}.svn{i}.{j}", p.get("sv", (1,))), vl, val)
                          for j, f in enumerate(feats)}
        extra = S.pick(f"{name}.fpn{i}", p.get("fp", (0, 1)))
        fp = names(S, f"{name}.fp{i}.", extra, fl, fal, False)
        if len(feats) > 1:
            fp = fp + feats[::-1]
        if fp or (p.get("ef") and S.flag(f"{name}.ef{i}")):
            fprio[ns] = fp
        npp = S.pick(f"{name}.ppn{i}", p.get("pp", (0, 1)))
        pp = {f: names(S, f"{name}.ppv{i}.{j}.", S.pick(f"{name}.ppvn{i}.{j}", p.get("ppv", (1,))), vl, val, False)
              for j, f in enumerate(names(S, f"{name}.pp{i}.", npp, fl, fal))}
        if pp:
            vprio[ns] = pp
    order = S.perm(f"{name}.order", spaces)
    if p.get("many"):
        order = pad(S, S.pick(f"{name}.many", p["many"]), order, pdata, providers, fprio, vprio, static)
        spaces = list(order)
    doc = {}
    if spaces or (p.get("settings") and S.flag(f"{name}.prios")):
        prio = {"namespace": list(order)}
        if fprio:
            prio["feature"] = {k: list(v) for k, v in fprio.items()}
        if vprio:
            prio["property"] = {k: {f: list(x) for f, x in v.items()} for k, v in vprio.items()}
        doc["default-priorities"] = prio
        doc["providers"] = pdata
    if static:
        doc["static-properties"] = {k: {f: list(x) for f, x in v.items()} for k, v in static.items()}
    fields = {"namespace_priorities": list(order), "feature_priorities": fprio, "property_priorities": vprio,
              "providers": providers, "static_properties": static}
    return doc, fields


def pad(S, kind, order, pdata, providers, fprio, vprio, static):
    """Much of one kind of content, in front of what is there."""
    ns = order[0]
    if kind == "providers":
        more = [f"yy{i}" for i in range(60)]
        for m in more:
            pdata[m] = {"requires": ["x"]}
            providers[m] = (None, None, True, False, ["x"])
        return more + order
    if kind == "features":
        fprio[ns] = [f"yy{i}" for i in range(150)] + fprio.get(ns, [])
    elif kind == "values":
        vprio[ns] = {"yy": [f"yy{i}" for i in range(1500)], **vprio.get(ns, {})}
    elif kind == "lists":
        vprio[ns] = {**{f"yy{i}": ["yy"] for i in range(150)}, **vprio.get(ns, {})}
    elif kind == "requires":
        a, b, c, d, reqs = providers[ns]
        reqs = [f"yy{i}" for i in range(60)] + reqs
        providers[ns] = (a, b, c, d, reqs)
        pdata[ns]["requires"] = list(reqs)
    elif kind == "static" and ns in static:
        for f, vs in static[ns].items():
            vs[:0] = [f"yy{i}" for i in range(1500)]
    return order


MANY = ("providers", "features", "values", "lists", "requires", "static")


def info(fields, cls=None):
    """A VariantInfo with these fields, sharing nothing with them."""
    from variantlib.models.variant_info import ProviderInfo, VariantInfo

    return (cls or VariantInfo)(
        namespace_priorities=list(fields["namespace_priorities"]),
        feature_priorities={k: list(v) for k, v in fields["feature_priorities"].items()},
        property_priorities={k: {f: list(x) for f, x in v.items()} for k, v in fields["property_priorities"].items()},
        providers={k: ProviderInfo(plugin_api=a, enable_if=m, install_time=i, optional=o, requires=list(r))
                   for k, (a, m, i, o, r) in fields["providers"].items()},
        static_properties={k: {f: list(x) for f, x in v.items()} for k, v in fields["static_properties"].items()},
    )


def provider_fields(x):
    return (x.plugin_api, x.enable_if, x.install_time, x.optional, list(x.requires))


def same(S, x, fields, but=()):
    """Formula: the object has exactly these fields."""
    return S.And(
        *[S.eq(getattr(x, k), fields[k]) for k in
          ("namespace_priorities", "feature_priorities", "property_priorities", "static_properties") if k not in but],
        "providers" in but or S.eq({k: provider_fields(v) for k, v in x.providers.items()}, fields["providers"]))


def fields_of(x):
    """The fields of an object, as separate data."""
    return {
        "namespace_priorities": list(x.namespace_priorities),
        "feature_priorities": {k: list(v) for k, v in x.feature_priorities.items()},
        "property_priorities": {k: {f: list(y) for f, y in v.items()} for k, v in x.property_priorities.items()},
        "providers": {k: provider_fields(v) for k, v in x.providers.items()},
        "static_properties": {k: {f: list(y) for f, y in v.items()} for k, v in x.static_properties.items()},
    }


def parse_common(doc):
    """The fields a (valid) document states."""
    prio = doc.get("default-priorities", {})
    return {
        "namespace_priorities": prio.get("namespace", []),
        "feature_priorities": prio.get("feature", {}),
        "property_priorities": prio.get("property", {}),
        "providers": {k: (v.get("plugin-api"), v.get("enable-if"), v.get("install-time", True), v.get("optional", False),
                          v.get("requires", [])) for k, v in doc.get("providers", {}).items()},
        "static_properties": doc.get("static-properties", {}),
    }


def variant(S, name, n, p):
    """n pairwise different properties and their nested form."""
    from variantlib.models.variant import VariantProperty

    out = []
    for i in range(n):
        q = VariantProperty(S.strv(f"{name}{i}.n", p.get("nl", (1,)), p.get("nal", NAME)),
                            S.strv(f"{name}{i}.f", p.get("fl", (1,)), p.get("fal", NAME)),
                            S.strv(f"{name}{i}.v", p.get("vl", (1,)), p.get("val", VALUE)))
        S.assume(S.And(*[S.Not(S.eq(q, o)) for o in out]))
        out.append(q)
    return out


def nested(S, props):
    """The documented nested form {namespace: {feature: [values]}}."""
    out = []
    for q in props:
        for ns, feats in out:
            if S.decide(S.eq(ns, q.namespace)):
                break
        else:
            feats = []
            out.append((q.namespace, feats))
        for f, vs in feats:
            if S.decide(S.eq(f, q.feature)):
                vs.append(q.value)
                break
        else:
            feats.append((q.feature, [q.value]))
    return {ns: {f: vs for f, vs in feats} for ns, feats in out}


def same_variant(S, got, want):
    """Formula: two lists of properties, as sets."""
    return S.And(*[S.Or(*[S.eq(x, y) for y in want]) for x in got],
                 *[S.Or(*[S.eq(x, y) for x in got]) for y in want], len(got) == len(want))


def flat(doc):
    """Triples of a nested form."""
    return [(ns, f, v) for ns, fs in doc.items() for f, vs in fs.items() for v in vs]
