"""get_variants_by_priority from the document, the configuration file and the plugins to
the labels, for every such input of the listed sizes: the result is the list of the
compatible variants' labels in the documented order."""
from harness.env import platform
from harness.files import config_files, toml
from harness.metadata import nested
from harness.plugins import Feature, interpreter, plugin
from harness.resolver import compatible, expected, ranked, sprop

FUNCTIONS = ["variantlib.api:get_variants_by_priority", "variantlib.utils:", "variantlib.resolver.", "variantlib.variants_json:",
             "variantlib.models.variant_info:", "variantlib.configuration:", "variantlib.plugins.loader:"]
SMALL = dict(nal="ab", fal="fg", val="12")
SHAPES = {
    "quick": [
        dict(name="one-provider", np=(1,), kinds=("install", "static"), vars=(1, 2), n=(1,), nf=(1, 2), nv=(1,), nal="ab", fal="fg", val="1",
             null=True, covers=["null-implicit", "null-listed", "several"]),
        dict(name="values", np=(1,), kinds=("install",), vars=(2,), n=(1,), nf=(1,), nv=(2,), pp=True, up=True, nal="a", fal="f", val="123",
             covers=["null-implicit", "several"]),
        dict(name="two-providers", np=(2,), kinds=("install", "static"), vars=(2,), n=(1,), nf=(1,), nv=(1,), un=True, nal="abc", fal="f", val="1",
             covers=["null-implicit", "several"]),
        dict(name="features", np=(1,), kinds=("install",), vars=(2,), n=(1, 2), nf=(2,), nv=(1,), fp=True, uf=True, nal="a", fal="fg", val="1",
             covers=["null-implicit", "several"]),
        dict(name="same-properties", np=(1,), kinds=("static",), vars=(2,), n=(1,), nf=(1,), nv=(1,), same=True, nal="a", fal="f", val="12",
             covers=["null-implicit", "duplicate"]),
        dict(name="same-labels", np=(1,), kinds=("static",), vars=(3,), n=(1, 2), nf=(1,), nv=(1,), same=True, pool=("a", "ab", "b"), nal="a", fal="f", val="12",
             covers=["null-implicit", "duplicate"]),
        dict(name="labels", np=(0,), kinds=("static",), vars=(0, 1), n=(1,), nf=(1,), nv=(1,), null=True, labels=True, nal="a", fal="f", val="1",
             covers=["null-implicit", "null-listed"]),
        dict(name="many", np=(1,), kinds=("install", "static"), vars=(1,), n=(1,), nf=(1,), nv=(1,), many=("variants", "values"), nal="a", fal="f", val="12", covers=["null-implicit", "several"]),
        dict(name="optional", np=(1, 2), kinds=("optional", "install"), vars=(1,), n=(1,), nf=(1,), nv=(1,), nal="ab", fal="f", val="1", covers=["null-implicit", "enabled", "disabled"]),
        dict(name="python", np=(1,), kinds=("optional",), vars=(1,), n=(1,), nf=(1,), nv=(1,), nal="ab", fal="f", val="1", python=True, covers=["null-implicit", "enabled"]),
        dict(name="again", np=(1,), kinds=("install",), vars=(2,), n=(1,), nf=(1,), nv=(2,), pp=True, up=True, before=True, nal="a", fal="f", val="12",
             covers=["null-implicit", "several"]),
        dict(name="prefixes", np=(1,), kinds=("install",), vars=(2,), n=(1,), nf=(2,), nv=(1,), nal="a", fal="f", val="1", grow=True, short=["v"], covers=["several"]),
    ],
    "thorough": [
        dict(name="one-provider", np=(1,), kinds=("install", "static"), vars=(1, 2), n=(1, 2), nf=(1, 2), nv=(1, 2), null=True, **SMALL,
             covers=["null-implicit", "null-listed", "several"]),
        dict(name="values", np=(1,), kinds=("install", "static"), vars=(2,), n=(1,), nf=(1,), nv=(2, 3), pp=True, up=True, nal="a", fal="f", val="123",
             covers=["null-implicit", "several"]),
        dict(name="two-providers", np=(2,), kinds=("install", "static"), vars=(2, 3), n=(1, 2), nf=(1,), nv=(1,), un=True, nal="abc", fal="f", val="1",
             covers=["null-implicit", "several"]),
        dict(name="features", np=(1,), kinds=("install", "static"), vars=(2, 3), n=(1, 2), nf=(2,), nv=(1,), fp=True, uf=True, nal="a", fal="fgh", val="1",
             covers=["null-implicit", "several"]),
        dict(name="same-properties", np=(1,), kinds=("static",), vars=(2, 3), n=(1, 2), nf=(2,), nv=(1,), same=True, nal="a", fal="fg", val="12",
             covers=["null-implicit", "duplicate"]),
        dict(name="labels", np=(0, 1), kinds=("static",), vars=(0, 1, 2), n=(1,), nf=(1,), nv=(1,), null=True, labels=True, nal="a", fal="f", val="1",
             covers=["null-implicit", "null-listed", "several"]),
    ],
}
CONSTANTS = ["null"]


def some(S, name, al, p, most=1):
    """A short priority list."""
    out = []
    for i in range(S.pick(name, range(most + 1))):
        x = S.str(f"{name}.{i}", 1, al)
        S.assume(S.And(*[S.Not(S.eq(x, y)) for y in out]))
        out.append(x)
    return out


def scenario(S):
    from variantlib.api import get_variants_by_priority
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.variants_json import VariantsJson

    p = S.p
    nal, fal, val = p["nal"], p["fal"], p["val"]
    how = S.pick("many", p["many"]) if p.get("many") else None
    spaces, providers, static, modules, full, optional = [], {}, {}, {}, {}, []
    for i in range(S.pick("np", p["np"])):
        ns = S.str(f"ns{i}", 1, nal)
        S.assume(S.And(*[S.Not(S.eq(ns, x)) for x in spaces]))
        spaces.append(ns)
        kind = S.pick(f"kind{i}", p["kinds"])
        feats = []
        for j in range(S.pick(f"nf{i}", p["nf"])):
            f = S.str(f"f{i}.{j}", 1, fal)
            S.assume(S.And(*[S.Not(S.eq(f, g)) for g, _ in feats]))
            vs = []
            for k in range(S.pick(f"nv{i}.{j}", p["nv"])):
                v = S.str(f"v{i}.{j}.{k}", 1, val)
                S.assume(S.And(*[S.Not(S.eq(v, w)) for w in vs]))
                vs.append(v)
            if p.get("many"):
                vs = [f"yy{k}" for k in range(110 if how == "values" else 14)] + vs
            feats.append((f, vs))
        full[ns] = feats
        if kind == "static":
            providers[ns] = {"install-time": False}
            static[ns] = {f: list(vs) for f, vs in feats}
        else:
            providers[ns] = {"plugin-api": f"m{i}", "requires": ["x"], **({"optional": True} if kind == "optional" else {})}
            optional += [ns] if kind == "optional" else []
            modules[f"m{i}"] = plugin(ns, [Feature(f, list(vs), True) for f, vs in feats])
    order = S.perm("order", spaces)
    fprio, vprio = {}, {}
    for i, ns in enumerate(spaces):
        fp = some(S, f"fp{i}", fal, p, 2) if p.get("fp") else []
        if ns in static and len(static[ns]) > 1:
            fp = fp + [f for f in list(static[ns])[::-1] if not S.decide(S.Or(*[S.eq(f, x) for x in fp]))]
        if fp:
            fprio[ns] = fp
        if p.get("pp"):
            vp = some(S, f"vp{i}", val, p, 2)
            if vp:
                vprio[ns] = {full[ns][0][0]: vp}
    variants, labels = {}, []
    for i in range(S.pick("nvar", p["vars"])):
        props = []
        for j in range(S.pick(f"n{i}", p["n"])):
            q = VariantProperty(S.str(f"p{i}.{j}.n", 1, nal), S.str(f"p{i}.{j}.f", 1, fal), S.str(f"p{i}.{j}.v", 1, val))
            S.assume(S.And(*[S.Not(S.eq(q, o)) for o in props]))
            props.append(q)
        label = S.pick(f"label{i}", [x for x in p["pool"] if x not in labels]) if "pool" in p else f"l{i}"
        if p.get("labels"):
            label = S.str(f"label{i}", 4, "nul")
            S.assume(S.And(S.Not(S.eq(label, "null")), *[S.Not(S.eq(label, x)) for x in labels]))
        d = VariantDescription(props)
        if not p.get("same"):
            S.assume(S.And(*[S.Not(S.eq(d, o)) for o, _ in variants.values()]))
        labels.append(label)
        variants[label] = (d, props)
    for k in range({"variants": 14, "values": 2}.get(how, 0)):
        props = [VariantProperty(spaces[0], full[spaces[0]][0][0], f"yy{k}")]
        variants[f"yy{k}"] = (VariantDescription(list(props)), props)
        labels.append(f"yy{k}")
    listed = p.get("null") and S.flag("null-listed")
    at = S.pick("null-at", range(len(variants) + 1)) if listed else None
    if listed:
        items = list(variants.items())
        items.insert(at, ("null", (VariantDescription([]), [])))
        variants = dict(items)
    S.cover("null-listed" if listed else "null-implicit")
    prio = {"namespace": list(order)}
    if fprio:
        prio["feature"] = {k: list(v) for k, v in fprio.items()}
    if vprio:
        prio["property"] = {k: {f: list(x) for f, x in v.items()} for k, v in vprio.items()}
    doc = {"default-priorities": prio, "providers": providers, "variants": {k: nested(S, props) for k, (_, props) in variants.items()}}
    if static:
        doc["static-properties"] = static
    conf, un, uf, up = {}, [], [], []
    if p.get("un"):
        un = some(S, "un", nal, p, 2)
        conf["namespace_priorities"] = list(un)
    if p.get("uf") and spaces:
        uf = some(S, "uf", fal, p)
        conf["feature_priorities"] = {spaces[0]: list(uf)}
    if p.get("up") and spaces:
        up = some(S, "up", val, p)
        conf["property_priorities"] = {spaces[0]: {full[spaces[0]][0][0]: list(up)}}
    enabled, args = False, {}
    if "optional" in p["kinds"]:
        enabled = S.pick("enable", ("absent", False, True, "list"))
        if enabled == "list":
            enabled = [S.str(f"enabled{i}", 1, nal) for i in range(S.pick("enabled", (0, 1, 2)))]
        if enabled != "absent":
            args = {"enable_optional_plugins": list(enabled) if isinstance(enabled, list) else enabled}
    off = []
    for ns in optional:
        on = enabled is True or isinstance(enabled, list) and S.decide(S.Or(*[S.eq(ns, x) for x in enabled]))
        S.cover("enabled" if on else "disabled")
        off += [] if on else [ns]
    with interpreter(S, modules) as where, platform(), config_files({"user": toml(conf)} if conf else {}):
        if p.get("before"):
            first = S.pick("before", ("same", "none", "swapped"))
            other = {"none": {}, "same": doc["variants"]}.get(first) or dict(zip(doc["variants"], list(doc["variants"].values())[::-1]))
            S.call(get_variants_by_priority, variants_json={**doc, "variants": other if first != "none" else {}}, **args, **where)
        r = S.call(get_variants_by_priority, variants_json=VariantsJson(doc) if S.flag("parsed") else doc, **args, **where)
    S.observe("labels", r)
    S.check(r.ok, "fails", f"{r!r}")
    # the documented order
    nsorder = un + [n for n in order if not S.decide(S.Or(*[S.eq(n, u) for u in un]))]
    flat = [VariantProperty(ns, f, v) for ns in nsorder for n2, feats in full.items() if S.decide(S.eq(ns, n2)) and not any(n2 is x for x in off) for f, vs in feats for v in vs]
    feat, vals = {}, {}
    for i, ns in enumerate(spaces):
        first = uf if i == 0 else []
        feat[ns] = first + [f for f in fprio.get(ns, []) if not S.decide(S.Or(*[S.eq(f, x) for x in first]))]
        first = up if i == 0 else []
        deflt = next(iter(vprio.get(ns, {"": {"": []}}).values())) if ns in vprio else []
        vals[ns] = {full[ns][0][0]: first + [v for v in deflt if not S.decide(S.Or(*[S.eq(v, x) for x in first]))]}
    ordered = expected(S, flat, nsorder, feat, vals)
    offered = [(lab, d) for lab, (d, props) in variants.items() if props and S.decide(compatible(S, d, flat))]
    groups = []
    for lab, d in offered:
        for g in groups:
            if S.decide(S.eq(g[0], d)):
                g[1].append(lab)
                S.cover("duplicate")
                break
        else:
            groups.append((d, [lab]))
    if len(groups) > 1:
        S.cover("several")
    rank = ranked(S, [d for d, _ in groups], ordered)
    want = [next(labs for e, labs in groups if e is d) for d in rank]
    got = list(r.value)
    S.check(len(got) == len(want) + 1, "count", f"{got!r} for {want!r}")
    S.check(S.eq(got[-1], "null"), "null last", f"{got!r}")
    S.check(S.And(*[S.Or(*[S.eq(g, x) for x in labs]) for g, labs in zip(got, want)]), "order", f"{got!r} instead of {want!r}")
