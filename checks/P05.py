"""validate_variant and its result, for every variant and provider answer of the
listed shapes."""
from harness.plugins import Feature, interpreter, plugin
from harness.resolver import distinct

FUNCTIONS = ["variantlib.api:validate_variant", "variantlib.plugins.loader:", "variantlib.plugins._subprocess:",
             "variantlib.models.variant:VariantValidationResult"]
SHAPES = {
    "quick": [
        dict(name="one-provider", np=(1,), n=(0, 1, 2), nf=(1, 2), nv=(1, 2), nal="ab", fal="fg", val="12",
             covers=["True", "False", "None", "violation"]),
        dict(name="kinds", np=(1,), n=(1, 2), nf=(1,), nv=(1,), kinds=True, nal="ab", fal="f", val="12",
             covers=["True", "False", "None", "violation"]),
        dict(name="recorded", np=(1,), n=(1, 2), nf=(1,), nv=(1, 2), kinds=("recorded",), nal="ab", fal="fg", val="12", covers=["True", "False", "None", "violation"]),
        dict(name="two-providers", np=(2,), n=(1, 2), nf=(1,), nv=(1,), nal="abc", fal="fg", val="1",
             covers=["True", "False", "None"]),
        dict(name="names", np=(2,), n=(1,), nf=(1,), nv=(1,), lens=(1, 2), nal="a_", fal="a_", val="1", covers=["True", "False", "None"]),
        dict(name="long-names", np=(2,), n=(2,), nf=(1,), nv=(1,), lens=(1, 3), nal="a_", fal="a_", val="1", covers=["True", "False", "None"]),
        dict(name="python", np=(1,), n=(1,), nf=(1,), nv=(1,), kinds=True, nal="ab", fal="f", val="12", python=True, covers=["True", "False", "None"]),
        dict(name="result", result=True, n=(0, 1, 2, 3), covers=["valid", "invalid"]),
        dict(name="long", np=(1,), n=(1, 2), nf=(1,), nv=(1,), nal="ab", fal="fg", val="12", long=300, covers=["True", "False", "None"]),
        dict(name="many", np=(1,), n=(1,), nf=(1,), nv=(1,), nal="ab", fal="fg", val="12", many=True, covers=["True", "False", "None", "violation"]),
    ],
    "thorough": [
        dict(name="one-provider", np=(1,), n=(0, 1, 2, 3), nf=(1, 2), nv=(1, 2), nal="ab", fal="fg", val="12",
             covers=["True", "False", "None", "violation"]),
        dict(name="kinds", np=(1, 2), n=(1, 2), nf=(1,), nv=(1, 2), kinds=True, nal="ab", fal="f", val="12",
             covers=["True", "False", "None", "violation"]),
        dict(name="recorded", np=(1, 2), n=(1, 2), nf=(1,), nv=(1, 2), kinds=("recorded",), nal="ab", fal="fg", val="12", covers=["True", "False", "None", "violation"]),
        dict(name="two-providers", np=(2,), n=(1, 2, 3), nf=(1,), nv=(1,), nal="abc", fal="fg", val="12",
             covers=["True", "False", "None"]),
        dict(name="names", np=(2,), n=(1, 2), nf=(1,), nv=(1,), lens=(1, 2, 3), nal="a_", fal="a_", val="1", covers=["True", "False", "None"]),
        dict(name="result", result=True, n=(0, 1, 2, 3, 4), covers=["valid", "invalid"]),
    ],
}


def scenario(S):
    from variantlib.models.variant import VariantFeature, VariantProperty, VariantValidationResult

    if S.p.get("result"):
        props = [VariantProperty("n", "f", f"v{i}") for i in range(S.pick("n", S.p["n"]))]
        verdicts = [S.pick(f"verdict{i}", (True, False, None)) for i in range(len(props))]
        viol = frozenset([VariantFeature("n", "f")] if S.flag("violation") else [])
        allow = S.pick("allow", (None, True, False))
        res = VariantValidationResult(dict(zip(props, verdicts)), viol)
        got = res.is_valid() if allow is None else res.is_valid(allow_unknown_plugins=allow)
        want = not viol and all(v is True or (v is None and allow is not False) for v in verdicts)
        S.cover("valid" if want else "invalid")
        S.check(bool(got) == want, "verdict")
        S.check(S.eq(list(res.invalid_properties), [p for p, v in zip(props, verdicts) if v is False]), "invalid")
        S.check(S.eq(list(res.unknown_properties), [p for p, v in zip(props, verdicts) if v is None]), "unknown")
        return
    providers(S)


def providers(S):
    from variantlib.api import validate_variant
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.models.variant_info import ProviderInfo, VariantInfo

    p = S.p
    more = []
    spaces, table, modules, infos, static = [], [], {}, {}, {}
    for i in range(S.pick("np", p["np"])):
        ns = S.strv(f"ns{i}", p.get("lens", (1,)), p["nal"])
        S.assume(S.And(*[S.Not(S.eq(ns, o)) for o in spaces]))
        spaces.append(ns)
        feats = []
        for j in range(S.pick(f"nf{i}", p["nf"])):
            f = S.strv(f"f{i}.{j}", p.get("lens", (1,)), p["fal"])
            S.assume(S.And(*[S.Not(S.eq(f, g)) for g, _, _ in feats]))
            vs = [S.str(f"v{i}.{j}.{k}", 1, p["val"]) for k in range(S.pick(f"nv{i}.{j}", p["nv"]))]
            S.assume(distinct(S, vs))
            feats.append((f, vs, S.flag(f"multi{i}.{j}")))
        if p.get("many") and i == 0:
            how = S.pick("many", ("values", "features"))
            more = [VariantProperty(ns, feats[0][0] if how == "values" else f"y{j}", f"y{j}") for j in range(60)]
            f, vs, m = feats[0]
            feats = [(f, [q.value for q in more] + vs, m)] if how == "values" else [(q.feature, [q.value], False) for q in more] + feats
        kinds = p.get("kinds") or ("install",)
        kind = S.pick(f"kind{i}", ("install", "aot", "static", "none", "off", "on", "absent") if kinds is True else kinds)
        other = [Feature("f", ["9"])]
        modules[f"m{i}"] = plugin(ns, other, [Feature(f, list(v), m) for f, v, m in feats], aot=kind in ("aot", "recorded"))
        if kind != "absent":
            infos[ns] = ProviderInfo(plugin_api=f"m{i}", requires=[] if kind in ("static", "none") else ["x"],
                                     install_time=kind not in ("aot", "recorded", "static", "none"), optional=S.flag(f"opt{i}") if p.get("kinds") else False,
                                     enable_if={"on": "python_version > '3'", "off": "python_version < '3'"}.get(kind))
        if kind == "static":
            static[ns] = {f: list(v) for f, v, _ in feats}
            feats = [(f, v, False) for f, v, _ in feats]
        if kind == "recorded":
            # what the plugin supported when the metadata was written
            static[ns] = {S.strv(f"s{i}.f", (1,), p["fal"]): [S.str(f"s{i}.v", 1, p["val"])]}
        if kind not in ("none", "off", "absent"):
            table.append((ns, feats))
    info = VariantInfo(namespace_priorities=list(infos), providers=infos, static_properties=static)
    props = []
    for i in range(S.pick("n", p["n"])):
        q = VariantProperty(S.strv(f"p{i}.n", p.get("lens", (1,)), p["nal"]), S.strv(f"p{i}.f", p.get("lens", (1,)), p["fal"]), S.str(f"p{i}.v", 1, p["val"]))
        S.assume(S.And(*[S.Not(S.eq(q, o)) for o in props]))
        props.append(q)
    props += more
    with interpreter(S, modules) as where:
        r = S.call(validate_variant, VariantDescription(list(props)), info, **where)
    S.observe("r", r if not r.ok else [sorted((k.to_str(), str(v)) for k, v in r.value.results.items()),
                                       sorted(f.to_str() for f in r.value.multi_value_violations)])
    S.check(r.ok, "fails", f"{r!r}")
    res = r.value.results
    S.check(len(res) == len(props), "results")
    wrong = []
    for q in props:
        want = None
        for ns, feats in table:
            if S.decide(S.eq(q.namespace, ns)):
                want = S.decide(S.Or(*[S.And(S.eq(q.feature, f), S.Or(*[S.eq(q.value, v) for v in vs])) for f, vs, _ in feats]))
                for f, _, multi in feats:
                    if not multi and S.decide(S.And(S.eq(q.feature, f), S.Or(*[
                            S.And(S.eq(o.namespace, ns), S.eq(o.feature, f)) for o in props if o is not q]))):
                        wrong.append(q.feature_object)
        S.cover(str(want))
        got = [v for k, v in res.items() if S.decide(S.eq(k, q))]
        S.check(len(got) == 1 and (got[0] is want), "verdict", f"{got} instead of {want}")
    viol = list(r.value.multi_value_violations)
    if wrong:
        S.cover("violation")
    S.check(S.And(*[S.Or(*[S.eq(w, v) for v in viol]) for w in wrong], *[S.Or(*[S.eq(w, v) for w in wrong]) for v in viol]),
            "multi-value")
