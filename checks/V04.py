"""Construction of model objects, for every combination of the listed forms:
strings over U+0000..U+07FF of the listed lengths (refused exactly when the
characters, lengths, emptiness or uniqueness rules are broken) and every value
of a list of wrong types in every position.  Refusal is always ValidationError."""
from harness import ANY, JUNK, NAME, VALUE, junk, ref_name_ok

FUNCTIONS = ["variantlib.models.", "variantlib.validators."]
C = ["accepted", "refused"]
SHAPES = {
    "quick": [
        dict(name="feature", kind="prop", parts=2, lens=(0, 1, 2, 4), covers=C),
        dict(name="property", kind="prop", parts=3, lens=(0, 1, 2), covers=C),
        dict(name="property-types", kind="proptypes", covers=C),
        dict(name="feature-config", kind="fc", n=(0, 1, 2, 3), lens=(0, 1, 2), nlens=(1,), covers=C),
        dict(name="feature-config-name", kind="fc", n=(1,), lens=(1,), nlens=(0, 1, 2, 3), covers=C),
        dict(name="feature-config-types", kind="fctypes", covers=C),
        dict(name="provider-config", kind="pc", n=(0, 1, 2, 3), lens=(0, 1, 2), flens=(1, 2), covers=C),
        dict(name="provider-config-types", kind="pctypes", covers=C),
        dict(name="user-config", kind="uc", n=(0, 1, 2), lens=(0, 1, 2), covers=C),
        dict(name="user-config-nested", kind="ucn", n=(1, 2), covers=C),
        dict(name="user-config-types", kind="uctypes", covers=C),
    ],
    "thorough": [
        dict(name="feature", kind="prop", parts=2, lens=(0, 1, 2, 4, 16), covers=C),
        dict(name="property", kind="prop", parts=3, lens=(0, 1, 2, 5), covers=C),
        dict(name="property-types", kind="proptypes", covers=C),
        dict(name="feature-config", kind="fc", n=(0, 1, 2, 3, 4), lens=(0, 1, 2), nlens=(1,), covers=C),
        dict(name="feature-config-name", kind="fc", n=(1,), lens=(1, 6), nlens=(0, 1, 2, 3, 12), covers=C),
        dict(name="feature-config-types", kind="fctypes", covers=C),
        dict(name="provider-config", kind="pc", n=(0, 1, 2, 3, 4), lens=(0, 1, 2, 3), flens=(1, 2), covers=C),
        dict(name="provider-config-types", kind="pctypes", covers=C),
        dict(name="user-config", kind="uc", n=(0, 1, 2, 3), lens=(0, 1, 2), covers=C),
        dict(name="user-config-nested", kind="ucn", n=(1, 2, 3), covers=C),
        dict(name="user-config-types", kind="uctypes", covers=C),
    ],
}


def verdict(S, want, r, key):
    from variantlib.errors import ValidationError

    S.observe(key, r)
    if S.decide(want):
        S.cover("accepted")
        S.check(r.ok, key + ":accept", "a well-formed object was refused")
        return r.ok
    S.cover("refused")
    S.check(r.refused(ValidationError), key + ":refuse", f"malformed input, got {r!r}")
    return False


def distinct(S, xs):
    return S.And(*[S.Not(S.eq(x, y)) for i, x in enumerate(xs) for y in xs[:i]])


def backwards(x):
    """The same lists and mappings, written the other way round."""
    if type(x) is list:
        return [backwards(y) for y in reversed(x)]
    if type(x) is dict:
        return {k: backwards(v) for k, v in reversed(x.items())}
    return x


def scenario(S):
    from variantlib.models.configuration import VariantConfiguration
    from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
    from variantlib.models.variant import VariantFeature, VariantProperty

    k = S.p["kind"]
    if k == "prop":
        n = S.p["parts"]
        parts = [S.strv(f"p{i}", S.p["lens"], ANY) for i in range(n)]
        want = S.And(*[ref_name_ok(S, p, VALUE if i == 2 else NAME) for i, p in enumerate(parts)])
        cls = VariantProperty if n == 3 else VariantFeature
        r = S.call(cls, *parts)
        if verdict(S, want, r, "prop"):
            S.check(S.eq([getattr(r.value, a) for a in ("namespace", "feature", "value")[:n]], parts), "faithful")
    elif k == "proptypes":
        bad = S.pick("bad", (-1, 0, 1, 2))
        parts = [junk(S, "junk") if i == bad else S.str(f"s{i}", 2, NAME) for i in range(3)]
        verdict(S, bad < 0, S.call(VariantProperty, *parts), "property")
        if bad != 2:
            verdict(S, bad < 0, S.call(VariantFeature, *parts[:2]), "feature")
    elif k == "fc":
        name = S.strv("name", S.p["nlens"], ANY)
        n = S.pick("n", S.p["n"])
        lens = S.p["lens"] if n < 3 else (1,)
        vals = [S.strv(f"v{i}", lens, ANY) for i in range(n)]
        want = S.And(ref_name_ok(S, name), n > 0, *[ref_name_ok(S, v, VALUE) for v in vals], distinct(S, vals))
        r = S.call(VariantFeatureConfig, name, list(vals), S.flag("multi"))
        if verdict(S, want, r, "featureconfig"):
            S.check(S.And(S.eq(r.value.name, name), S.eq(r.value.values, vals)), "faithful")
    elif k == "fctypes":
        where = S.pick("where", ("ok", "name", "values", "item", "last", "multi"))
        args = ["ab", ["a", "b"], False]
        if where == "name":
            args[0] = junk(S, "junk")
        elif where == "values":
            args[1] = junk(S, "junk", (None, 1, "ab", ("a", "b"), {"a": "b"}, b"ab"))
        elif where == "item":
            args[1] = [junk(S, "junk"), "b"]
        elif where == "last":
            args[1] = ["a", junk(S, "junk")]
        elif where == "multi":
            args[2] = junk(S, "junk", (None, 1, "false", [], 0))
        verdict(S, where == "ok", S.call(VariantFeatureConfig, *args), "featureconfig")
    elif k == "pc":
        ns = S.strv("ns", S.p["lens"], ANY)
        n = S.pick("n", S.p["n"])
        cfgs = [VariantFeatureConfig(S.strv(f"f{i}", S.p["flens"], NAME), [S.str(f"v{i}", 1, VALUE)], S.flag(f"m{i}"))
                for i in range(n)]
        want = S.And(ref_name_ok(S, ns), n > 0, distinct(S, [c.name for c in cfgs]))
        r = S.call(ProviderConfig, ns, list(cfgs))
        if verdict(S, want, r, "providerconfig"):
            S.check(S.And(S.eq(r.value.namespace, ns), S.eq(r.value.configs, cfgs)), "faithful")
            flat = [(p.namespace, p.feature, p.value) for p in r.value.to_list_of_properties()]
            S.check(S.eq(flat, [(ns, c.name, v) for c in cfgs for v in c.values]), "flattened")
    elif k == "pctypes":
        where = S.pick("where", ("ok", "name", "configs", "item"))
        cfg = VariantFeatureConfig("f", ["v"], False)
        args = ["ab", [cfg]]
        if where == "name":
            args[0] = junk(S, "junk")
        elif where == "configs":
            args[1] = (None, 1, "ab", (cfg,), {"f": cfg}, cfg)[S.pick("junk", range(6))]
        elif where == "item":
            args[1] = [cfg, junk(S, "junk")]
        verdict(S, where == "ok", S.call(ProviderConfig, *args), "providerconfig")
    elif k == "uc":
        which = S.pick("which", ("namespace", "feature", "property"))
        n = S.pick("n", S.p["n"])
        lens = S.p["lens"] if n < 2 else (1, 2)
        xs = [S.strv(f"x{i}", lens, ANY) for i in range(n)]
        ok_names = S.And(*[ref_name_ok(S, x) for x in xs])
        if which == "namespace":
            args, want = (list(xs), {}, {}), ok_names
        elif which == "feature":
            key = S.strv("key", (0, 1, 2), ANY)
            args, want = (["a"], {key: list(xs)}, {}), S.And(ref_name_ok(S, key), ok_names)
        else:
            key = S.strv("key", (0, 1), ANY)
            ft = S.strv("ft", (0, 1), ANY)
            args = (["a"], {}, {key: {ft: list(xs)}})
            # the values of a user's priorities may be any strings (version specifiers too)
            want = S.And(ref_name_ok(S, key), ref_name_ok(S, ft))
        r = S.call(VariantConfiguration, *args)
        if verdict(S, want, r, "userconfig"):
            v = r.value
            S.check(S.eq((v.namespace_priorities, v.feature_priorities, v.property_priorities), args), "faithful")
            S.check(S.eq(v.to_dict(), dict(zip(
                ("namespace_priorities", "feature_priorities", "property_priorities"), args))), "to_dict")
    elif k == "ucn":
        # several names on each level
        keys = [S.str(f"key{i}", 1, ANY) for i in range(S.pick("keys", S.p["n"]))]
        feats = [[S.str(f"f{i}.{j}", 1, ANY) for j in range(S.pick(f"n{i}", S.p["n"]))] for i in range(len(keys))]
        S.assume(S.And(distinct(S, keys), *[distinct(S, fs) for fs in feats]))
        want = S.And(*[ref_name_ok(S, x) for x in [*keys, *[f for fs in feats for f in fs]]])
        values = ["Any text", "b"]
        if S.flag("property"):
            args = ([], {}, {key: {f: list(values) for f in fs} for key, fs in zip(keys, feats)})
        else:
            args = ([], dict(zip(keys, [list(fs) for fs in feats])), {})
        r = S.call(VariantConfiguration, *args)
        if verdict(S, want, r, "userconfig"):
            S.check(S.eq((r.value.namespace_priorities, r.value.feature_priorities, r.value.property_priorities), args), "faithful")
    else:
        where = S.pick("where", ("ok", "ns", "ns-item", "feat", "feat-key", "feat-val", "feat-item", "prop",
                                 "prop-key", "prop-val", "prop-feat", "prop-vals", "prop-item"))
        hashable = (None, 1, True, b"ab", ("ab",))
        notdict = (None, 1, "ab", ["ab"], ("ab",))
        notlist = (None, 1, "ab", ("ab",), {"ab": "ab"})
        a, b, c = ["a", "b"], {"a": ["f"]}, {"a": {"f": ["v"]}}
        if where == "ns":
            a = junk(S, "junk", notlist)
        elif where == "ns-item":
            a.append(junk(S, "junk"))
        elif where == "feat":
            b = junk(S, "junk", notdict)
        elif where == "feat-key":
            b[junk(S, "junk", hashable)] = ["f"]
        elif where == "feat-val":
            b["b"] = junk(S, "junk", notlist)
        elif where == "feat-item":
            b["b"] = ["f", junk(S, "junk")]
        elif where == "prop":
            c = junk(S, "junk", notdict)
        elif where == "prop-key":
            c[junk(S, "junk", hashable)] = {"f": ["v"]}
        elif where == "prop-val":
            c["b"] = junk(S, "junk", notdict)
        elif where == "prop-feat":
            c["b"] = {"f": ["v"], junk(S, "junk", hashable): ["v"]}
        elif where == "prop-vals":
            c["b"] = {"f": junk(S, "junk", notlist)}
        elif where == "prop-item":
            c["b"] = {"f": ["v", junk(S, "junk")]}
        if S.flag("reversed"):
            a, b, c = backwards(a), backwards(b), backwards(c)
        verdict(S, where == "ok", S.call(VariantConfiguration, a, b, c), "userconfig")
