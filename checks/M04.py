"""VariantsJson.merge: for every pair of metadata of the listed shapes (independent ones, and
equal ones with one place changed) the outcome is the union or a refusal that changes nothing,
also when merges follow each other."""
from harness.metadata import common, fields_of, info, names, nested, same, variant

FUNCTIONS = ["variantlib.variants_json:VariantsJson.merge", "variantlib.variants_json:VariantsJson.provider"]
SMALL = dict(nal="ab", fal="fg", val="12")
SHAPES = {
    "quick": [
        dict(name="independent", np=(0, 1), kinds=("install", "static"), fp=(0, 1), pp=(0, 1), va=(1,), vb=(1,), n=(0, 1), independent=True, **SMALL,
             covers=["merged", "refused"]),
        dict(name="texts", np=(1,), kinds=("install",), settings=True, free="a\xe9", tl=(1,), req=(1, 2), fp=(0,), pp=(0,), va=(0,), vb=(0,), n=(0,), nal="a",
             independent=True, covers=["merged", "refused"]),
        dict(name="changed", np=(1,), kinds=("install", "aot"), settings=True, req=(1,), fp=(1,), pp=(1,), va=(1,), vb=(1,), n=(1,), change=True,
             nal="a", fal="fg", val="12", covers=["merged", "refused"]),
        dict(name="changed-two", np=(2,), kinds=("install", "static"), req=(1,), fp=(0, 1), pp=(0,), va=(1,), vb=(1,), n=(0,), change=True,
             nal="ab", fal="fg", val="12", covers=["merged", "refused"]),
        dict(name="subset", np=(1,), kinds=("static",), sf=(1, 2), sv=(1, 2), req=(1,), fp=(0, 1), pp=(0, 1), ppv=(2,), va=(0, 1, 2), vb=(1,), n=(0, 1), change=True,
             places=["static-less", "static-more", "features-less", "values-less"], nal="a", fal="fg", val="12", covers=["merged", "refused", "same-label"]),
        dict(name="labels", np=(1,), kinds=("static",), req=(1,), fp=(0,), pp=(0,), va=(0, 1, 2), vb=(0, 1, 2), n=(0, 1), nal="ab", fal="f", val="12",
             covers=["merged", "refused", "same-label"]),
        dict(name="twice", np=(1,), kinds=("install",), req=(1,), fp=(0,), pp=(0,), va=(1,), vb=(1,), vc=(1,), n=(1,), nal="a", fal="f", val="12",
             change_c=True, covers=["merged", "refused"]),
        dict(name="long", np=(1,), kinds=("install", "static"), req=(1,), fp=(0, 1), pp=(0, 1), va=(1,), vb=(1,), n=(1,), independent=True, nal="ab", fal="f", val="12", long=300,
             short=["label"], covers=["merged", "refused"]),
        dict(name="many", np=(1,), kinds=("install", "static"), many=("providers", "features", "values", "lists", "requires", "static"), req=(1,), fp=(1,), pp=(0, 1), va=(1,),
             vb=(1,), n=(0,), change=True, nal="a", fal="fg", val="12", covers=["merged", "refused"]),
        dict(name="many-variants", np=(1,), kinds=("static",), req=(1,), fp=(0,), pp=(0,), va=(1,), vb=(1,), n=(1,), more=40, nal="a", fal="f", val="12",
             covers=["merged", "refused", "same-label"]),
        dict(name="prefixes", np=(1,), kinds=("install",), req=(1,), fp=(0,), pp=(0,), va=(1,), vb=(1,), n=(1,), nal="a", fal="f", val="1", independent=True, grow=True, covers=["merged"]),
    ],
    "thorough": [
        dict(name="independent", np=(0, 1), kinds=("install", "static", "aot"), settings=True, req=(0, 1), fp=(0, 1), pp=(0, 1), va=(0, 1), vb=(1,), n=(0, 1),
             independent=True, **SMALL, covers=["merged", "refused"]),
        dict(name="texts", np=(1,), kinds=("install",), settings=True, free="ab", tl=(1, 2), req=(1, 2), fp=(0,), pp=(0,), va=(0, 1), vb=(0,), n=(0,), nal="a",
             independent=True, covers=["merged", "refused"]),
        dict(name="changed", np=(1,), kinds=("install", "aot", "static"), settings=True, req=(0, 1), fp=(0, 1), pp=(0, 1), va=(1,), vb=(1,), n=(1,),
             change=True, **SMALL, covers=["merged", "refused"]),
        dict(name="changed-two", np=(2,), kinds=("install", "static", "aot"), req=(0, 1), fp=(0, 1), pp=(0, 1), va=(1,), vb=(1,), n=(0, 1), change=True,
             **SMALL, covers=["merged", "refused"]),
        dict(name="labels", np=(1,), kinds=("static",), req=(1,), fp=(0,), pp=(0,), va=(0, 1, 2), vb=(0, 1, 2), n=(0, 1, 2), nal="ab", fal="f", val="12",
             covers=["merged", "refused", "same-label"]),
        dict(name="twice", np=(1,), kinds=("install", "static"), req=(0, 1), fp=(0, 1), pp=(0,), va=(1,), vb=(1,), vc=(1, 2), n=(0, 1), nal="ab", fal="f", val="12",
             change_c=True, covers=["merged", "refused"]),
    ],
}
CONSTANTS = ["null"]


def variants(S, name, counts, p):
    """Pairs (label, properties) with different labels."""
    out = []
    for i, label in enumerate(names(S, name + ".label", S.pick(name + ".variants", counts), (1,), "xyz")):
        props = variant(S, f"{name}.{i}.", S.pick(f"{name}.{i}.n", p["n"]), p)
        out.append((label if props else "null", props))
    S.assume(sum(1 for label, _ in out if label == "null") < 2)
    if p.get("more") and S.flag(name + ".more"):
        from variantlib.models.variant import VariantProperty

        out = [(f"y{i}", [VariantProperty("n", "f", f"y{i}")]) for i in range(p["more"])] + out
    return out


def build(S, fields, vs, cls):
    from variantlib.models.variant import VariantDescription

    x = info(fields, None)
    x = cls(x)
    x.variants = {label: VariantDescription(list(props)) for label, props in vs}
    return x


def changed(S, fields, p, name):
    """A copy with one place (possibly) changed."""
    f = fields_of(info(fields))
    place = S.pick(name + ".place", ("none", "order", "features", "feature-key", "values", "static", "static-key", "api", "if", "install", "optional",
                                     "requires", "requires-more", "requires-order", "provider-more", "provider-less") if "places" not in p else p["places"])
    spaces = list(f["namespace_priorities"])
    if place == "none" or not spaces:
        return f
    ns = spaces[-1]
    if place == "order":
        f["namespace_priorities"] = S.perm(name + ".order", spaces) if len(spaces) < 9 else spaces[1:] + spaces[:1]
    elif place == "features":
        f["feature_priorities"][ns] = f["feature_priorities"].get(ns, []) + [S.str(name + ".f", 1, p["fal"])][:S.pick(name + ".k", (0, 1))]
    elif place == "feature-key":
        f["feature_priorities"] = {S.str(name + ".n", 1, p["nal"]): v for v in list(f["feature_priorities"].values())[:1]}
    elif place == "values":
        f["property_priorities"] = {ns: {S.str(name + ".f", 1, p["fal"]): [S.str(name + ".v", 1, p["val"])]}}
    elif place == "static":
        for k in list(f["static_properties"])[-1:]:
            f["static_properties"][k] = {x: [S.str(f"{name}.v{i}", 1, p["val"])] for i, x in enumerate(f["static_properties"][k])}
    elif place in ("static-less", "static-more"):
        # some features or values of the old ones only, or more of them
        for k, feats in f["static_properties"].items():
            if place == "static-more":
                feats[S.str(name + ".f", 1, p["fal"])] = [S.str(name + ".v", 1, p["val"])]
            elif S.flag(name + ".drop"):
                for x in feats:
                    feats[x] = feats[x][:-1]
            else:
                f["static_properties"][k] = dict(list(feats.items())[:-1])
    elif place in ("features-less", "values-less"):
        if place == "features-less":
            f["feature_priorities"][ns] = f["feature_priorities"].get(ns, [])[:-1]
        elif ns in f["property_priorities"]:
            f["property_priorities"][ns] = {k: v[:-1] for k, v in f["property_priorities"][ns].items()}
    elif place == "static-key":
        f["static_properties"] = {}
    elif place == "provider-more":
        n = S.str(name + ".n", 1, "cd")
        f["providers"][n] = (None, None, True, False, ["x"])
        f["namespace_priorities"].append(n)
    elif place == "provider-less":
        del f["providers"][ns]
        f["namespace_priorities"] = spaces[:-1]
    else:
        api, marker, inst, opt, req = f["providers"][ns]
        if place == "api":
            api = S.pick(name + ".api", (None, "mod:Cls.attr", "m"))
        elif place == "if":
            marker = S.pick(name + ".if", (None, "python_version >= '3'", "z"))
        elif place == "install":
            inst = S.flag(name + ".i")
            S.assume(bool(req))
        elif place == "optional":
            opt = S.flag(name + ".o")
        elif place == "requires":
            req = [S.str(name + ".r", 1, "pq")]
        elif place == "requires-more":
            req = req + ["more"]
        elif place == "requires-order":
            req = S.perm(name + ".r", req) if len(req) < 9 else req[1:] + req[:1]
        f["providers"][ns] = (api, marker, inst, opt, req)
    return f


def step(S, x, xf, xv, y, yf, yv):
    """One merge; returns the fields and variants afterwards."""
    from variantlib.errors import ValidationError

    common_same = S.decide(S.And(*[S.eq(xf[k], yf[k]) for k in xf]))
    clash = False
    for label, props in yv:
        for l2, p2 in xv:
            if S.decide(S.eq(label, l2)):
                S.cover("same-label")
                if not S.decide(same_props(S, props, p2)):
                    clash = True
    r = S.call(x.merge, y)
    S.check(same(S, y, yf), "other changed", "the merged metadata was modified")
    S.check(variants_are(S, y, yv), "other's variants changed")
    if common_same and not clash:
        S.check(r.ok, "refused", f"{r!r}")
        S.cover("merged")
        xv = list(xv) + [(label, props) for label, props in yv if not S.decide(S.Or(*[S.eq(label, k) for k, _ in xv]))]
    else:
        S.cover("refused")
        S.check(r.refused(ValidationError), "accepted", "contradicting metadata was merged" if r.ok else f"{r!r}")
    S.check(same(S, x, xf), "common part", f"{fields_of(x)!r} instead of {xf!r}")
    S.check(variants_are(S, x, xv), "variants", f"{x.variants!r} instead of {xv!r}")
    return xv


def same_props(S, a, b):
    return len(a) == len(b) and S.And(*[S.Or(*[S.eq(p, q) for q in b]) for p in a])


def variants_are(S, x, vs):
    got = list(x.variants.items())
    return len(got) == len(vs) and S.And(*[S.Or(*[S.And(S.eq(label, k), same_props(S, d.properties, props)) for k, props in vs])
                                           for label, d in got])


def scenario(S):
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    p = S.p
    _, af = common(S, p, "a", wheel=True)
    if p.get("independent"):
        _, bf = common(S, p, "b", wheel=True)
    elif p.get("change"):
        bf = changed(S, af, p, "c")
    else:
        bf = fields_of(info(af))
    av, bv = variants(S, "a", p["va"], p), variants(S, "b", p["vb"], p)
    x = build(S, af, av, VariantsJson)
    if len(bv) == 1 and S.flag("wheel"):
        y = build(S, bf, bv, VariantDistInfo)
    else:
        y = build(S, bf, bv, VariantsJson)
    av = step(S, x, af, av, y, bf, bv)
    if "vc" in p:
        # merged again, by itself, and with a third one
        av = step(S, x, af, av, y, bf, bv)
        cf = changed(S, af, p, "c") if p.get("change_c") else fields_of(info(af))
        cv = variants(S, "c", p["vc"], p)
        z = build(S, cf, cv, VariantsJson)
        av = step(S, x, af, av, z, cf, cv)
        step(S, x, af, av, x, af, av)
        # the other operand stays independent of the result
        S.check(same(S, y, bf) if p.get("change_c") else True, "later change")
    S.observe("result", [fields_of(x), [[k, v] for k, v in x.variants.items()]])
