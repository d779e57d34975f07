"""make_variant_dist_info: the generated text, read back, for every variant, project
table and plugin answer of the listed shapes."""
import json

from harness.metadata import common, fields_of, flat, info, parse_common, same, variant
from harness.plugins import Feature, interpreter, plugin

FUNCTIONS = ["variantlib.api:make_variant_dist_info", "variantlib.api:get_variant_label", "variantlib.variant_dist_info:",
             "variantlib.variants_json:", "variantlib.models.variant_info:", "variantlib.plugins.loader:", "variantlib.plugins._subprocess:"]
SHAPES = {
    "quick": [
        dict(name="plugin", np=(1,), kinds=("aot",), req=(0,), fp=(0, 1, 2), pp=(0,), n=(1, 2), nf=(1, 2), nv=(1, 2),
             nal="ab", fal="fg", val="12", covers=["ok", "unsupported", "multi"]),
        dict(name="two-plugins", np=(2,), kinds=("aot", "install"), req=(0,), fp=(0,), pp=(0,), n=(1, 2), nf=(1,), nv=(1,),
             nal="ab", fal="fg", val="1", covers=["ok", "unsupported", "multi"]),
        dict(name="project", np=(0, 1), kinds=("install", "static"), settings=True, req=(0, 1), fp=(0, 1), pp=(0, 1), n=(0, 1),
             nal="ab", fal="fg", val="12", covers=["ok"]),
        dict(name="texts", np=(1,), kinds=("install",), settings=True, free="a\xe9", tl=(1, 2), req=(1, 2), fp=(0,), pp=(0,), n=(0,), nal="a", covers=["ok"]),
        dict(name="regenerated", wheel=True, np=(1,), kinds=("aot",), req=(0,), fp=(0,), pp=(0,), n=(1,), sf=(1, 2), nf=(1,), nv=(1, 2),
             nal="ab", fal="fg", val="12", covers=["ok", "unsupported", "multi"]),
        dict(name="labels", np=(0,), n=(0, 1), labels=True, nal="ab", fal="f", val="1", covers=["ok", "label"]),
        dict(name="python", np=(1, 2), kinds=("aot",), req=(0,), fp=(0,), pp=(0,), n=(1,), nf=(1,), nv=(1,), nal="ab", fal="f", val="12", python=True, expand=True,
             covers=["ok", "unsupported", "as it is"]),
        dict(name="long", np=(1,), kinds=("aot",), req=(0,), fp=(0, 1), pp=(0,), n=(1,), nf=(1,), nv=(1, 2), nal="ab", fal="f", val="12", long=300, covers=["ok", "unsupported"]),
        dict(name="many", np=(1,), kinds=("aot",), req=(0,), fp=(0, 1), pp=(0,), n=(1,), nf=(1,), nv=(1,), nal="ab", fal="f", val="12", lots=True, covers=["ok", "unsupported"]),
        dict(name="prefixes", np=(1,), kinds=("aot",), req=(0,), fp=(0,), pp=(0,), n=(1, 2), nf=(1, 2), nv=(1, 2), nal="a", fal="f", val="1", grow=True, covers=["ok", "unsupported", "multi"]),
    ],
    "thorough": [
        dict(name="plugin", np=(1,), kinds=("aot",), req=(0,), fp=(0, 1, 2), pp=(0, 1), n=(1, 2, 3), nf=(1, 2), nv=(1, 2),
             nal="ab", fal="fg", val="12", covers=["ok", "unsupported", "multi"]),
        dict(name="two-plugins", np=(2,), kinds=("aot", "install", "static"), req=(0,), fp=(0, 1), pp=(0,), n=(1, 2), nf=(1, 2), nv=(1,),
             nal="ab", fal="fg", val="1", covers=["ok", "unsupported", "multi"]),
        dict(name="project", np=(0, 1, 2), kinds=("install", "static"), settings=True, req=(0, 1), fp=(0, 1), pp=(0, 1), n=(0, 1),
             nal="abc", fal="fg", val="12", covers=["ok"]),
        dict(name="texts", np=(1,), kinds=("install",), settings=True, free="ab", tl=(1, 2), req=(1, 2), fp=(0,), pp=(0,), n=(0,), nal="a", covers=["ok"]),
        dict(name="regenerated", wheel=True, np=(1,), kinds=("aot",), req=(0,), fp=(0,), pp=(0,), n=(1,), sf=(1, 2), nf=(1,), nv=(1, 2),
             nal="ab", fal="fg", val="12", covers=["ok", "unsupported", "multi"]),
        dict(name="labels", np=(0,), n=(0, 1), labels=True, nal="ab", fal="f", val="1", covers=["ok", "label"]),
    ],
}


def scenario(S):
    from variantlib.api import make_variant_dist_info
    from variantlib.models.variant import VariantDescription
    from variantlib.variant_dist_info import VariantDistInfo

    p = S.p
    _, fields = common(S, p, wheel=bool(p.get("wheel")))
    props = variant(S, "p", S.pick("n", p["n"]), p)
    desc = VariantDescription(list(props))
    label = S.str("label", 2, "ab-") if p.get("labels") and S.flag("with-label") else None
    used, modules, bad = {}, {}, None
    for i, (ns, (api, marker, install, optional, requires)) in enumerate(list(fields["providers"].items())):
        if install or not requires:
            continue
        fields["providers"][ns] = (f"m{i}", marker, install, optional, requires)
        feats = []
        for j in range(S.pick(f"nf{i}", p["nf"])):
            f = S.str(f"f{i}.{j}", 1, p["fal"])
            S.assume(S.And(*[S.Not(S.eq(f, g)) for g, _ in feats]))
            vs = []
            for k in range(S.pick(f"nv{i}.{j}", p["nv"])):
                v = S.str(f"v{i}.{j}.{k}", 1, p["val"])
                S.assume(S.And(*[S.Not(S.eq(v, w)) for w in vs]))
                vs.append(v)
            feats.append((f, vs))
        if p.get("lots"):
            nfs, nvs = S.pick("many", ((0, 1500), (80, 1)))
            pad = [f"y{j}" for j in range(nvs)]
            feats = [(f"yy{j}", list(pad)) for j in range(nfs)] + [(f, pad + v) for f, v in feats]
        multi = S.flag(f"multi{i}")
        modules[f"m{i}"] = plugin(ns, [Feature(f, list(v), multi and j == len(feats) - 1) for j, (f, v) in enumerate(feats)],
                                  [Feature("f", ["9"])], aot=True)
        mine = [q for q in props if S.decide(S.eq(q.namespace, ns))]
        if mine:
            used[ns] = feats
            if multi:
                bad = bad or "multi"
            for q in mine:
                if not S.decide(S.Or(*[S.And(S.eq(q.feature, f), S.Or(*[S.eq(q.value, v) for v in vs])) for f, vs in feats])):
                    bad = bad or "unsupported"
    project = info(fields)
    args = {}
    if p.get("expand") and not S.flag("expand"):
        # nothing is asked of the plugins
        args, used, bad, modules = {"expand_aot_plugin_properties": False}, {}, None, {}
        S.cover("as it is")
    infos = (project,)
    if p.get("labels") and not fields["providers"] and S.flag("no-project"):
        infos = ()
    with interpreter(S, modules) as where:
        r = S.call(make_variant_dist_info, desc, *infos, variant_label=label, **args, **where)
        if r.ok:
            text = r.value
            data = json.loads(text)
            S.observe("data", [{k: v for k, v in data.items() if k != "variants"}, [flat(v) for v in data["variants"].values()]])
            back = S.call(VariantDistInfo, text)
    S.check(same(S, project, fields), "project", "the project's metadata was changed")
    if label is not None and not S.decide(S.And(props != [], S.all_in(label, "ab"))):
        S.cover("label")
        S.check(not r.ok, "bad label")
        return
    if bad:
        S.cover(bad)
        S.check(not r.ok, "refused", bad)
        return
    S.check(r.ok, "fails", f"{r!r}")
    S.cover("ok")
    want = {k: dict(v) for k, v in fields.items() if k != "namespace_priorities"}
    want["namespace_priorities"] = list(fields["namespace_priorities"])
    for ns, feats in used.items():
        want["static_properties"][ns] = {f: list(vs) for f, vs in feats}
        got = data["default-priorities"].get("feature", {}).get(ns, [])
        old = fields["feature_priorities"].get(ns, [])
        S.check(S.eq(got[:len(old)], old), "priorities kept")
        if len(feats) > 1:
            S.check(S.And(*[S.Or(*[S.eq(f, g) for g in got]) for f, _ in feats]), "prioritised")
            S.check(S.And(*[S.Or(*[S.eq(f, g) for f, _ in feats]) for g in got[len(old):]]), "priorities added")
        else:
            S.check(len(got) == len(old), "priorities added")
        want["feature_priorities"][ns] = got
    want["feature_priorities"] = {k: v for k, v in want["feature_priorities"].items() if v}
    got = parse_common(data)
    for k, v in want.items():
        S.check(S.eq(got[k], v), k, f"{got[k]!r} instead of {v!r}")
    S.check(len(data["variants"]) == 1, "one variant")
    (lab, nest), = data["variants"].items()
    S.check(S.eq(lab, label if label is not None else "null" if not props else desc.hexdigest), "label")
    triples = flat(nest)
    S.check(len(triples) == len(props) and S.And(*[S.Or(*[S.And(S.eq(a, q.namespace), S.eq(b, q.feature), S.eq(c, q.value))
                                                          for a, b, c in triples]) for q in props]), "properties")
    unused = any(not i and r and not any(S.decide(S.eq(ns, u)) for u in used)
                 for ns, (_, _, i, _, r) in fields["providers"].items())
    S.check(back.ok or S.p.get("expand") and args, "readable", "the generated metadata is refused by the reader",
            finding=("P06-unused-aot-plugin", unused))
    if back.ok:
        S.check(same(S, back.value, want) and S.decide(S.eq(back.value.variant_desc, desc)), "read back")
