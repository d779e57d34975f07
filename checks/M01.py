"""Reading, serialising and reading again variant metadata of every listed shape."""
import json

from harness.metadata import common, flat, names, nested, parse_common, same, same_variant, variant

FUNCTIONS = ["variantlib.variants_json:", "variantlib.variant_dist_info:", "variantlib.models.variant_info:VariantInfo._process_common",
             "variantlib.models.variant:VariantDescription.to_dict", "variantlib.models.variant:VariantDescription.from_dict"]
SHAPES = {
    "quick": [
        dict(name="settings", np=(1,), kinds=("install", "aot"), settings=True, req=(0, 1), fp=(0, 1), pp=(0,), vs=(1,), n=(0, 1), nal="ab", fal="f", val="12",
             covers=["index", "wheel"]),
        dict(name="texts", np=(1,), kinds=("install",), settings=True, free="a\xe9", tl=(1, 2), req=(1, 2), fp=(0,), pp=(0,), vs=(0,), nal="a", covers=["index"]),
        dict(name="lists", np=(0, 1), kinds=("aot",), req=(1,), sf=(1, 2), sv=(1, 2), fp=(0, 1, 2), pp=(0, 1), ppv=(1, 2), vs=(1,), n=(1,),
             nal="a", fal="fg", val="12", covers=["index", "wheel"]),
        dict(name="empty-lists", np=(1,), kinds=("install", "aot"), req=(1,), ef=True, sv=(0, 1), fp=(0, 1), pp=(0, 1), ppv=(0, 1), vs=(1,), n=(1,), nal="a", fal="fg", val="1",
             covers=["index", "wheel"]),
        dict(name="two-providers", np=(2,), kinds=("install", "static"), req=(0, 1), fp=(0, 1), pp=(0, 1), vs=(0,), n=(0, 1), nal="ab", fal="f", val="1",
             covers=["index"]),
        dict(name="variants", np=(0,), vs=(0, 1, 2), n=(0, 1, 2), ll=(1, 2), nal="ab", fal="fg", val="12", covers=["index", "wheel"]),
        dict(name="long", np=(1,), kinds=("install", "aot"), settings=True, req=(1,), fp=(1,), pp=(1,), vs=(1,), n=(1,), nal="ab", fal="f", val="12", long=300, short=["label"],
             covers=["index", "wheel"]),
        dict(name="many", np=(1,), kinds=("install", "aot"), many=("providers", "features", "values", "lists", "requires", "static"), req=(1,), fp=(0, 1), pp=(0, 1),
             vs=(1,), n=(1,), nal="ab", fal="f", val="12", covers=["index", "wheel"]),
        dict(name="many-variants", np=(0,), more=(40, 120), vs=(0, 1), n=(0, 1), ll=(1,), nal="a", fal="f", val="1", covers=["index"]),
        dict(name="many-properties", np=(0,), props=60, vs=(1,), n=(1,), ll=(1,), nal="a", fal="f", val="1", covers=["index", "wheel"]),
        dict(name="prefixes", np=(1,), kinds=("install", "aot"), req=(1,), fp=(0, 1), pp=(0,), vs=(1,), n=(1,), nal="a", fal="f", val="1", grow=True, covers=["index", "wheel"]),
    ],
    "thorough": [
        dict(name="settings", np=(0, 1, 2), kinds=("install", "aot", "static"), settings=True, req=(0, 1), fp=(0, 1), pp=(0,), vs=(1,), n=(0, 1), nal="ab", fal="f",
             val="12", covers=["index", "wheel"]),
        dict(name="texts", np=(1,), kinds=("install", "aot"), settings=True, free="ab.", tl=(1, 2), req=(1, 2), fp=(0,), pp=(0,), vs=(0,), nal="a", covers=["index"]),
        dict(name="lists", np=(1,), kinds=("aot",), req=(1,), sf=(1, 2), sv=(1, 2, 3), fp=(0, 1, 2), pp=(0, 1, 2), ppv=(1, 2), vs=(1,), n=(1,),
             nal="a", fal="fg", val="123", covers=["index", "wheel"]),
        dict(name="two-providers", np=(2,), kinds=("install", "static", "aot"), req=(0, 1), fp=(0, 1, 2), pp=(0, 1), vs=(0, 1), n=(0, 1), nal="abc", fal="fg", val="12",
             covers=["index", "wheel"]),
        dict(name="variants", np=(0,), vs=(0, 1, 2, 3), n=(0, 1, 2, 3), ll=(1, 2), nal="ab", fal="fg", val="12", covers=["index", "wheel"]),
    ],
}
CONSTANTS = ["null"]


def scenario(S):
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    p = S.p
    doc, fields = common(S, p, wheel=True)
    vs = []
    for i, label in enumerate(names(S, "label", S.pick("variants", p["vs"]), p.get("ll", (1,)), "xy.")):
        props = variant(S, f"v{i}.", S.pick(f"n{i}", p["n"]), p)
        vs.append((label if props else "null", props))
    S.assume(sum(1 for label, _ in vs if label == "null") < 2)
    from variantlib.models.variant import VariantProperty
    if p.get("more"):
        vs = [(f"yy{i}", [VariantProperty("yy", "yy", f"yy{i}")]) for i in range(S.pick("more", p["more"]))] + vs
    if p.get("props"):
        of = S.pick("props of", ("spaces", "features", "values"))
        vs[0][1][:0] = [VariantProperty(f"yy{i}" if of == "spaces" else "yy", f"yy{i}" if of == "features" else "yy", f"yy{i}") for i in range(p["props"])]
    doc["variants"] = {label: nested(S, props) for label, props in vs}
    wheel = len(vs) == 1 and S.flag("wheel")
    S.cover("wheel" if wheel else "index")

    def read(d):
        return VariantDistInfo(d) if wheel else VariantsJson(json.loads(d))

    r = S.call(read, json.dumps(doc))
    S.check(r.ok, "read", f"{r!r} for {doc!r}")
    x = r.value
    r = S.call(x.to_str)
    S.check(r.ok, "write", f"{r!r} for {doc!r}")
    text = r.value
    data = json.loads(text)
    S.observe("data", data)
    r = S.call(read, text)
    S.check(r.ok, "read again", f"{r!r} for {data!r}")
    y = r.value
    for z in (x, y):
        S.check(same(S, z, fields), "fields", f"{z!r} instead of {fields!r}")
        got = list(z.variants.items())
        S.check(len(got) == len(vs) and S.And(*[S.Or(*[S.And(S.eq(k, label), same_variant(S, list(d.properties), props)) for label, props in vs])
                                                for k, d in got]), "variants", f"{z.variants!r} instead of {vs!r}")
    said = parse_common(data)
    for k in fields:
        S.check(S.eq(said[k], fields[k]), "text " + k, f"{said[k]!r} instead of {fields[k]!r}")
    S.check(len(data["variants"]) == len(vs), "text variants")
    for label, props in vs:
        triples = flat(data["variants"][label]) if label in data["variants"] else None
        S.check(triples is not None and len(triples) == len(props) and S.And(
            *[S.Or(*[S.And(S.eq(a, q.namespace), S.eq(b, q.feature), S.eq(c, q.value)) for a, b, c in triples]) for q in props]),
            "text variant", f"{triples!r} instead of {props!r}")
    again = S.call(y.to_str)
    S.check(again.ok and S.decide(S.eq(json.loads(again.value), data)), "stable")
