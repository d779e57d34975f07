"""Conversion between the metadata classes: equal fields, no variants, nothing shared, for
every table of the listed shapes, every pair of classes and changes at every place."""
from harness.metadata import common, fields_of, info, same, variant

FUNCTIONS = ["variantlib.models.variant_info:VariantInfo.copy_as_kwargs", "variantlib.variants_json:VariantsJson.__init__",
             "variantlib.pyproject_toml:VariantPyProjectToml.__init__", "variantlib.variant_dist_info:VariantDistInfo.__init__"]
SHAPES = {
    "quick": [
        dict(name="full", np=(0, 1), kinds=("install", "aot", "static"), settings=True, req=(1,), fp=(0, 1), pp=(0, 1), nal="ab", fal="f", val="12",
             covers=["converted", "changed source", "changed copy"]),
        dict(name="texts", np=(1,), kinds=("install",), settings=True, free="a\xe9", tl=(1, 2), req=(1, 2), fp=(0,), pp=(0,), nal="a", few=True,
             covers=["converted", "changed source", "changed copy"]),
        dict(name="many", np=(1,), kinds=("install", "aot"), many=("providers", "features", "values", "lists", "requires", "static"), req=(1,), fp=(1,), pp=(1,), nal="a", fal="f",
             val="1", covers=["converted", "changed source", "changed copy"]),
        dict(name="empty-lists", np=(1,), kinds=("install", "static"), req=(1,), sf=(0, 1), sv=(0, 1), fp=(0, 1), ef=True, pp=(1,), ppv=(0, 1), nal="a", fal="f",
             val="1", covers=["converted", "changed source", "changed copy"]),
        dict(name="two", np=(2,), kinds=("aot",), req=(1,), sf=(1, 2), sv=(1,), fp=(0, 1), pp=(1, 2), nal="ab", fal="fg", val="1", few=True,
             covers=["converted", "changed source", "changed copy"]),
        dict(name="prefixes", np=(2,), kinds=("aot",), req=(1,), sf=(1,), sv=(1,), fp=(0,), pp=(1,), nal="a", fal="f", val="1", grow=["n"], few=True, covers=["converted", "changed source", "changed copy"]),
    ],
    "thorough": [
        dict(name="full", np=(0, 1), kinds=("install", "aot", "static"), settings=True, req=(0, 1), sf=(1, 2), fp=(0, 1, 2), pp=(0, 1, 2), nal="ab", fal="fg",
             val="12", few=True, covers=["converted", "changed source", "changed copy"]),
        dict(name="texts", np=(1,), kinds=("install", "aot"), settings=True, free="ab", tl=(1, 2), req=(1, 2), fp=(0,), pp=(0,), nal="a", few=True,
             covers=["converted", "changed source", "changed copy"]),
        dict(name="two", np=(2,), kinds=("aot", "install"), req=(0, 1), sf=(1, 2), sv=(1, 2), fp=(0, 1), pp=(1, 2), nal="ab", fal="fg", val="12", few=True,
             covers=["converted", "changed source", "changed copy"]),
    ],
}


def change(S, x, spaces):
    """Change every place of the metadata."""
    x.namespace_priorities.append("new")
    for d in (x.feature_priorities, x.property_priorities, x.static_properties):
        for k in list(d):
            if isinstance(d[k], list):
                d[k].append("new")
            else:
                for f in list(d[k]):
                    d[k][f].append("new")
                d[k]["new"] = []
        d["zz"] = {}
    for q in x.providers.values():
        q.requires.append("new")
        q.optional = not q.optional
        q.plugin_api = "other"
        q.enable_if = "other"
        q.install_time = not q.install_time
    x.providers["zz"] = None
    if getattr(x, "variants", None) is not None:
        x.variants["new"] = None


def scenario(S):
    from variantlib.models.variant import VariantDescription
    from variantlib.models.variant_info import VariantInfo
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variant_dist_info import VariantDistInfo
    from variantlib.variants_json import VariantsJson

    p = S.p
    _, fields = common(S, p, wheel=True)
    classes = (VariantInfo, VariantPyProjectToml, VariantsJson, VariantDistInfo)
    src = S.pick("from", classes if not p.get("few") else classes[1:3])
    dst = S.pick("to", classes[1:])
    x = info(fields)
    if src is not VariantInfo:
        x = src(x)
        S.check(same(S, x, fields), "first copy")
    if src in (VariantsJson, VariantDistInfo):
        S.check(x.variants == {}, "no variants")
        x.variants = {"l": VariantDescription(variant(S, "v", 1, dict(p, nal="a")))}
    y = dst(x)
    S.observe("copy", fields_of(y))
    S.check(type(y) is dst, "class")
    S.check(same(S, y, fields), "equal", f"{fields_of(y)!r} instead of {fields!r}")
    S.check(same(S, x, fields), "source kept")
    if dst is not VariantPyProjectToml:
        S.check(y.variants == {}, "variants")
    if src in (VariantsJson, VariantDistInfo):
        S.check(len(x.variants) == 1, "source variants")
    S.cover("converted")
    spaces = list(fields["namespace_priorities"])
    if S.flag("side"):
        S.cover("changed source")
        change(S, x, spaces)
        S.check(same(S, y, fields), "shared", f"{fields_of(y)!r} after the source was changed")
        S.check(dst is VariantPyProjectToml or y.variants == {}, "shared variants")
    else:
        S.cover("changed copy")
        change(S, y, spaces)
        S.check(same(S, x, fields), "shared back", f"{fields_of(x)!r} after the copy was changed")
        S.check(src in (VariantInfo, VariantPyProjectToml) or len(x.variants) == 1, "shared variants")
        z = dst(x)
        S.check(same(S, z, fields), "second copy")
        S.check(dst is VariantPyProjectToml or z.variants == {}, "second copy's variants")
