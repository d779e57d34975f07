"""VariantDistInfo: accepted exactly for one variant under the expected label; its label and
description setters."""
import json

from harness.metadata import names, nested, same_variant, variant

FUNCTIONS = ["variantlib.variant_dist_info:", "variantlib.variants_json:VariantsJson._process"]
SHAPES = {
    "quick": [
        dict(name="labels", vs=(0, 1, 2), n=(0, 1), ll=(0, 1, 2), el=(0, 1, 2), lal="xy-", eal="xyX ", nal="a", fal="f", val="12",
             covers=["accepted", "count", "expected", "bad label", "null label", "null variant"]),
        dict(name="long", vs=(1,), n=(1,), ll=(16, 17), el=(16,), lal="x", nal="a", fal="f", val="1", covers=["accepted", "bad label"]),
        dict(name="text", text=True, covers=["text"]),
        dict(name="set", set=True, steps=2, n=(0, 1, 2), nal="ab", fal="f", val="12", covers=["set label", "set description"]),
        dict(name="prefixes", set=True, steps=2, n=(1,), nal="a", fal="f", val="1", grow=True, covers=["set label", "set description"]),
    ],
    "thorough": [
        dict(name="labels", vs=(0, 1, 2, 3), n=(0, 1, 2), ll=(0, 1, 2, 3), el=(0, 1, 2, 3), lal="xy-.", eal="xyXY. \n", nal="ab", fal="f", val="12",
             covers=["accepted", "count", "expected", "bad label", "null label", "null variant"]),
        dict(name="null-like", vs=(1,), n=(0, 1), ll=(4,), el=(4,), lal="nul", nal="a", fal="f", val="1",
             covers=["accepted", "null label", "null variant", "expected"]),
        dict(name="long", vs=(1,), n=(1,), ll=(15, 16, 17), el=(16, 17), lal="xyz", nal="a", fal="f", val="1", covers=["accepted", "bad label"]),
        dict(name="text", text=True, covers=["text"]),
        dict(name="set", set=True, steps=4, n=(0, 1, 2), nal="ab", fal="fg", val="12", covers=["set label", "set description"]),
    ],
}
CONSTANTS = ["null"]
OK = "abcdefghijklmnopqrstuvwxyz0123456789._"
TEXTS = (b"", b"{", b"not json", b"\xff", b"[]", b"null", b"7", b'"x"', b'{"variants": {}} x', b"{}", b'{"variants": []}', b'{"variants": null}')


def scenario(S):
    from variantlib.errors import ValidationError
    from variantlib.models.variant import VariantDescription
    from variantlib.variant_dist_info import VariantDistInfo

    p = S.p
    if p.get("text"):
        t = TEXTS[S.pick("which", range(len(TEXTS)))]
        if S.flag("str") and t != b"\xff":
            t = t.decode()
        r = S.call(VariantDistInfo, t) if S.flag("plain") else S.call(VariantDistInfo, t, "x")
        S.cover("text")
        S.check(r.refused(ValidationError), "text", f"{r!r} for {t!r}")
        return
    if p.get("set"):
        return setters(S)
    vs = []
    for i, label in enumerate(names(S, "label", S.pick("variants", p["vs"]), p["ll"], p["lal"])):
        props = variant(S, f"v{i}.", S.pick(f"n{i}", p["n"]), p)
        kind = S.pick(f"label{i}", ("own", "null")) if not any(k == "null" for k, _ in vs) else "own"
        vs.append((label if kind == "own" else "null", props))
    doc = {"default-priorities": {"namespace": []}, "variants": {label: nested(S, props) for label, props in vs}}
    expected = S.strv("expected", p["el"], p.get("eal", p["lal"])) if S.flag("expect") else None
    if expected is not None and S.flag("expect-null"):
        expected = "null"
    text = json.dumps(doc)
    if S.flag("bytes"):
        text = text.encode("utf-8")
    r = S.call(VariantDistInfo, text, expected) if expected is not None or S.flag("explicit") else S.call(VariantDistInfo, text)
    S.observe("result", r)
    wrong = None
    for label, props in vs:
        null = S.decide(S.eq(label, "null"))
        if not null and (not 1 <= len(label) <= 16 or not S.decide(S.all_in(label, OK))):
            wrong = "bad label"
        elif null and props:
            wrong = "null label"
        elif not null and not props:
            wrong = "null variant"
    if wrong is None and len(vs) != 1:
        wrong = "count"
    if wrong is None and expected is not None and not S.decide(S.eq(expected, vs[0][0])):
        wrong = "expected"
    if wrong:
        S.cover(wrong)
        S.check(r.refused(ValidationError), wrong, f"{r!r} for {doc!r}")
        return
    S.cover("accepted")
    S.check(r.ok, "accept", f"{r!r} for {doc!r}")
    S.check(S.eq(r.value.variant_label, vs[0][0]), "label")
    S.check(same_variant(S, list(r.value.variant_desc.properties), vs[0][1]), "description")
    S.check(len(r.value.variants) == 1, "one")


def setters(S):
    from variantlib.models.variant import VariantDescription
    from variantlib.models.variant_info import VariantInfo
    from variantlib.variant_dist_info import VariantDistInfo

    p = S.p
    props = variant(S, "v", S.pick("n", p["n"]), p)
    x = VariantDistInfo(VariantInfo())
    x.variant_desc = VariantDescription(list(props))
    label = None
    for k in range(p["steps"]):
        if S.flag(f"label{k}"):
            S.cover("set label")
            label = S.str(f"label{k}.to", 2, "xyz")
            x.variant_label = label
        else:
            S.cover("set description")
            props = variant(S, f"d{k}.", S.pick(f"nd{k}", p["n"]), p)
            x.variant_desc = VariantDescription(list(props))
            label = None
        S.check(len(x.variants) == 1, "one")
        S.check(same_variant(S, list(x.variant_desc.properties), props), "description")
        if label is not None:
            S.check(S.eq(x.variant_label, label), "label")
        else:
            S.check(S.eq(x.variant_label, VariantDescription(list(props)).hexdigest), "hash label")
