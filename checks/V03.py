"""Data forms of a description: to_dict/from_dict and serialize/deserialize
round trips, and the nested dictionary lists exactly the properties, each once,
in order."""
from harness import NAME, VALUE, props

FUNCTIONS = ["variantlib.models.variant:"]
SHAPES = {
    "quick": [
        dict(name="upto3", ns=(0, 1, 2, 3), lens=(1,), vlens=(1,), al="a_z", val="a.", covers=["shared-feature", "shared-namespace", "empty"]),
        dict(name="two-mixed", ns=(1, 2), lens=(1, 2), vlens=(1, 3), covers=["shared-feature"]),
        dict(name="long", ns=(1, 2), long=300, lens=(1,), vlens=(1,), al="a_", val="a.", covers=["shared-feature"]),
        dict(name="many", ns=(1, 2), many=True, lens=(1,), vlens=(1,), al="az", val="a.", covers=["shared-feature"]),
        dict(name="prefixes", ns=(2, 3), lens=(1,), vlens=(1,), al="a", val="1", grow=True, covers=["shared-feature"]),
    ],
    "thorough": [
        dict(name="upto4", ns=(0, 1, 2, 3, 4), lens=(1,), vlens=(1,), al="a_", val="a.", covers=["shared-feature", "shared-namespace", "empty"]),
        dict(name="three-mixed", ns=(1, 2, 3), lens=(1, 2), vlens=(1, 2), al="a_", val="a.", covers=["shared-feature"]),
    ],
}


def scenario(S):
    from variantlib.models.variant import VariantDescription, VariantProperty

    A = props(S, "a", S.pick("n", S.p["ns"]), S.p["lens"], S.p["vlens"],
              alphabet=S.p.get("al", NAME), valphabet=S.p.get("val", VALUE))
    if S.p.get("many"):
        how = S.pick("many", ((80, 1, 1), (1, 80, 1), (1, 1, 80), (4, 4, 4)))
        A += [VariantProperty(f"yy{i}", f"yy{j}", f"yy{k}") for i in range(how[0]) for j in range(how[1]) for k in range(how[2])]
    d = VariantDescription(list(A))
    t = d.to_dict()
    flat = []
    for ns, feats in t.items():
        if len(feats) > 1:
            S.cover("shared-namespace")
        for ft, vals in feats.items():
            if len(vals) > 1:
                S.cover("shared-feature")
            S.check(len(vals) > 0, "empty-feature")
            for v in vals:
                flat.append((ns, ft, v))
        S.check(len(feats) > 0, "empty-namespace")
    if not A:
        S.cover("empty")
    S.observe("dict", {n: {f: list(v) for f, v in fs.items()} for n, fs in t.items()})
    S.check(len(flat) == len(A), "nested-count", "nested form has a property too few or too many")
    for p in A:
        hits = [S.eq(f, (p.namespace, p.feature, p.value)) for f in flat]
        S.check(S.Or(*hits), "nested-missing", "property missing from the nested form")
    r = S.call(VariantDescription.from_dict, t)
    S.check(r.ok and S.eq(r.value, d), "from_dict(to_dict)")
    ser = d.serialize()
    S.observe("list", [dict(e) for e in ser])
    S.check(S.eq(ser, [{"namespace": p.namespace, "feature": p.feature, "value": p.value} for p in d.properties]),
            "serialize")
    r = S.call(VariantDescription.deserialize, ser)
    S.check(r.ok and S.eq(r.value, d), "deserialize(serialize)")
    S.check(d.is_null_variant() is (len(A) == 0), "null")
    for p in A:
        S.check(S.eq(VariantProperty.deserialize(p.serialize()), p), "property-serialize")
    # what is done to a data form later has no effect on the description
    kept = [(p.namespace, p.feature, p.value) for p in d.properties]
    for feats in t.values():
        for vals in feats.values():
            vals[0] = "other"
            vals.append("another")
        feats["more"] = []
    t.pop(next(iter(t), None), None)
    t["other"] = {}
    for e in ser:
        e["value"] = "other"
        e["more"] = "x"
    ser.append({})
    S.check(S.eq([(p.namespace, p.feature, p.value) for p in d.properties], kept), "shared", "a data form shares data with the description")
    S.check(S.eq(d.serialize(), [{"namespace": n, "feature": f, "value": v} for n, f, v in kept]), "serialize again")
    r = S.call(VariantDescription.from_dict, d.to_dict())
    S.check(r.ok and S.eq(r.value, d) and len(r.value.properties) == len(kept), "from_dict(to_dict) again")
