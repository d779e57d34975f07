"""Text form of features and properties.  Round trip: for every property and
feature whose names have the listed lengths, with up to two symbolic whitespace
characters at every insignificant position.  Refusal: for every text of the
listed lengths over U+0000..U+07FF, from_str succeeds exactly when an
independent parser of the documented form does, with the same parts, and
otherwise raises ValidationError."""
from harness import ANY, NAME, VALUE, ref_parse

FUNCTIONS = ["variantlib.models.variant:", "variantlib.validators.base:"]
WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"
SHAPES = {
    "quick": [
        dict(name="roundtrip", kind="rt", lens=(1, 2, 3), covers=["rt"]),
        dict(name="spaced", kind="ws", lens=(1, 2), slots=(0, 2), covers=["ws"]),
        *[dict(name=f"text{n}", kind="text", n=n) for n in range(0, 9)],
        dict(name="text9", kind="text", n=9, covers=["accepted3", "refused3", "accepted2"]),
        dict(name="long", kind="rt", lens=(1, 2), long=300, covers=["rt"]),
    ],
    "thorough": [
        dict(name="roundtrip", kind="rt", lens=(1, 2, 3, 5, 8, 40), covers=["rt"]),
        dict(name="spaced", kind="ws", lens=(1, 2), slots=(0, 1, 2), covers=["ws"]),
        *[dict(name=f"text{n}", kind="text", n=n) for n in range(0, 12)],
        dict(name="text12", kind="text", n=12, covers=["accepted3", "refused3", "accepted2"]),
    ],
}


def scenario(S):
    from variantlib.errors import ValidationError
    from variantlib.models.variant import VariantFeature, VariantProperty

    kind = S.p["kind"]
    if kind == "text":
        text = S.str("text", S.p["n"], ANY)
        for cls, n in ((VariantProperty, 3), (VariantFeature, 2)):
            want = ref_parse(S, text, n)
            r = S.call(cls.from_str, text)
            S.observe(f"out{n}", r)
            if want is None:
                S.cover(f"refused{n}")
                S.check(r.refused(ValidationError), f"refuse{n}", f"{cls.__name__}.from_str on a malformed text")
            else:
                S.cover(f"accepted{n}")
                S.check(r.ok, f"accept{n}", f"{cls.__name__}.from_str refused a well-formed text")
                got = [getattr(r.value, k) for k in ("namespace", "feature", "value")[:n]]
                S.check(S.And(type(r.value) is cls, S.eq(got, want)), f"parts{n}")
        return
    ns = S.strv("ns", S.p["lens"], NAME)
    ft = S.strv("ft", S.p["lens"], NAME)
    vl = S.strv("vl", S.p["lens"], VALUE)
    p = VariantProperty(ns, ft, vl)
    f = VariantFeature(ns, ft)
    if kind == "rt":
        S.cover("rt")
        text = p.to_str()
        S.observe("text", text)
        S.check(S.eq(text, ns + " :: " + ft + " :: " + vl), "to_str")
        S.check(S.eq(VariantProperty.from_str(text), p), "roundtrip")
        S.check(S.eq(f.to_str(), ns + " :: " + ft), "to_str-feature")
        S.check(S.eq(VariantFeature.from_str(f.to_str()), f), "roundtrip-feature")
        return
    S.cover("ws")
    w = [S.strv(f"w{i}", S.p["slots"], WS) for i in range(6)]
    text = w[0] + ns + w[1] + "::" + w[2] + ft + w[3]
    r = S.call(VariantFeature.from_str, text)
    S.check(r.ok and S.eq(r.value, f), "whitespace-feature")
    r = S.call(VariantProperty.from_str, text + "::" + w[4] + vl + w[5])
    S.observe("p", r)
    S.check(r.ok and S.eq(r.value, p), "whitespace")
