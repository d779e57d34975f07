"""Variant labels: every custom label of the listed lengths over
U+0000..U+07FF, for null and non-null variants."""
from harness import ANY, LABEL

FUNCTIONS = ["variantlib.api:get_variant_label", "variantlib.models.variant:"]
SHAPES = {
    "quick": [
        dict(name="short", lens=(0, 1, 2, 3, 4, 5), al=ANY, covers=["accepted", "refused", "null-refused", "null-ok"]),
        dict(name="boundary", lens=(15, 16, 17, 18), al=ANY, covers=["accepted", "refused", "null-refused"]),
        dict(name="none", lens=None, covers=["default", "default-null"]),
    ],
    "thorough": [
        dict(name="all", lens=tuple(range(0, 20)) + (64,), al=ANY,
             covers=["accepted", "refused", "null-refused", "null-ok"]),
        dict(name="none", lens=None, covers=["default", "default-null"]),
    ],
}


def scenario(S):
    from variantlib.api import get_variant_label
    from variantlib.errors import ValidationError
    from variantlib.models.variant import VariantDescription, VariantProperty

    null = S.flag("null")
    d = VariantDescription([] if null else [VariantProperty(*(S.str(f"p{i}", 2, "abc_") for i in range(3)))])
    if S.p["lens"] is None:
        r = S.call(get_variant_label, d)
        r2 = S.call(get_variant_label, d, None)
        S.cover("default-null" if null else "default")
        S.check(r.ok and S.eq(r.value, "null" if null else d.hexdigest), "default")
        S.check(r2.ok and S.eq(r2.value, r.value), "default-none")
        S.check(S.Implies(not null, S.Not(S.eq(r.value, "null"))), "null-for-properties")
        return
    label = S.strv("label", S.p["lens"], S.p["al"])
    r = S.call(get_variant_label, d, label)
    S.observe("label", r)
    is_null = S.eq(label, "null")
    if null:
        want = is_null
    else:
        want = S.And(1 <= len(label) <= 16, S.all_in(label, LABEL), S.Not(is_null))
    if S.decide(want):
        S.cover("null-ok" if null else "accepted")
        S.check(r.ok and S.eq(r.value, label), "accept", "documented label refused or changed")
    else:
        S.cover("null-refused" if null else "refused")
        S.check(r.refused(ValidationError), "refuse", f"undocumented label, got {r!r}")
