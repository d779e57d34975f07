"""Canonical descriptions: equality, sorted listing and hash for every order of
the properties; a repeated property is refused, any other list accepted."""
from harness import NAME, VALUE, prop

FUNCTIONS = ["variantlib.models.variant:", "variantlib.validators.base:"]
SHAPES = {
    "quick": [
        dict(name="three", n=(0, 1, 2, 3), lens=(1,), vlens=(1,), al="a_z", val="a.", covers=["unique", "duplicate"]),
        dict(name="two-mixed", n=(2,), lens=(1, 2), vlens=(1, 2), al=NAME, val=VALUE, covers=["unique", "duplicate"]),
        dict(name="many", n=(1, 2), many=(12, 150), lens=(1,), vlens=(1,), al="a_z", val="a.", covers=["unique", "duplicate"]),
        dict(name="prefixes", n=(3,), lens=(1,), vlens=(1,), al="a", val="1", grow=True, covers=["unique"]),
    ],
    "thorough": [
        dict(name="four", n=(4,), lens=(1,), vlens=(1,), al="a_", val="a.", covers=["unique", "duplicate"]),
        dict(name="three", n=(0, 1, 2, 3), lens=(1, 2), vlens=(1,), al="a_", val="a.", covers=["unique", "duplicate"]),
        dict(name="two-mixed", n=(2,), lens=(1, 2, 3), vlens=(1, 2, 3), al=NAME, val=VALUE, covers=["unique", "duplicate"]),
    ],
}


def scenario(S):
    from variantlib.errors import ValidationError
    from variantlib.models.variant import VariantDescription

    n = S.pick("n", S.p["n"])
    A = [prop(S, f"a{i}", S.p["lens"], S.p["vlens"], alphabet=S.p["al"], valphabet=S.p["val"]) for i in range(n)]
    more = [type(A[0])("yy", f"y{i}", "y") for i in range(S.pick("many", S.p.get("many", (0,))))]
    uniq = S.And(*[S.Not(S.eq(x, y)) for i, x in enumerate(A) for y in A[:i]])
    B = S.perm("order", A)
    A, B, n = A + more, more[::-1] + B, n + len(more)
    given = list(A)
    ra, rb = S.call(VariantDescription, given), S.call(VariantDescription, list(B))
    S.observe("a", ra)
    if not S.decide(uniq):
        S.cover("duplicate")
        S.check(ra.refused(ValidationError) and rb.refused(ValidationError), "duplicate", "repeated property accepted")
        return
    S.cover("unique")
    S.check(ra.ok and rb.ok, "accept")
    a, b = ra.value, rb.value
    S.check(S.eq(a, b) and a == b, "equal", "same properties in another order give another description")
    S.check(S.eq(a.hexdigest, b.hexdigest), "hash")
    S.check(S.eq(given, A), "argument-changed")
    S.check(len(a.properties) == n and S.And(*[S.Or(*[S.eq(p, q) for q in a.properties]) for p in A]), "listing")
    keys = [(p.namespace, p.feature, p.value) for p in a.properties]
    for x, y in zip(keys, keys[1:]):
        lt = S.Or(S.lt(x[0], y[0]), S.And(S.eq(x[0], y[0]), S.lt(x[1], y[1])),
                  S.And(S.eq(x[0], y[0]), S.eq(x[1], y[1]), S.lt(x[2], y[2])))
        S.check(lt, "sorted", "properties are not listed in sorted order")
    S.check(a.is_null_variant() is (n == 0), "null")
