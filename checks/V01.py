"""Variant hash.  For every description of up to the listed number of
properties (all names and values of the listed lengths, all orders of giving
them): the hash is 8 hex digits, equal for every order, and the data fed to
SHA-256 of two descriptions are equal exactly when their property sets are."""
from harness import CONS, CVAL, NAME, VALUE, props

FUNCTIONS = ["variantlib.models.variant:"]
SHAPES = {
    "quick": [
        dict(name="two-vs-two", na=2, nb=2, lens=(1,), vlens=(1,), covers=["same", "differ"]),
        dict(name="lengths", na=2, nb=2, lens=(1, 2), vlens=(1,), al="a_", val="a.", covers=["same", "differ"]),
        dict(name="one-vs-two", na=1, nb=2, lens=(1,), vlens=(1, 2, 3, 4), covers=["differ"]),
        dict(name="any-small", na=(0, 1, 2), nb=(0, 1, 2), lens=(1,), vlens=(1,), covers=["same", "differ"]),
        dict(name="long", na=1, nb=1, lens=(1, 8), vlens=(12,), al=CONS, val=CVAL, covers=["same", "differ"]),
        dict(name="orders", na=3, nb="perm", lens=(1,), vlens=(1,), al="a_", val="a.", covers=["same"]),
        dict(name="sets", na=2, nb="perm", lens=(1,), vlens=(1, 2), setorder=True, covers=["same"]),
        dict(name="many", na=2, nb=2, many=(12, 150), lens=(1,), vlens=(1,), al="az", val="a.", covers=["same", "differ"]),
        dict(name="long-names", na=2, nb=2, long=300, lens=(1,), vlens=(1,), al="az", val="a.", covers=["same", "differ"]),
    ],
    "thorough": [
        dict(name="two-vs-two", na=2, nb=2, lens=(1, 2), vlens=(1, 2), covers=["same", "differ"]),
        dict(name="one-vs-three", na=1, nb=3, lens=(1,), vlens=(1, 2, 9, 10), covers=["differ"]),
        dict(name="any-small", na=(0, 1, 2, 3), nb=(0, 1, 2), lens=(1,), vlens=(1, 2), al="a_", val="a.", covers=["same", "differ"]),
        dict(name="long", na=1, nb=1, lens=(1, 8, 30), vlens=(12, 3), al=CONS, val=CVAL, covers=["same", "differ"]),
        dict(name="orders", na=3, nb="perm", lens=(1,), vlens=(1, 2), al="a_9", val="a.", covers=["same"]),
        dict(name="orders4", na=4, nb="perm", lens=(1,), vlens=(1,), al="a_", val="a.", covers=["same"]),
        dict(name="sets", na=3, nb="perm", lens=(1,), vlens=(1,), al="a_", val="a.", setorder=True, covers=["same"]),
    ],
}


def _n(S, name, n):
    return n if isinstance(n, int) else S.pick(name, n)


def scenario(S):
    from variantlib.models.variant import VariantDescription

    kw = dict(lens=S.p["lens"], vlens=S.p["vlens"], alphabet=S.p.get("al", NAME), valphabet=S.p.get("val", VALUE))
    A = props(S, "a", _n(S, "na", S.p["na"]), **kw)
    if S.p["nb"] == "perm":
        B = S.perm("order", A)
    else:
        B = props(S, "b", _n(S, "nb", S.p["nb"]), **kw)
    more = [type(A[0])("yy", f"y{i}", "y") for i in range(S.pick("many", S.p.get("many", (0,))))]
    A, B = A + more, more[::-1] + B
    da, db = VariantDescription(list(A)), VariantDescription(list(B))
    ha, hb = da.hexdigest, db.hexdigest
    for h in (ha, hb):
        S.check(len(h) == 8 and S.all_in(h, "0123456789abcdef"), "hex")
    # equality of the two property sets, from the definition
    same = len(A) == len(B) and S.And(*[S.Or(*[S.eq(x, y) for y in B]) for x in A])
    if S.decide(same):
        S.cover("same")
        S.check(S.eq(ha, hb), "order-dependent", "equal property sets have different hashes")
    else:
        S.cover("differ")
        S.check(S.Not(S.eq(ha, hb)), "collision", "different property sets are hashed from the same data")
    S.observe("equal", bool(S.decide(S.eq(ha, hb))))
