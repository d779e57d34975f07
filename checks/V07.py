"""Marker environment of a variant: exactly its namespaces, features and
properties in text form; the label only if given."""
from harness import CONS, CVAL, props

FUNCTIONS = ["variantlib.api:get_variant_environment_dict", "variantlib.models.variant:"]
SHAPES = {
    "quick": [
        dict(name="three", n=(0, 1, 2, 3), lens=(1,), vlens=(1,), al="b_z", val="b.", covers=["empty", "shared"]),
        dict(name="two-mixed", n=(1, 2), lens=(1, 2), vlens=(1, 2), al=CONS, val=CVAL, covers=["shared"]),
        dict(name="many", n=(0, 1), many=(0, 80), lens=(1,), vlens=(1,), al="z", val="b.", covers=["shared", "empty"]),
        dict(name="long", n=(1, 2), long=300, lens=(1,), vlens=(1,), al="b_", val="b.", covers=["shared"]),
    ],
    "thorough": [
        dict(name="four", n=(0, 1, 2, 3, 4), lens=(1,), vlens=(1,), al="b_", val="b.", covers=["empty", "shared"]),
        dict(name="two-mixed", n=(1, 2), lens=(1, 2, 3), vlens=(1, 2, 3), al=CONS, val=CVAL, covers=["shared"]),
    ],
}


def same_set(S, got, want):
    """Formula: the two collections contain the same strings."""
    return S.And(*[S.Or(*[S.eq(g, w) for w in want]) for g in got],
                 *[S.Or(*[S.eq(g, w) for g in got]) for w in want])


def scenario(S):
    from variantlib.api import get_variant_environment_dict
    from variantlib.models.variant import VariantDescription, VariantProperty

    p = S.p
    A = props(S, "a", S.pick("n", S.p["n"]), S.p["lens"], S.p["vlens"], alphabet=S.p["al"], valphabet=S.p["val"])
    if n := S.pick("many", p.get("many", (0,))):
        A += [VariantProperty(f"yy{i % 9}", f"yy{i % 20}", f"yy{i}") for i in range(n)]
    d = VariantDescription(list(A))
    label = {None: None, "l": S.str("label", 3, CONS), "null": "null", "hash": d.hexdigest}[S.pick("label-kind", (None, "l", "null", "hash"))]
    if S.flag("before"):  # an earlier environment, changed since
        before = get_variant_environment_dict(d, "b" if S.flag("before-label") else None)
        for v in before.values():
            if isinstance(v, set):
                v.add("more")
        before["more"] = "x"
    r = S.call(get_variant_environment_dict, d, label)
    S.check(r.ok, "raises")
    env = r.value
    S.cover("shared" if len(env["variant_namespaces"]) < len(A) else "empty" if not A else "plain")
    S.observe("env", {k: sorted(v) if isinstance(v, set) else v for k, v in env.items() if k != "variant_label"})
    want = {"variant_namespaces", "variant_features", "variant_properties"} | ({"variant_label"} if label else set())
    S.check(set(env) == want, "keys")
    if label is not None:
        S.check(S.eq(env["variant_label"], label), "label")
    for key, texts in (("variant_namespaces", [p.namespace for p in A]),
                       ("variant_features", [p.namespace + " :: " + p.feature for p in A]),
                       ("variant_properties", [p.namespace + " :: " + p.feature + " :: " + p.value for p in A])):
        S.check(isinstance(env[key], (set, frozenset)), "type:" + key)
        S.check(same_set(S, list(env[key]), texts), key)
