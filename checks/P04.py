"""The plugin host and its caller on plugins and answers that may or may not have
the documented form: the answer is exactly the conforming plugins' data, or an error."""
from harness import CONS, CVAL, NAME, VALUE
from harness.plugins import Feature, hosted, plugin

FUNCTIONS = ["variantlib.plugins._subprocess:", "variantlib.plugins.loader:", "variantlib.validators.base:", "variantlib.models.provider:"]
SHAPES = {
    "quick": [
        dict(name="prototype", kind="prototype", n=(1, 2), covers=["ok", "refused"]),
        dict(name="answer", kind="answer", n=(1, 2), covers=["ok", "refused"]),
        dict(name="feature", kind="feature", n=(1,), covers=["ok", "refused"]),
        dict(name="texts", kind="texts", n=(1,), lens=(1, 2), covers=["ok", "refused"]),
    ],
    "thorough": [
        dict(name="prototype", kind="prototype", n=(1, 2), every=True, covers=["ok", "refused"]),
        dict(name="answer", kind="answer", n=(1, 2, 3), covers=["ok", "refused"]),
        dict(name="feature", kind="feature", n=(1, 2), covers=["ok", "refused"]),
        dict(name="texts", kind="texts", n=(1,), lens=(1, 2, 3), covers=["ok", "refused"]),
    ],
}
REFS = ("m{i}", "m{i}:A.B", "m{i}: A", "m{i}:A.C", "m{i}:A.B.namespace", "m{i}:A.X.Y.Z", "pk.g{i}.m", "none{i}", "m{i}:", "m{i}:A-B", "m {i}")


class Partial:
    """An object that lacks one attribute of a feature configuration."""

    def __init__(self, f, v, m, without):
        for k, x in (("name", f), ("values", v), ("multi_value", m)):
            if k != without:
                setattr(self, k, x)


def scenario(S):
    from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
    from variantlib.plugins.loader import ListPluginLoader

    p = S.p
    kind = p["kind"]
    modules, refs, want, ok = {}, [], {}, True
    method = S.pick("method", ("supported", "all", "fixed"))
    for i in range(S.pick("n", p["n"])):
        ns, f, v, m = f"n{i}", "f", ["v", "w"], False
        ref, omit, aot = f"m{i}", (), True
        good = [Feature(f, v, m)]
        if kind == "prototype":
            ref = S.pick(f"ref{i}", REFS if not i or "every" in p else REFS[::3]).replace("{i}", str(i))
            omit = S.pick(f"omit{i}", ((), ("namespace",), ("get_all_configs",), ("get_supported_configs",)))
            aot = S.pick(f"aot{i}", ("absent", False, True, None, 0) if method == "fixed" else ("absent", True))
            ok = ok and not omit and (method != "fixed" or aot is True) and ref in (f"m{i}", f"m{i}:A.B", f"m{i}: A", f"m{i}:A.X.Y.Z", f"pk.g{i}.m")
        elif kind == "answer":
            j = S.pick(f"answer{i}", range(10))
            other = S.flag(f"other{i}")  # the other method is the one that misbehaves
            bad = (good, [], None, {"f": ["v"]}, tuple(good), "f", [good[0], None], [Partial(f, v, m, "name")],
                   [Partial(f, v, m, "values")], [Partial(f, v, m, "multi_value")])[j]
            if j and not other:
                good = bad
            ok = ok and (j == 0 or other or (j == 1 and method != "all"))
        elif kind == "feature":
            f = S.pick(f"f{i}", ("f", None, 1, b"f", ["f"]))
            v = S.pick(f"v{i}", (["v", "w"], ["w", "v"], [], "v", None, 1, ["v", "v"], ["v", 1], {"v": 1}, ["v", None]))
            m = S.pick(f"m{i}", (True, False, None, 1, "yes", []))
            ok = ok and type(f) is str and isinstance(m, bool) and v in (["v", "w"], ["w", "v"])
            good = [Feature(f, list(v) if type(v) is list else v, m)]
        else:
            ns = S.strv("ns", p["lens"], CONS + "A-\n")
            f = S.strv("f", p["lens"], CONS + "A-\n")
            v = [S.strv("v0", p["lens"], CVAL + "A-\n")]
            ok = S.decide(S.And(S.all_in(ns, NAME), S.all_in(f, NAME), S.all_in(v[0], VALUE)))
            good = [Feature(f, list(v), m)]
        obj = plugin(ns, good if method != "all" else [Feature("f", ["o"])], good if method == "all" else [Feature("f", ["o"])],
                     aot=aot, omit=omit)
        if kind == "answer" and other and j:
            obj = plugin(ns, good if method != "all" else bad, good if method == "all" else bad, aot=aot)
        box = type("Box", (obj,), {})
        box.B = obj
        box.X = type("X", (), {"Y": type("Y", (), {"Z": obj})})
        top = type("Module", (obj,), {})
        top.A = box
        modules[f"m{i}"] = modules[f"pk.g{i}.m"] = top
        refs.append(ref)
        want[ns] = (f, v, m) if good else None

    def run():
        with ListPluginLoader(refs) as ld:
            return ld.namespaces, (ld.get_all_configs() if method == "all" else
                                   ld.get_supported_configs(require_fixed=method == "fixed"))

    with hosted(modules):
        r = S.call(run)
    S.observe("r", r)
    S.cover("ok" if ok else "refused")
    if not ok:
        S.check(not r.ok, "refused", f"a non-conforming plugin was accepted: {r!r}")
        return
    S.check(r.ok, "fails", f"{r!r}")
    S.check(S.eq(r.value[0], list(want)), "namespaces")
    S.check(S.eq(r.value[1], {ns: ProviderConfig(ns, [VariantFeatureConfig(w[0], w[1], w[2])]) for ns, w in want.items() if w}), "configs")
