"""get_provider_requires and the entry point of a provider, for every provider table
of the listed sizes."""
from harness.metadata import names

INSTRUMENT = ["packaging._tokenizer", "packaging._parser", "packaging.requirements"]
CONSTANTS = ["IDENTIFIER", "URL"]
FUNCTIONS = ["variantlib.models.variant_info:"]
SHAPES = {
    "quick": [
        dict(name="all", n=(0, 1, 2), r=(0, 1, 2), ask=False, nal="ab", covers=["aot", "install", "none", "empty"]),
        dict(name="settings", n=(1, 2), r=(1,), marked=True, ask=False, nal="ab", covers=["aot", "install"]),
        dict(name="three", n=3, r=(0, 1), ask=False, few=True, nal="abc", covers=["aot", "install"]),
        dict(name="asked", n=(1, 2), r=(0, 1, 2), ask=True, covers=["aot", "install", "none", "empty", "unknown"]),
        dict(name="reference", ref=(1, 2, 3), al="aB-_1", covers=["declared", "derived"]),
        dict(name="long", n=(1, 2), r=(1,), ask=False, nal="ab", long=300, covers=["aot", "install"]),
        dict(name="prefixes", n=(1, 2), r=(0, 1), ask=True, nal="a", grow=True, covers=["aot", "install", "none", "unknown"]),
    ],
    "thorough": [
        dict(name="all", n=(0, 1, 2), r=(0, 1, 2, 3), ask=False, covers=["aot", "install", "none", "empty"]),
        dict(name="settings", n=(1, 2), r=(1, 2), marked=True, ask=False, nal="ab", covers=["aot", "install"]),
        dict(name="asked", n=(1, 2, 3), r=(0, 1), ask=True, few=True, covers=["aot", "install", "none", "empty", "unknown"]),
        dict(name="three", n=3, r=(0, 1, 2), ask=False, few=True, nal="abc", covers=["aot", "install"]),
        dict(name="asked-long", n=(2,), r=(1, 2), rl=(1, 2, 3), ask=True, covers=["aot", "install", "none", "unknown"]),
        dict(name="reference", ref=(1, 2, 3, 4), al="azB-_19", covers=["declared", "derived"]),
    ],
}
TAILS = ("", " >= 1", "==1.0", "[x]", " ; python_version > '3'", " @ https://h/y-z", ";python_version>'3'", "(>=1)", "[x,y-z]!=1 ; os_name == 'n-t'",
         "~=1.1", "<2,>1", "===1-x")


def scenario(S):
    if "ref" in S.p:
        return reference(S)
    from variantlib.models.variant_info import ProviderInfo, VariantInfo
    from variantlib.pyproject_toml import VariantPyProjectToml
    from variantlib.variants_json import VariantsJson

    p = S.p
    spaces = names(S, "ns", S.pick("n", p["n"] if isinstance(p["n"], (list, tuple)) else (p["n"],)), (1,), p.get("nal", "abcd"))
    table = []
    for i, ns in enumerate(spaces):
        inst = S.flag(f"install{i}")
        k = S.pick(f"r{i}", p["r"])
        S.assume(k > 0 or not inst)
        opt = S.flag(f"optional{i}") if not p["ask"] and not p.get("few") else False
        rest = {"enable_if": S.pick(f"if{i}", (None, "os_name == 'none'"))} if p.get("marked") else {}
        table.append((ns, inst, {"optional": opt, **rest}, [S.strv(f"r{i}.{j}", p.get("rl", (1,)), "pqr") for j in range(k)]))
    kw = dict(namespace_priorities=list(reversed(spaces)),
              providers={ns: ProviderInfo(install_time=i, requires=list(r), **o) for ns, i, o, r in table})
    x = VariantInfo(**kw)
    if not p.get("few") and S.flag("other-class"):
        x = S.pick("class", (VariantPyProjectToml, VariantsJson))(x)
    args = {}
    aot = S.pick("aot", (None, True, False))
    if aot is not None:
        args["include_aot_plugins"] = aot
    aot = aot is not False
    asked, unknown = spaces, False
    if p["ask"]:
        asked = names(S, "ask", S.pick("asked", (0, 1, 2)), (1,), "abcd")
        args["namespaces"] = set(asked)
        unknown = S.Not(S.And(*[S.Or(*[S.eq(a, n) for n in spaces]) for a in asked]))
    elif S.flag("none-given"):
        args["namespaces"] = None
    r = S.call(x.get_provider_requires, **args)
    S.check(S.And(S.eq(x.namespace_priorities, list(reversed(spaces))),
                  S.eq({n: list(q.requires) for n, q in x.providers.items()}, {n: q for n, _, _, q in table})), "modified")
    if S.decide(unknown):
        S.cover("unknown")
        S.check(not r.ok, "unknown namespace")
        return
    S.check(r.ok, "fails", f"{r!r}")
    want = []
    for ns, inst, _, reqs in table:
        if S.decide(S.Or(*[S.eq(ns, a) for a in asked])):
            S.cover("install" if inst else "aot")
            if inst or aot:
                want += reqs
        else:
            S.cover("none")
    if not asked:
        S.cover("empty")
        S.cover("none")
    got = list(r.value)
    S.observe("got", sorted(got))
    S.check(S.And(*[S.Or(*[S.eq(g, w) for w in want]) for g in got]), "extra", f"{got!r} instead of {want!r}")
    S.check(S.And(*[S.Or(*[S.eq(g, w) for g in got]) for w in want]), "missing", f"{got!r} instead of {want!r}")


def reference(S):
    from variantlib.models.variant_info import ProviderInfo

    p = S.p
    name = S.strv("name", p["ref"], p["al"])
    S.assume(S.And(S.all_in(name[0], "azB19"), S.all_in(name[-1], "azB19")))
    first = name + TAILS[S.pick("tail", range(len(TAILS)))]
    reqs = [first, "other-plugin"][:1 + S.flag("second")]
    api = S.str("api", 2, "mn") if S.flag("declared") else None
    inst = S.flag("install")
    x = ProviderInfo(plugin_api=api, install_time=inst, requires=reqs)
    r = S.call(lambda: x.object_reference)
    S.check(r.ok, "fails", f"{r!r}")
    S.observe("reference", r.value)
    S.cover("derived" if api is None else "declared")
    want = api if api is not None else name.replace("-", "_")
    S.check(S.eq(r.value, want), "reference", f"{r.value!r} instead of {want!r}")
