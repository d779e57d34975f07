"""Which provider plugins a loader queries: every provider table and loader
configuration of the listed shapes against the decision table of the property."""
from harness import NAME
from harness.plugins import Feature, hosted, plugin

FUNCTIONS = ["variantlib.plugins.loader:", "variantlib.plugins._subprocess:", "variantlib.models.variant_info:ProviderInfo"]
SHAPES = {
    "quick": [
        dict(name="one", n=(1,), lens=(1, 2), al="ab_0", covers=["queried", "left-out"]),
        dict(name="two", n=(2,), lens=(1,), al="ab", few=True, covers=["queried", "left-out"]),
        dict(name="names", n=(1,), lens=(1, 2), elens=(1, 2), al="ab", few=True, covers=["queried", "left-out"]),
        dict(name="again", n=(1,), lens=(1,), al="ab", few=True, rounds=2, brief=True, covers=["queried", "left-out"]),
        dict(name="many", n=(1,), lens=(1,), al="ab", few=True, many=40, covers=["queried", "left-out"]),
        dict(name="long", n=(1,), lens=(1,), al="ab", few=True, long=300, covers=["queried", "left-out"]),
    ],
    "thorough": [
        dict(name="one", n=(1,), lens=(1, 2), al=NAME, covers=["queried", "left-out"]),
        dict(name="two", n=(2,), lens=(1,), al="abc", covers=["queried", "left-out"]),
        dict(name="names", n=(1,), lens=(1, 2, 3), elens=(1, 2, 3), al="ab", few=True, covers=["queried", "left-out"]),
        dict(name="again", n=(1, 2), lens=(1,), al="ab", few=True, rounds=2, brief=True, covers=["queried", "left-out"]),
        dict(name="again-three", n=(1,), lens=(1,), al="ab", few=True, rounds=3, brief=True, covers=["queried", "left-out"]),
        dict(name="three", n=(3,), lens=(1,), al="abc", few=True, covers=["queried", "left-out"]),
    ],
}
# text, does it hold
MARKERS = ((None, True), ("python_version >= '3'", True), ("python_version < '3'", False),
           ("python_version < '3' or os_name != ''", True))
REQUIRES = ([], ["Plug-{i}"], ["Plug-{i} >= 1", "other"])


def scenario(S):
    p = S.p
    spaces = []
    for i in range(S.pick("n", p["n"])):
        ns = S.strv(f"ns{i}", p["lens"], p["al"])
        for o in spaces:
            S.assume(S.Not(S.eq(ns, o)))
        spaces.append(ns)
    # several packages with the same namespaces, resolved by one process
    for k in range(p.get("rounds", 1)):
        package(S, p, spaces, f"{k}:" if k else "", k)


def package(S, p, spaces, pre, k):
    from variantlib.models.variant_info import ProviderInfo, VariantInfo
    from variantlib.plugins.loader import PluginLoader

    few, brief = p.get("few"), p.get("brief")
    providers, table, names, modules = {}, [], list(spaces), {}
    for i, ns in enumerate(spaces):
        install = S.flag(f"{pre}install{i}")
        nr = S.pick(f"{pre}req{i}", (1,) if brief or install and few else (1, 2) if install else (0, 1) if few else (0, 1, 2))
        optional = S.flag(f"{pre}optional{i}")
        marker, holds = S.pick(f"{pre}marker{i}", MARKERS[1:3] if brief else MARKERS[:3] if few else MARKERS)
        api = None if brief else S.pick(f"{pre}api{i}", (None, f"mod{i}:Cls.attr"))
        providers[ns] = ProviderInfo(plugin_api=api, enable_if=marker, install_time=install, optional=optional,
                                     requires=[r.replace("{i}", str(i)) for r in REQUIRES[nr]])
        module = type("M", (), {"Cls": type("C", (), {"attr": plugin(ns, [Feature("f", ["v"])], aot=True)})})
        modules[f"mod{i}"] = module
        modules[f"Plug_{i}"] = plugin(ns, [Feature("f", ["v"])], aot=True)
        table.append((ns, install, nr, optional, holds, f"mod{i}:Cls.attr" if api else f"Plug_{i}"))
    more = [f"yy{i}" for i in range(p.get("many", 0))]
    mix = S.pick(f"{pre}more-optional", (False, True)) if more else False
    for ns in more:  # providers without any question, in front
        providers = {ns: ProviderInfo(plugin_api=f"{ns}:Cls.attr", optional=mix, requires=["x"]), **providers}
        modules[ns] = type("M", (), {"Cls": type("C", (), {"attr": plugin(ns, [Feature("f", ["v"])])})})
        table.insert(0, (ns, True, 1, mix, True, f"{ns}:Cls.attr"))
        names.insert(0, ns)
    optional = "no"
    if not brief or any(opt for _, _, _, opt, _, _ in table):
        optional = S.pick(f"{pre}enable", ("no", "yes", "list"))
    enable = {"no": False, "yes": True}.get(optional)
    if optional == "list":
        enable = [S.strv(f"{pre}en{k}", p.get("elens", p["lens"][:1]), p["al"]) for k in range(0 if brief else S.pick(f"{pre}nen", (0, 1)))]
        enable = more + (list(spaces) if brief and S.flag(f"{pre}this") else enable)
    wanted = None
    if S.flag(f"{pre}filter"):
        wanted = list(spaces[:S.flag(f"{pre}all")]) if brief else [S.strv(f"{pre}fl{k}", p.get("elens", p["lens"][:1]), p["al"]) for k in range(S.pick(f"{pre}nfl", (0, 1) if few else (0, 1, 2)))]
        wanted = more + wanted
    aot = S.flag(f"{pre}aot") if not brief or not all(x[1] for x in table) else False
    expected = []
    for ns, install, nr, opt, holds, ref in table:
        on = ((install or (aot and nr > 0))
              and (wanted is None or S.decide(S.Or(*[S.eq(ns, w) for w in wanted])))
              and (not opt or enable is True or (enable is not False
                                                 and S.decide(S.Or(*[S.eq(ns, e) for e in enable]))))
              and holds)
        S.cover("queried" if on else "left-out")
        if on:
            expected.append((ns, ref))
    info = VariantInfo(namespace_priorities=list(names), providers=providers)

    def run():
        with PluginLoader(info, enable_optional_plugins=enable, filter_plugins=wanted, include_aot_plugins=aot) as ld:
            return ld.namespaces, ld.plugin_api_values, ld.get_supported_configs()

    with hosted(modules) as h:
        r = S.call(run)
    S.observe(f"{pre}r", r)
    S.check(r.ok, "fails", f"{r!r}")
    got, apis, configs = r.value
    S.check(S.eq(got, [ns for ns, _ in expected]), "namespaces")
    # an object reference without an attribute may be spelled with or without the colon
    bare = {ns: api.removesuffix(":") for ns, api in apis.items()}
    S.check(S.eq(bare, dict(expected)), "plugin apis")
    S.check(S.eq({ns: c.namespace for ns, c in configs.items()}, {ns: ns for ns, _ in expected}), "queried")
    asked = [[a.removesuffix(":") for a in args if a not in ("--plugin-api", "--require-fixed")] for _, args, _ in h.calls]
    S.check(all(sorted(a) == sorted(ref for _, ref in expected) for a in asked), "started",
            "a plugin host was started with other plugins")
    S.check(not asked or bool(expected), "not started")
    S.check(bool(asked) or not expected or k > 0, "started")
