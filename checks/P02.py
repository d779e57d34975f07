"""What get_supported_configs()/get_all_configs() report for every set of plugin
answers and static properties of the listed shapes."""
from harness import NAME, VALUE
from harness.plugins import Feature, hosted, plugin

FUNCTIONS = ["variantlib.plugins.loader:", "variantlib.plugins._subprocess:", "variantlib.models.provider:"]
SHAPES = {
    "quick": [
        dict(name="answer", np=(1,), nf=(0, 1, 2), nv=(1, 2), ns=(0, 1), nsf=(1,), al="ab", val="1.", covers=["plugin", "static", "empty"]),
        dict(name="wide", np=(1,), nf=(1,), nv=(1,), ns=(0,), lens=(1, 2), vlens=(1, 2), al=NAME, val=VALUE, covers=["plugin"]),
        dict(name="two-plugins", np=(2,), nf=(0, 1), nv=(1,), ns=(0, 1), nsf=(0, 1), al="abc", val="1", covers=["plugin", "static", "empty", "clash"]),
        dict(name="three-plugins", np=(3,), nf=(0, 1), nv=(1,), ns=(0,), al="abc", val="1", covers=["plugin", "empty", "clash"]),
        dict(name="statics", np=(0, 1), nf=(1,), nv=(1,), ns=(2,), nsf=(0, 1, 2), al="abc", val="12", covers=["plugin", "static"]),
        dict(name="static-values", np=(0,), nf=(1,), nv=(1,), ns=(1,), nsf=(1, 2), nsv=(1, 2, 3, 4), sval="1234", al="a", val="1", covers=["static"]),
        dict(name="settings", settings=True, covers=["plugin", "static"]),
        dict(name="malformed", np=(1,), nf=(1, 2), nv=(0, 1, 2), ns=(0,), al="aB", val="1-", loose=True, covers=["plugin", "refused"]),
        dict(name="long", np=(1, 2), nf=(1,), nv=(1,), ns=(0, 1), nsf=(1,), al="ab", val="1", long=300, covers=["plugin", "static", "clash"]),
        dict(name="many", np=(1,), nf=(1,), nv=(1,), ns=(0, 1), nsf=(1,), al="ab", val="1", many=True, covers=["plugin", "static"]),
        dict(name="prefixes", np=(1, 2), nf=(1,), nv=(1,), ns=(0, 1), nsf=(1,), al="a", val="1", grow=True, covers=["plugin", "static", "clash"]),
    ],
    "thorough": [
        dict(name="answer", np=(1,), nf=(0, 1, 2, 3), nv=(1, 2), ns=(0, 1), nsf=(1,), al="abc", val="1.", covers=["plugin", "static", "empty"]),
        dict(name="wide", np=(1,), nf=(1, 2), nv=(1, 2), ns=(0,), lens=(1, 2), vlens=(1, 2), al=NAME, val=VALUE, covers=["plugin"]),
        dict(name="two-plugins", np=(2,), nf=(0, 1, 2), nv=(1,), ns=(0, 1), nsf=(0, 1), al="abc", val="12", covers=["plugin", "static", "empty", "clash"]),
        dict(name="three-plugins", np=(3,), nf=(0, 1), nv=(1,), ns=(0, 1), nsf=(1,), al="abcd", val="1", covers=["plugin", "static", "empty", "clash"]),
        dict(name="statics", np=(0, 1), nf=(1,), nv=(1,), ns=(2, 3), nsf=(0, 1, 2), al="abc", val="12", covers=["plugin", "static"]),
        dict(name="static-values", np=(0, 1), nf=(1,), nv=(1, 2, 3, 4), ns=(1,), nsf=(1, 2), nsv=(1, 2, 3, 4), sval="1234", al="ab", val="1234", covers=["static"]),
        dict(name="malformed", np=(1,), nf=(1, 2), nv=(0, 1, 2), ns=(0, 1), nsf=(1,), al="aB", val="1-", loose=True, covers=["plugin", "refused"]),
    ],
}


def strs(S, name, n, lens, al, unique=True):
    out = []
    for i in range(n):
        x = S.strv(f"{name}{i}", lens, al)
        if unique:
            S.assume(S.And(*[S.Not(S.eq(x, y)) for y in out]))
        out.append(x)
    return out


def scenario(S):
    from variantlib.errors import PluginError
    from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
    from variantlib.models.variant_info import ProviderInfo, VariantInfo
    from variantlib.plugins.loader import PluginLoader

    p = S.p
    if p.get("settings"):
        return settings(S)
    lens, vlens, loose = p.get("lens", (1,)), p.get("vlens", (1,)), p.get("loose", False)
    modules, providers, spaces, answers = {}, {}, [], []
    ok = True
    for i in range(S.pick("np", p["np"])):
        ns = S.strv(f"ns{i}", lens, p["al"])
        feats = []
        names = strs(S, f"f{i}.", S.pick(f"nf{i}", p["nf"]), lens, p["al"], not loose)
        for j, f in enumerate(names):
            values = strs(S, f"v{i}.{j}.", S.pick(f"nv{i}.{j}", p["nv"]), vlens, p["val"], not loose)
            feats.append((f, values, S.flag(f"multi{i}.{j}") if tuple(p["np"]) == (1,) else False))
            if loose:
                # the documented form of a feature configuration
                ok = S.And(ok, len(values) > 0, S.all_in(f, NAME), *[S.all_in(v, VALUE) for v in values],
                           *[S.Not(S.eq(v, w)) for k, v in enumerate(values) for w in values[:k]],
                           *[S.Not(S.eq(f, g)) for g in names[:j]])
        if p.get("many"):
            nfs, nvs = S.pick("many", ((0, 2000), (120, 1), (30, 30)))
            pad = [f"y{j}" for j in range(nvs)]
            feats = [(f"yy{j}", list(pad), j % 2 == 0) for j in range(nfs)] + [(f, pad + v, m) for f, v, m in feats]
        if loose and feats:
            ok = S.And(ok, S.all_in(ns, NAME))
        # what the plugin holds is its own; the expectation keeps separate lists
        modules[f"m{i}"] = plugin(ns, [Feature(f, list(v), m) for f, v, m in feats], aot=True)
        providers[f"key{i}"] = ProviderInfo(plugin_api=f"m{i}", requires=["x"])
        spaces.append(ns)
        answers.append(feats)
    static, sanswers = {}, []
    for i, ns in enumerate(strs(S, "s", S.pick("ns", p["ns"]), lens, p["al"] if not loose else "a")):
        fs = {}
        for j, f in enumerate(strs(S, f"sf{i}.", S.pick(f"nsf{i}", p["nsf"]), (1,), "ab")):
            fs[f] = strs(S, f"sv{i}.{j}.", S.pick(f"nsv{i}.{j}", p.get("nsv", (1,))), (1,), p.get("sval", "12"))
        static[ns] = fs
        sanswers.append((ns, [(f, list(v), False) for f, v in fs.items()]))
    info = VariantInfo(namespace_priorities=list(providers), providers=providers, static_properties=static)
    supported = S.flag("supported")
    fixed = supported and p.get("fixed", True) and S.flag("fixed")

    def run():
        with PluginLoader(info, include_aot_plugins=True) as ld:
            return ld.get_supported_configs(**({"require_fixed": True} if fixed else {})) if supported else ld.get_all_configs()

    with hosted(modules):
        r = S.call(run)
    S.observe("r", r)
    clash = S.decide(S.Or(*[S.eq(x, y) for i, x in enumerate(spaces) for y in spaces[:i]]))
    if clash:
        S.cover("clash")
        S.check(not r.ok, "clash", "two plugins of one namespace were accepted")
        return
    if any(not a for a in answers):
        S.cover("empty")
        if not supported:
            S.check(r.refused(PluginError), "empty", "a plugin without valid configs was accepted")
            return
    if not S.decide(ok):
        S.cover("refused")
        S.check(not r.ok, "malformed", "a malformed answer was accepted")
        return
    S.check(r.ok, "fails", f"{r!r}")
    want = []
    for ns, feats in sanswers:
        if feats and not S.decide(S.Or(*[S.eq(ns, x) for x in spaces])):
            S.cover("static")
            want.append((ns, feats))
    for ns, feats in zip(spaces, answers):
        if feats:
            S.cover("plugin")
            want.append((ns, feats))
    expect = {ns: ProviderConfig(ns, [VariantFeatureConfig(f, v, m) for f, v, m in feats]) for ns, feats in want}
    S.check(S.eq(r.value, expect), "configs", "not the configurations of the plugins and static properties")


def settings(S):
    """One provider that may or may not be loaded, and static properties of its or another
    namespace with settings of their own."""
    from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
    from variantlib.models.variant_info import ProviderInfo, VariantInfo
    from variantlib.plugins.loader import PluginLoader

    markers = {"none": None, "holds": "python_version > '3'", "fails": "python_version < '3'"}
    ns, s = S.str("ns", 1, "ab"), S.str("s", 1, "ab")
    install, optional, marker = S.flag("install"), S.flag("optional"), S.pick("marker", tuple(markers))
    providers = {ns: ProviderInfo(plugin_api="m", requires=["x"], install_time=install, optional=optional, enable_if=markers[marker])}
    if not S.decide(S.eq(ns, s)) and S.flag("listed"):
        providers[s] = ProviderInfo(install_time=False, optional=S.flag("s.optional"), enable_if=markers[S.pick("s.marker", tuple(markers))])
    static = {s: {S.str("sf", 1, "f"): [S.str("sv", 1, "1")]}}
    info = VariantInfo(namespace_priorities=list(providers), providers=providers, static_properties={n: {f: list(v) for f, v in fs.items()} for n, fs in static.items()})
    kw = {}
    enable = S.pick("enable", (None, False, True, "list", "empty"))
    if enable is not None:
        kw["enable_optional_plugins"] = {"list": [ns], "empty": []}.get(enable, enable)
    only = S.pick("filter", (None, "none", "this", "other"))
    if only is not None:
        kw["filter_plugins"] = {"none": [], "this": [ns], "other": [s]}[only]
    aot = S.flag("aot")
    if aot:
        kw["include_aot_plugins"] = True
    loaded = ((install or aot) and (only in (None, "this") or only == "other" and S.decide(S.eq(ns, s)))
              and (not optional or enable in (True, "list")) and marker != "fails")

    def run():
        with PluginLoader(info, **kw) as ld:
            return ld.get_supported_configs()

    with hosted({"m": plugin(ns, [Feature("g", ["2"], True)], aot=True)}):
        r = S.call(run)
    S.observe("r", r)
    S.check(r.ok, "fails", f"{r!r}")
    want = {}
    if not (loaded and S.decide(S.eq(ns, s))):
        S.cover("static")
        want[s] = ProviderConfig(s, [VariantFeatureConfig(f, list(v), False) for f, v in static[s].items()])
    if loaded:
        S.cover("plugin")
        want[ns] = ProviderConfig(ns, [VariantFeatureConfig("g", ["2"], True)])
    S.check(S.eq(r.value, want), "configs", f"{r.value!r} instead of {want!r}")
