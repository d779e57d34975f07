"""The plugin commands (list-plugins, get-configs with and without filters, analyze-platform)
on installed sets of plugins found through entry points."""
import json

from harness.env import Dist, distributions
from harness.plugins import Feature, hosted, plugin
from harness.wheels import World

FUNCTIONS = ["variantlib.commands.plugins.", "variantlib.commands.analyze_platform:", "variantlib.plugins.loader:EntryPointPluginLoader",
             "variantlib.plugins.loader:BasePluginLoader", "variantlib.plugins._subprocess:", "variantlib.models.provider:"]
SHAPES = {
    "quick": [
        dict(name="list", commands=("list",), n=(0, 1, 2), nf=(1,), nv=(1,), al="ab", val="1", covers=["list", "clash"]),
        dict(name="configs", commands=("all", "supported"), n=(1, 2), nf=(0, 1), nv=(1,), al="ab", fal="fg", val="12", filters=True,
             covers=["all", "supported", "filtered", "nothing", "refused"]),
        dict(name="features", commands=("all", "supported"), n=(1,), nf=(2,), nv=(1, 2), al="a", fal="fg", val="12", filters=True, covers=["all", "supported", "filtered"]),
        dict(name="names", commands=("all", "supported"), n=(1,), nf=(1,), nv=(1,), nl=(1, 2), fl=(1, 2), al="a", fal="f", val="1", filters=True,
             covers=["all", "supported", "filtered", "nothing"]),
        dict(name="platform", commands=("platform",), n=(0, 1, 2), nf=(0, 1, 2), nv=(1,), al="ab", fal="fg", val="12", covers=["platform"]),
        dict(name="long", commands=("list", "all", "supported", "platform"), n=(1,), nf=(1,), nv=(1, 2), al="a", fal="f", val="12", filters=True, long=300,
             covers=["list", "all", "supported", "platform", "filtered", "nothing"]),
        dict(name="many", commands=("list", "all", "supported", "platform"), n=(1,), nf=(1,), nv=(1,), al="a", fal="f", val="12", filters=True, many=True, constants=("f", "1"),
             covers=["list", "all", "supported", "platform", "filtered", "nothing"]),
    ],
    "thorough": [
        dict(name="list", commands=("list",), n=(0, 1, 2, 3), nf=(1,), nv=(1,), al="ab_", val="1", covers=["list", "clash"]),
        dict(name="configs", commands=("all", "supported"), n=(1, 2), nf=(0, 1, 2), nv=(1,), al="ab", fal="fg", val="12", filters=True,
             covers=["all", "supported", "filtered", "nothing", "refused"]),
        dict(name="features", commands=("all", "supported"), n=(1,), nf=(1, 2), nv=(1, 2, 3), al="a", fal="fg", val="12.", filters=True, covers=["all", "supported", "filtered"]),
        dict(name="names", commands=("all", "supported"), n=(1, 2), nf=(1, 2), nv=(1,), nl=(1, 2), fl=(1, 2), al="a", fal="fg", val="1", filters=True,
             covers=["all", "supported", "filtered", "nothing"]),
        dict(name="platform", commands=("platform",), n=(0, 1, 2), nf=(0, 1, 2), nv=(1, 2), al="ab", fal="fg", val="12", covers=["platform"]),
    ],
}


def features(S, name, p):
    out = []
    for i in range(S.pick(name + ".nf", p["nf"])):
        f = S.strv(f"{name}.f{i}", p.get("fl", (1,)), p["fal"]) if "fal" in p else "f"
        S.assume(S.And(*[S.Not(S.eq(f, x[0])) for x in out]))
        vs = []
        for j in range(S.pick(f"{name}.nv{i}", p["nv"])):
            v = S.str(f"{name}.v{i}.{j}", 1, p["val"])
            S.assume(S.And(*[S.Not(S.eq(v, x)) for x in vs]))
            vs.append(v)
        out.append((f, vs, len(vs) > 1))
    return out


def scenario(S):
    from variantlib.commands.analyze_platform import analyze_platform
    from variantlib.commands.plugins.get_configs import get_configs
    from variantlib.commands.plugins.list_plugins import list_plugins
    from variantlib.plugins.loader import EntryPointPluginLoader

    p = S.p
    w = World(S)
    modules, dists, table = {}, [], []
    command = S.pick("command", p["commands"])
    for i in range(S.pick("plugins", p["n"])):
        ns = S.strv(f"ns{i}", p.get("nl", (1,)), p["al"])
        have = {m: features(S, f"{m}{i}", p) if m == command or command == "platform" and m == "supported" else [("f", ["1"], False)]
                for m in ("supported", "all")}
        if p.get("many"):
            nfs, nvs = S.pick("many", ((0, 300), (50, 1)))
            pad = [f"y{j}" for j in range(nvs)]
            have = {m: [(f"yy{j}", list(pad), j % 2 == 0) for j in range(nfs)] + [(f, pad + v, b) for f, v, b in fs] for m, fs in have.items()}
        give = {m: [Feature(f, list(v), b) for f, v, b in fs] for m, fs in have.items()}
        modules[f"m{i}"] = plugin(ns, give["supported"], give["all"])
        dists.append(Dist(f"package{i}", "1", [("name", f"m{i}"), ] if S.flag(f"named{i}") and i == 0 else [(f"name{i}", f"m{i}")]))
        table.append((ns, have))
    for i in range(40 if p.get("many") and S.flag("plugins too") else 0):
        one = {m: [("f", ["1"], False)] for m in ("supported", "all")}
        modules[f"mm{i}"] = plugin(f"yy{i}", [Feature("f", ["1"], False)])
        dists.append(Dist(f"more{i}", "1", [(f"more{i}", f"mm{i}")]))
        table.append((f"yy{i}", one))
    clash = any(S.decide(S.eq(table[i][0], table[j][0])) for i in range(len(table)) for j in range(i))
    args, ns, feature = [], None, None
    if p.get("filters"):
        if S.flag("by namespace"):
            ns = S.strv("ns", p.get("nl", (1,)), p["al"] + "z")
            args += ["-n", ns]
        if S.flag("by feature"):
            feature = S.strv("feature", p.get("fl", (1,)), p["fal"] + "z")
            args += ["-f", feature]

    def with_loader(fn, args):
        def inner(a):
            with EntryPointPluginLoader() as ld:
                fn(a, plugin_loader=ld)
        return w.run(inner, args, disk=True)

    with hosted(modules), distributions(dists):
        if command == "list":
            r, out = with_loader(list_plugins, [])
        elif command == "platform":
            r, out = w.run(analyze_platform, [], disk=True)
        else:
            r, out = with_loader(get_configs, [S.pick("long", ("-" + command[0], "--" + command)), *args])
    S.observe("result", r)
    if clash:
        S.check(not r.ok and not bool(out), "clash", f"{out!r} for {table!r}")
        S.cover("clash")
        return
    if command == "all" and any(not have["all"] for _, have in table):
        S.check(not r.ok and not bool(out), "plugin without features", f"{out!r} for {table!r}")
        S.cover("refused")
        return
    S.check(r.ok, "fails", f"{r!r} for {table!r} {args!r}")
    if command == "list":
        S.check(S.eq(out.split("\n"), [x for x, _ in table] + [""]), "list", f"{out!r} for {table!r}")
    elif command == "platform":
        want = []
        for n, have in table:
            if have["supported"]:
                want.append(n)
                want += [f for f, _, _ in have["supported"]]
        platform(S, out, [(n, have["supported"]) for n, have in table if have["supported"]])
    else:
        want = {}
        for n, have in table:
            if have[command] and (ns is None or S.decide(S.eq(n, ns))):
                want[n] = [{"name": f, "values": v, "multi_value": b} for f, v, b in have[command] if feature is None or S.decide(S.eq(f, feature))]
        got = json.loads(out)
        S.check(S.eq({k: v for k, v in got.items()}, want), "answers", f"{got!r} for {table!r} {args!r}")
        if not want:
            S.cover("nothing")
        elif args:
            S.cover("filtered")
    S.cover(command)


def platform(S, out, want):
    """The report names exactly these features and values, in order."""
    text = []
    for n, fs in want:
        text.append((n, None))
        text += [(f, vs) for f, vs, _ in fs]
    lines = [x for x in out.split("\n") if "`" in x or "::" in x]
    S.check(len(lines) == len(text), "platform lines", f"{out!r} for {want!r}")
    for line, (x, vs) in zip(lines, text):
        if vs is None:
            S.check(S.eq(line.split("`")[1], x), "namespace", f"{line!r}")
        else:
            head, tail = line.split(" :: ")
            S.check(S.And(S.eq(head.split(": ")[1], x), S.eq([y.strip(" '[]") for y in tail.split(",")], list(vs))), "feature", f"{line!r} for {x!r} {vs!r}")
