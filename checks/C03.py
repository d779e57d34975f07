"""The command line: which registered command runs, and with which arguments, for every set of
registered commands, command name and arguments of the listed shapes."""
import importlib.metadata
import logging
import sys

from harness.env import Dist, distributions, patched
from harness.plugins import Feature, hosted, plugin
from harness.wheels import World

FUNCTIONS = ["variantlib.commands.main:", "variantlib.commands.utils:get_registered_commands", "variantlib.commands.config.main:",
             "variantlib.commands.plugins.main:"]
GROUPS = {"top": "variantlib.actions", "config": "variantlib.actions.config", "plugins": "variantlib.actions.plugins"}
OTHERS = ("variantlib", "variantlib.actionsx", "variant_plugins.actions", "console_scripts")
SHAPES = {
    "quick": [
        dict(name="commands", level=("top", "config", "plugins"), n=(0, 1, 2, 3), groups=True, al="abc", args=(0, 1), al2="xy", covers=["run", "refused"]),
        dict(name="names", level=("top", "config", "plugins"), n=(1, 2), al="ab-", nl=(1, 2), args=(0,), al2="x", covers=["run", "refused"]),
        dict(name="arguments", level=("top", "config", "plugins"), n=(1,), al="a", args=(0, 1, 2, 3), options=True, al2="x-", covers=["run"]),
        dict(name="option first", level=("top",), n=(1,), al="ab", args=(0, 1), first=True, al2="x", covers=["version", "refused"]),
        dict(name="two levels", level=("top",), nested=("config", "plugins"), n=(1, 2), al="ab", args=(0, 1), al2="x", covers=["run", "refused"]),
        dict(name="many", many=(10, 40), level=("top", "config", "plugins"), n=(1,), al="ab", args=(0, 1), al2="x", covers=["run", "refused"]),
        dict(name="many arguments", level=("top", "config", "plugins"), n=(1,), al="a", args=(1,), marg=(10, 300), al2="xy", covers=["run"]),
        dict(name="long", long=300, level=("top", "config", "plugins"), n=(1, 2), al="ab", args=(0, 1), al2="x", covers=["run", "refused"]),
    ],
    "thorough": [
        dict(name="commands", level=("top", "config", "plugins"), n=(0, 1, 2, 3, 4), groups=True, al="abcd", args=(0, 1), al2="xy", covers=["run", "refused"]),
        dict(name="names", level=("top", "config", "plugins"), n=(1, 2), al="ab-1", nl=(1, 2, 3), args=(0, 1), al2="x", covers=["run", "refused"]),
        dict(name="arguments", level=("top", "config", "plugins"), n=(1, 2), al="ab", args=(0, 1, 2, 3, 4), options=True, al2="x-", covers=["run"]),
        dict(name="option first", level=("top",), n=(1, 2), al="ab", args=(0, 1, 2), first=True, al2="x", covers=["version", "refused"]),
        dict(name="two levels", level=("top",), nested=("config", "plugins"), n=(1, 2, 3), al="ab", args=(0, 1, 2), options=True, al2="x", covers=["run", "refused"]),
    ],
}


def entry(name, module, group, dist):
    return importlib.metadata.EntryPoint(name, module + ":command", group)._for(dist)


def scenario(S):
    from variantlib.commands.config.main import main as config
    from variantlib.commands.main import main as top
    from variantlib.commands.plugins.main import main as plugins

    p = S.p
    w = World(S)
    level = S.pick("level", p["level"])
    asked = S.pick("nested", p["nested"]) if p.get("nested") else level
    calls, modules, dists, table = [], {}, [], []

    def register(i, name, group):
        def command(args, **more):
            loader = more.pop("plugin_loader", None)
            calls.append((i, list(args), None if loader is None else list(loader.namespaces), more))

        modules[f"command{i}"] = type("Module", (), {"command": staticmethod(command)})
        d = Dist(f"package{i}", "1")
        d.entry_points = [entry(name, f"command{i}", group, d)]
        dists.append(d)

    for i in range(S.pick("many", p.get("many", (0,)))):
        table.append((100 + i, f"cc{i}", GROUPS[asked]))
        register(*table[-1])
    for i in range(S.pick("n", p["n"])):
        group = S.pick(f"group{i}", tuple(GROUPS.values()) + OTHERS[:2]) if p.get("groups") else GROUPS[asked]
        name = S.strv(f"name{i}", p.get("nl", (1,)), p["al"])
        S.assume(S.Not(S.eq(name[:1], "-")))
        # (several commands of a name: left open)
        S.assume(S.And(*[S.Not(S.eq(name, o)) for _, o, g in table if g == group]))
        table.append((i, name, group))
        register(i, name, group)
    if asked != level:
        d = Dist("variantlib", "1")
        d.entry_points = [importlib.metadata.EntryPoint(asked, f"variantlib.commands.{asked}.main:main", GROUPS["top"])._for(d)]
        dists.append(d)
    modules["plug"] = plugin("installed", [Feature("f", ["1"])])
    if S.flag("plugin"):
        dists.append(Dist("plug", "1", [("plug", "plug")]))
        have = ["installed"]
    else:
        have = []
    name = S.strv("name", p.get("nl", (1,)), p["al"])
    S.assume(S.Not(S.eq(name[:1], "-")))
    args = []
    for i in range(S.pick("args", p["args"])):
        kind = S.pick(f"arg{i}.kind", ("text", "-v", "--version", "-h", "", "-x=1") if p.get("options") else ("text",))
        args.append(kind if kind != "text" else "t" + S.str(f"arg{i}", 1, p["al2"]))
    args = [f"arg{i}" for i in range(S.pick("marg", p.get("marg", (0,))))] + args
    first = [S.pick("first", ("-v", "--version", "-x"))] if p.get("first") else []
    line = [*first, *([asked] if asked != level else []), name, *args]

    def called(args):
        with patched((sys, "argv", ["variantlib", *args])):
            top()

    logger = logging.getLogger("variantlib")
    kept = list(logger.handlers), logger.level
    with hosted({k: v for k, v in modules.items() if k == "plug"}), distributions(dists), loadable(modules):
        try:
            fn = {"top": top, "config": config, "plugins": plugins}[level]
            r, out = w.run(called if level == "top" and S.flag("called") else fn, line, disk=True)
        finally:
            logger.handlers[:], logger.level = kept
    S.observe("result", r)
    S.observe("calls", [c[:2] for c in calls])
    said = f"{line!r} with {table!r}"
    if first and first != ["-x"]:
        S.check(not calls and bool(out), "version", f"{calls!r} for {said}")
        S.cover("version")
        return
    hit = [] if first else [i for i, o, g in table if g == GROUPS[asked] and S.decide(S.eq(o, name))]
    if not hit:
        S.check(not r.ok and not calls, "unknown command", f"{calls!r} for {said}")
        S.cover("refused")
        return
    S.check(r.ok, "fails", f"{r!r} for {said}")
    S.check(len(calls) == 1 and calls[0][0] == hit[0], "another command", f"{calls!r} for {said}")
    S.check(S.eq(calls[0][1], args), "arguments", f"{calls!r} for {said}")
    S.check(calls[0][2] == (have if asked == "plugins" else None) and not calls[0][3], "plugins", f"{calls!r} for {said}")
    S.cover("run")


def loadable(modules):
    """These modules can be imported by entry points."""
    load = importlib.metadata.EntryPoint.load

    def stand_in(self):
        module, _, attr = self.value.partition(":")
        if module not in modules or module == "plug":
            return load(self)
        return getattr(modules[module], attr)

    return patched((importlib.metadata.EntryPoint, "load", stand_in))
