"""update-pyproject-toml: project files with a provider table and namespace priorities in or
out of step, sequences of additions and deletions, sets of installed plugins."""
from harness.env import Dist, distributions
from harness.files import scratch, toml
from harness.plugins import Feature, hosted, plugin
from harness.wheels import World

FUNCTIONS = ["variantlib.commands.update_pyproject_toml:", "variantlib.plugins.loader:EntryPointPluginLoader", "variantlib.plugins.loader:BasePluginLoader"]
# entry point value, the same as a plugin-api
REFERENCES = (("m{}", "m{}"), ("m{}:c", "m{}:c"), ("m{} : c", "m{}:c"))
SHAPES = {
    "quick": [
        dict(name="one", al="nm", providers=(0, 1, 2), prios=(0, 1, 2), commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,),
             covers=["added", "deleted", "unknown", "both"]),
        dict(name="repeated", al="nm", providers=(0, 1), prios=(3,), repeated=True, commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,),
             covers=["added", "deleted", "unknown", "both"]),
        dict(name="two", al="nm", providers=(0, 1), prios=(0, 1), commands=1, add=(2,), delete=(0, 1), plugins=(1, 2), refs=(1,), covers=["added", "unknown", "both"]),
        dict(name="references", al="nm", providers=(0, 1), prios=(0,), commands=1, add=(1,), delete=(0,), plugins=(0, 1), refs=(0, 1, 2), covers=["added", "unknown"]),
        dict(name="sequence", al="nm", providers=(1,), prios=(1,), commands=2, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,), covers=["added", "deleted", "both"]),
        dict(name="tables", al="n", providers=(0, 1), prios=(0, 1), commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,), missing=True, full=True,
             covers=["added", "deleted", "both", "nothing to do", "no file"]),
        dict(name="long", al="nm", providers=(0, 1), prios=(0, 1), commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,), long=300, covers=["added", "deleted"]),
        dict(name="many", al="nm", providers=(0, 1), prios=(0, 1), commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,), many=(12, 60),
             covers=["added", "deleted", "unknown"]),
        dict(name="many installed", al="nm", providers=(0, 1), prios=(0, 1), commands=1, add=(1,), delete=(0,), plugins=(1,), refs=(1,), others=(12, 60), madd=True,
             covers=["added", "unknown"]),
        dict(name="prefixes", al="n", ll=(1, 2), providers=(0, 1, 2), prios=(0, 1, 2), commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,),
             covers=["added", "deleted", "unknown", "both"]),
    ],
    "thorough": [
        dict(name="one", al="nmk", ll=(1, 2), providers=(0, 1, 2), prios=(0, 1, 2), commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,),
             covers=["added", "deleted", "unknown", "both"]),
        dict(name="two", al="nm", providers=(0, 1, 2), prios=(0, 1, 2), commands=1, add=(2,), delete=(0, 1, 2), plugins=(1, 2), refs=(0, 1, 2), covers=["added", "unknown", "both"]),
        dict(name="repeated", al="nm", providers=(0, 1, 2), prios=(2, 3, 4), repeated=True, commands=1, add=(0, 1), delete=(0, 1, 2), plugins=(1,), refs=(1,),
             covers=["added", "deleted", "unknown", "both"]),
        dict(name="sequence", al="nm", providers=(0, 1), prios=(0, 1), commands=3, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,), covers=["added", "deleted", "both"]),
        dict(name="tables", al="nm", providers=(0, 1), prios=(0, 1, 3), commands=1, add=(0, 1), delete=(0, 1), plugins=(1,), refs=(1,), missing=True, full=True,
             covers=["added", "deleted", "both", "nothing to do", "no file"]),
    ],
}
CONSTANTS = ["n", "m", "k"]
ENTRIES = ({}, {"plugin-api": "old:o"}, {"requires": ["req"], "enable-if": "python_version >= '3'"}, {"requires": [], "optional": True, "install-time": False})


def get(doc, *keys):
    for k in keys:
        doc = doc.get(k, {})
    return doc


def same(S, got, prios, providers, rest):
    """Formula: the file says exactly this (absent and empty tables are the same)."""
    got = dict(got)
    variant = dict(got.pop("variant", {}))
    default = dict(variant.pop("default-priorities", {}))
    gp, gn = variant.pop("providers", {}), list(default.pop("namespace", []))
    f = [S.eq(list(gn), list(prios)), len(gp) == len(providers)]
    for k, v in providers:
        f.append(S.Or(*[S.And(S.eq(k, a), S.eq({x: y for x, y in b.items()}, v)) for a, b in gp.items()]))
    if default:
        variant["default-priorities"] = default
    if variant:
        got["variant"] = variant
    return S.And(S.eq(got, rest), *f)


def scenario(S):
    import tomllib

    from variantlib.commands.update_pyproject_toml import update_pyproject_toml

    p = S.p
    name = lambda n: S.strv(n, p.get("ll", (1,)), p["al"])  # noqa: E731
    # the project file
    providers = []
    for i in range(S.pick("providers", p["providers"])):
        k = name(f"p{i}")
        S.assume(S.And(*[S.Not(S.eq(k, o)) for o, _ in providers]))
        providers.append((k, dict(ENTRIES[S.pick(f"p{i}.entry", (0, 1, 2, 3) if p.get("full") else (1, 2))])))
    prios = []
    for i in range(S.pick("prios", p["prios"])):
        k = name(f"o{i}")
        if not p.get("repeated"):
            S.assume(S.And(*[S.Not(S.eq(k, o)) for o in prios]))
        prios.append(k)
    if p.get("many"):
        n = S.pick("many", p["many"])
        providers[:0] = [(f"y{i}", {"requires": ["y"]}) for i in range(n)]
        prios[:0] = [f"y{i}" for i in range(n)]
    missing = S.pick("missing", ("nothing", "empty tables", "other tables", "file")) if p.get("missing") else "nothing"
    doc, rest = {"project": {"name": "x", "version": "1"}}, {"project": {"name": "x", "version": "1"}}
    variant = {}
    if missing != "other tables":
        rest["variant"] = {"default-priorities": {"feature": {"z": ["f"]}}, "static-properties": {"z": {"f": ["1"]}}}
        variant = {"default-priorities": {"feature": {"z": ["f"]}}, "static-properties": {"z": {"f": ["1"]}}}
    if prios or missing == "nothing":
        variant.setdefault("default-priorities", {})["namespace"] = list(prios)
    if providers or missing == "nothing":
        variant["providers"] = {k: dict(v) for k, v in providers}
    if variant:
        doc["variant"] = variant
    # the installed plugins
    modules, dists, installed = {}, [], []
    for i in range(S.pick("plugins", p["plugins"])):
        ns = name(f"plugin{i}")
        S.assume(S.And(*[S.Not(S.eq(ns, o)) for o, _, _ in installed]))
        raw, api = REFERENCES[S.pick(f"ref{i}", p["refs"])]
        raw, api = raw.format(i), api.format(i)
        obj = plugin(ns, [Feature("f", ["1"])])
        modules[f"m{i}"] = obj if ":" not in raw else type("Module", (), {"c": obj})
        dists.append(Dist(f"package{i}", f"1.{i}", [("name", raw)]))
        installed.append((ns, api, f"package{i} >=1.{i}"))
    for i in range(S.pick("others", p.get("others", (0,)))):
        modules[f"mo{i}"] = plugin(f"z{i}", [Feature("f", ["1"])])
        dists.insert(i, Dist(f"other{i}", "1", [("name", f"mo{i}")]))
        installed.append((f"z{i}", f"mo{i}", f"other{i} >=1"))
    w = World(S)
    with scratch() as d, distributions(dists), hosted(modules):
        path = d / "pyproject.toml"
        if missing != "file":
            path.write_text(toml(doc, not S.eager), encoding="utf-8")
        for c in range(p["commands"]):
            add = [name(f"c{c}.add{i}") for i in range(S.pick(f"c{c}.add", p["add"]))]
            delete = [name(f"c{c}.delete{i}") for i in range(S.pick(f"c{c}.delete", p["delete"]))]
            if p.get("madd") and S.flag("madd"):
                add = [ns for ns, _, q in installed if q.startswith("other")] + add
            args = ["-f", str(path)]
            if S.flag(f"c{c}.order") if add and delete else False:
                args += ["-a", *add, "-d", *delete]
            else:
                args += (["-d", *delete] if delete else []) + (["-a", *add] if add else [])
            before = path.read_bytes() if path.exists() else None
            r, _ = w.run(update_pyproject_toml, args, disk=True)
            S.observe(f"result{c}", r)
            said = (doc, add, delete, installed)
            unknown = [a for a in add if not any(S.decide(S.eq(a, ns)) for ns, _, _ in installed)]
            if unknown or missing == "file" or not add + delete:
                S.check(not r.ok and (path.read_bytes() if path.exists() else None) == before, "refused", f"{r!r} for {said!r}")
                S.cover("unknown" if unknown else "no file" if missing == "file" else "nothing to do")
                return
            S.check(r.ok, "fails", f"{r!r} for {said!r}")
            prios = [x for x in prios if not any(S.decide(S.eq(x, y)) for y in delete)]
            providers = [(x, e) for x, e in providers if not any(S.decide(S.eq(x, y)) for y in delete)]
            for a in add:
                had = sum(S.decide(S.eq(a, x)) for x in prios)
                S.assume(had < 2)  # what was repeated in the file: left open
                if not had:
                    prios.append(a)
                api, req = [(v, q) for ns, v, q in installed if S.decide(S.eq(a, ns))][0]
                old = [e for x, e in providers if S.decide(S.eq(x, a))]
                new = {"requires": [req], **(old[0] if old else {}), "plugin-api": api}
                providers = [(x, new if e is (old or [None])[0] else e) for x, e in providers] if old else providers + [(a, new)]
            for again in (False, True):
                got = tomllib.loads(path.read_text(encoding="utf-8"))
                S.check(same(S, got, prios, providers, rest), "repeated" if again else "result", f"{got!r} for {said!r}")
                if any(S.decide(S.eq(a, x)) for a in add for x in delete):
                    break  # repeating it may change the order
                if not again:
                    r, _ = w.run(update_pyproject_toml, args, disk=True)
                    S.check(r.ok, "repeat fails", f"{r!r} for {said!r}")
            S.cover("both" if add and delete else "added" if add else "deleted")
