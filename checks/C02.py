"""config show and config list-paths for every subset of configuration files: what is shown,
read back, is the configuration."""
from harness import ref_name_ok
from harness.files import LEVELS, config_files, toml
from harness.wheels import World

FUNCTIONS = ["variantlib.commands.config.show:", "variantlib.commands.config.list_paths:", "variantlib.configuration:"]
SHAPES = {
    "quick": [
        dict(name="content", levels=1, nn=(0, 1, 2), nf=(0, 1), np=(0, 1), nl=(1,), al="ab-", val="12", covers=["shown", "refused"]),
        dict(name="tables", levels=1, nn=(1,), nf=(0, 1, 2), np=(0, 1, 2), nl=(1,), al="ab", val="12", features=(0, 1, 2), covers=["shown"]),
        dict(name="values", levels=1, nn=(0,), nf=(0,), np=(1,), values=2, nl=(1,), al="a", val="12", covers=["shown"]),
        dict(name="which", levels=4, covers=["shown", "none", "asked", "not there"]),
        dict(name="paths", paths=True, covers=["paths"]),
        dict(name="long", levels=1, nn=(1, 2), nf=(1,), np=(1,), nl=(1,), al="ab", val="12", long=300, covers=["shown"]),
        dict(name="many", many=(12, 120), levels=1, nn=(1,), nf=(1,), np=(1,), nl=(1,), al="ab", val="12", covers=["shown"]),
        dict(name="prefixes", levels=1, nn=(1, 2), nf=(1,), np=(1,), nl=(1,), al="a", val="1", grow=True, covers=["shown"]),
    ],
    "thorough": [
        dict(name="content", levels=1, nn=(0, 1, 2), nf=(0, 1), np=(0, 1), nl=(1, 2), al="ab- .", val="12.", covers=["shown", "refused"]),
        dict(name="tables", levels=1, nn=(0, 1), nf=(0, 1, 2), np=(0, 1, 2), nl=(1,), al="abc", val="12", features=(0, 1, 2), covers=["shown"]),
        dict(name="which", levels=4, full=True, covers=["shown", "none", "asked", "not there"]),
        dict(name="paths", paths=True, covers=["paths"]),
    ],
}
KEYS = ("namespace_priorities", "feature_priorities", "property_priorities")
NAMES = ("LOCAL", "VIRTUALENV", "USER", "GLOBAL")


def names(S, name, n, p, al, unique=True):
    out = []
    for i in range(n):
        x = S.strv(f"{name}.{i}", p["nl"], al)
        if unique:
            S.assume(S.And(*[S.Not(S.eq(x, y)) for y in out]))
        out.append(x)
    return out


def document(S, p, name):
    doc = {}
    if S.flag(name + ".has-n"):
        doc[KEYS[0]] = names(S, name + ".n", S.pick(name + ".nn", p["nn"]), p, p["al"], False)
    if S.flag(name + ".has-f"):
        doc[KEYS[1]] = {ns: names(S, f"{name}.f{i}", S.pick(f"{name}.fn{i}", p.get("features", (1,))), p, p["al"], False)
                        for i, ns in enumerate(names(S, name + ".fk", S.pick(name + ".nf", p["nf"]), p, p["al"]))}
    if S.flag(name + ".has-p"):
        doc[KEYS[2]] = {ns: {f: names(S, f"{name}.pv{i}.{j}", p.get("values", 1), p, p["val"], False)
                             for j, f in enumerate(names(S, f"{name}.pf{i}", S.pick(f"{name}.pn{i}", p.get("features", (1,))), p, p["al"]))}
                        for i, ns in enumerate(names(S, name + ".pk", S.pick(name + ".np", p["np"]), p, p["al"]))}
    if p.get("many"):
        n = S.pick(name + ".many", p["many"])
        if KEYS[0] in doc:
            doc[KEYS[0]] = [*(f"n{i}" for i in range(n)), *doc[KEYS[0]]]
        if KEYS[1] in doc:
            doc[KEYS[1]] = {k: [*(f"f{i}" for i in range(n)), *v] for k, v in doc[KEYS[1]].items()} | {f"n{i}": ["ff", f"f{i}"] for i in range(n)}
        if KEYS[2] in doc:
            doc[KEYS[2]] = {k: {f: [*(f"{i}v" for i in range(n)), *v] for f, v in d.items()} | {f"f{i}": [f"{i}v", "vv"] for i in range(n)}
                            for k, d in doc[KEYS[2]].items()} | {f"n{i}": {f"f{i}": [f"{i}v"]} for i in range(n)}
    return doc


def scenario(S):
    import tomllib

    from variantlib.commands.config.list_paths import list_paths
    from variantlib.commands.config.show import show

    p = S.p
    w = World(S)
    if p.get("paths"):
        have = [k for k in LEVELS if S.flag("has-" + k)]
        with config_files({k: b"" for k in have}) as paths:
            verbose = S.flag("verbose")
            r, out = w.run(list_paths, ["-v"] if verbose else [], disk=True)
            S.check(r.ok, "list-paths", f"{r!r}")
            lines = out.split("\n")
            S.check(len(lines) == 5, "four paths", f"{out!r}")
            for line, name, level in zip(lines, NAMES, LEVELS):
                want = f"{name}: {paths[level]}"
                S.check(line.startswith(want) if verbose else line == want, "path", f"{line!r} instead of {want!r}")
                if verbose:
                    S.check(("not found" in line) == (level not in have), "found", f"{line!r}")
        S.cover("paths")
        return
    docs = {}
    if p["levels"] == 1:
        docs["user"] = document(S, p, "d")
    else:
        for level in LEVELS:
            if S.flag("has-" + level):
                x = S.str("n-" + level, 1, "abcd")
                docs[level] = {KEYS[0]: [x]}
                if p.get("full"):
                    docs[level][KEYS[1]] = {x: [S.str("f-" + level, 1, "ab")]}
    ask = S.pick("ask", (None, 0, 1, 2, 3)) if p["levels"] == 4 else None
    with config_files({k: toml(d, not S.eager) for k, d in docs.items()}) as paths:
        level = LEVELS[ask] if ask is not None else next((k for k in LEVELS if k in docs), None)
        r, out = w.run(show, [] if ask is None else [NAMES[ask]], disk=True)
        S.observe("result", r)
        if ask is not None and level not in docs:
            S.check(not r.ok and not bool(out), "no such file", f"{out!r}")
            S.cover("not there")
            return
        doc = docs.get(level, {})
        used = list(doc.get(KEYS[0], ())) + [n for k in KEYS[1:] for n in doc.get(k, ())]
        used += [f for fs in doc.get(KEYS[1], {}).values() for f in fs] + [f for fs in doc.get(KEYS[2], {}).values() for f in fs]
        if not S.decide(S.And(*[ref_name_ok(S, n) for n in used])):
            S.check(not r.ok and not bool(out), "malformed", f"{out!r} for {doc!r}")
            S.cover("refused")
            return
        S.check(r.ok, "shows", f"{r!r} for {doc!r}")
        got = tomllib.loads(out)
        for k, empty in zip(KEYS, ([], {}, {})):
            S.check(S.eq(tidy(got.get(k, empty)), tidy(doc.get(k, empty))), k, f"{got!r} instead of {doc!r}")
        S.check(set(got) <= set(KEYS), "nothing else", f"{got!r}")
        S.cover("asked" if ask is not None else "shown" if level else "none")


def tidy(x):
    """Without empty tables."""
    if isinstance(x, dict):
        return {k: tidy(v) for k, v in x.items() if not isinstance(v, dict) or len(v)}
    return list(x)
