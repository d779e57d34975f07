"""The active configuration for every subset of existing configuration files and every
content of the listed shapes (names over all letters of the shape, wrong types at every
place, unparseable text)."""
import builtins
import io
import os

from harness import JUNK
from harness.env import patched
from harness.files import LEVELS, config_files, toml

FUNCTIONS = ["variantlib.configuration:", "variantlib.models.configuration:"]
SHAPES = {
    "quick": [
        dict(name="which", levels=4, covers=["none", "local", "venv", "user", "global"]),
        dict(name="content", nn=(0, 1, 2), nf=(0, 1), np=(0, 1), nl=(1, 2), al="a_-", val="a1.", covers=["accepted", "refused", "partial"]),
        dict(name="tables", nn=(1,), nf=(0, 1, 2), np=(0, 1, 2), nl=(1,), al="ab", val="12", covers=["accepted", "partial"]),
        dict(name="junk", junk=True, covers=["junk", "unknown-key"]),
        dict(name="text", text=True, covers=["text", "unreadable"]),
        dict(name="again", again=True, covers=["reset"]),
        dict(name="long", nn=(1, 2), nf=(0, 1), np=(0, 1), nl=(1,), al="a-", val="1", long=300, covers=["accepted", "refused", "partial"]),
        dict(name="many", many=(12, 120), nn=(1,), nf=(1,), np=(1,), nl=(1,), al="ab", val="1", covers=["accepted", "partial"]),
    ],
    "thorough": [
        dict(name="which", levels=4, full=True, covers=["none", "local", "venv", "user", "global"]),
        dict(name="content", nn=(0, 1, 2), nf=(0, 1), np=(0, 1), nl=(1, 2), al="aA_- .", val="a1. ", covers=["accepted", "refused", "partial"]),
        dict(name="tables", nn=(0, 1, 2), nf=(0, 1, 2), np=(0, 1, 2), nl=(1,), al="ab", val="12", covers=["accepted", "partial"]),
        dict(name="junk", junk=True, covers=["junk", "unknown-key"]),
        dict(name="text", text=True, covers=["text", "unreadable"]),
        dict(name="again", again=True, covers=["reset"]),
    ],
}
KEYS = ("namespace_priorities", "feature_priorities", "property_priorities")
NAMES = "abcdefghijklmnopqrstuvwxyz0123456789_"
WRONG = [j for j in JUNK if j is not None and not isinstance(j, (bytes, tuple))] + ["", 0, False, 0.0, [], {}]


def scenario(S):
    from variantlib.configuration import VariantConfiguration

    p = S.p
    if p.get("levels"):
        return which(S, VariantConfiguration)
    if p.get("junk"):
        return junk(S, VariantConfiguration)
    if p.get("text"):
        return text(S, VariantConfiguration)
    if p.get("again"):
        return again(S, VariantConfiguration)
    doc = document(S, p, "d")
    with config_files({LEVELS[S.pick("level", range(4)) if p.get("full") else 2]: toml(doc)}):
        r = S.call(VariantConfiguration.get_config)
    names = list(doc.get(KEYS[0], ())) + [n for k in KEYS[1:] for n in doc.get(k, ())]
    names += [f for fs in doc.get(KEYS[1], {}).values() for f in fs] + [f for fs in doc.get(KEYS[2], {}).values() for f in fs]
    if not S.decide(S.And(*[S.all_in(n, NAMES) for n in names])):
        S.cover("refused")
        S.check(not r.ok, "bad names", f"accepted {doc!r}")
        return
    S.check(r.ok, "accept", f"{r!r}")
    if not r.ok:
        return
    S.cover("partial" if len(doc) < 3 else "accepted")
    same(S, r.value, doc)


def same(S, config, doc):
    for k, empty in zip(KEYS, ([], {}, {})):
        S.observe(k, getattr(config, k))
        S.check(S.eq(getattr(config, k), doc.get(k, empty)), k, f"{getattr(config, k)!r} instead of {doc.get(k, empty)!r}")


def names(S, name, n, p, al, unique=False):
    out = []
    for i in range(n):
        x = S.strv(f"{name}.{i}", p["nl"], al)
        if unique:
            S.assume(S.And(*[S.Not(S.eq(x, y)) for y in out]))
        out.append(x)
    return out


def document(S, p, name):
    doc = {}
    if S.flag(name + ".has-n"):
        doc[KEYS[0]] = names(S, name + ".n", S.pick(name + ".nn", p["nn"]), p, p["al"])
    if S.flag(name + ".has-f"):
        doc[KEYS[1]] = {ns: names(S, f"{name}.f{i}", S.pick(f"{name}.fn{i}", (1, 2)) if len(p["al"]) < 3 else 1, p, p["al"])
                        for i, ns in enumerate(names(S, name + ".fk", S.pick(name + ".nf", p["nf"]), p, p["al"], True))}
    if S.flag(name + ".has-p"):
        doc[KEYS[2]] = {ns: {f: names(S, f"{name}.pv{i}", 1, p, p["val"])
                             for f in names(S, f"{name}.pf{i}", 1, p, p["al"], True)}
                        for i, ns in enumerate(names(S, name + ".pk", S.pick(name + ".np", p["np"]), p, p["al"], True))}
    if p.get("many"):
        n = S.pick(name + ".many", p["many"])
        if KEYS[0] in doc:
            doc[KEYS[0]] = [*(f"n{i}" for i in range(n)), *doc[KEYS[0]]]
        if KEYS[1] in doc:
            doc[KEYS[1]] = {k: [*(f"f{i}" for i in range(n)), *v] for k, v in doc[KEYS[1]].items()} | {f"n{i}": ["ff", f"f{i}"] for i in range(n)}
        if KEYS[2] in doc:
            doc[KEYS[2]] = {k: {f: [*(f"{i}v" for i in range(n)), *v] for f, v in d.items()} | {f"f{i}": [f"{i}v", "vv"] for i in range(n)}
                            for k, d in doc[KEYS[2]].items()} | {f"n{i}": {f"f{i}": [f"{i}v"]} for i in range(n)}
    return doc


def which(S, VariantConfiguration):
    docs = {}
    for level in LEVELS:
        if S.flag("has-" + level):
            if S.flag("empty-" + level):
                docs[level] = {}
                continue
            x = S.str("n-" + level, 1, "abcd")
            docs[level] = {KEYS[0]: [x]}
            if S.p.get("full") and S.flag("more-" + level):
                docs[level][KEYS[1]] = {x: [S.str("f-" + level, 1, "ab")]}
    blank = S.pick("blank", ("", "# nothing\n")) if {} in docs.values() else ""
    with config_files({k: toml(d) if d else blank for k, d in docs.items()}) as paths:
        r = S.call(VariantConfiguration.get_config)
        f = S.call(VariantConfiguration.get_config_file)
        props = S.call(lambda: [VariantConfiguration.namespace_priorities, VariantConfiguration.feature_priorities,
                                VariantConfiguration.property_priorities])
    first = next((k for k in LEVELS if k in docs), None)
    S.cover(first or "none")
    S.check(r.ok and props.ok, "fails", f"{r!r}")
    same(S, r.value, docs.get(first, {}))
    S.check(S.eq(props.value, [r.value.namespace_priorities, r.value.feature_priorities, r.value.property_priorities]), "properties")
    if first:
        S.check(f.ok and str(f.value) == str(paths[first]), "file", f"{f!r}")
    else:
        S.check(f.refused(FileNotFoundError), "file", f"{f!r}")


def junk(S, VariantConfiguration):
    """A wrong value at one place."""
    x = S.str("x", 1, "ab")
    w = WRONG[S.pick("wrong", range(len(WRONG)))]
    w = list(w) if type(w) is list else dict(w) if type(w) is dict else w
    doc = {KEYS[0]: [x], KEYS[1]: {x: [x]}, KEYS[2]: {x: {x: [x]}}}
    place = S.pick("place", ("n", "n.0", "f", "f.x", "f.x.0", "p", "p.x", "p.x.x", "p.x.x.0", "extra", "extra-only"))
    right = {"n": list, "n.0": str, "f": dict, "f.x": list, "f.x.0": str, "p": dict, "p.x": dict, "p.x.x": list, "p.x.x.0": str}
    if place == "extra":
        doc["other"] = w
    elif place == "extra-only":
        doc = {"default-priorities": w}
    else:
        if type(w) is right[place]:
            # of the right type: wrong only inside
            S.assume(w == {"ab": "ab"} and place in ("f", "p", "p.x"))
        d, k = doc, {"n": KEYS[0], "f": KEYS[1], "p": KEYS[2]}[place[0]]
        for c in place.split(".")[1:]:
            d, k = d[k], 0 if c == "0" else x
        d[k] = w
    S.cover("unknown-key" if place.startswith("extra") else "junk")
    with config_files({"user": toml(doc)}):
        r = S.call(VariantConfiguration.get_config)
    S.check(not r.ok, "ill-typed", f"accepted {doc!r}")


TEXTS = (b"namespace_priorities = [", b"namespace_priorities = ['a']\nnamespace_priorities = ['a']\n", b"\xff\xfe", b"= 1", b"x",
         b"# caf\xe9\nnamespace_priorities = ['a']\n", b"namespace_priorities = ['\xff']\n",
         b"namespace_priorities = ['a']\n# \xc3", b"\xff\xfen\x00",
         b"[feature_priorities]\na = ['f']\n[feature_priorities]\nb = ['f']\n")


def text(S, VariantConfiguration):
    k = S.pick("text", range(len(TEXTS) + 1))
    level = LEVELS[S.pick("level", range(4))]
    if k == len(TEXTS):
        return unreadable(S, level, VariantConfiguration)
    files = {"global": toml({KEYS[0]: [S.str("g", 1, "ab")]})}
    files[level] = TEXTS[k]
    with config_files(files):
        r = S.call(VariantConfiguration.get_config)
    S.cover("text")
    S.check(not r.ok, "unparseable", f"accepted {TEXTS[k]!r}")


def unreadable(S, level, VariantConfiguration):
    """The file is there and cannot be opened."""
    others = {k: toml({KEYS[0]: [S.str(k, 1, "ab")]}) for k in LEVELS if k != level and S.flag("has-" + k)}
    with config_files({**others, level: b"namespace_priorities = ['a']"}) as paths:
        real = io.open

        def deny(file, *a, **k):
            if isinstance(file, (str, os.PathLike)) and os.path.realpath(file) == os.path.realpath(paths[level]):
                raise PermissionError(13, "Permission denied", str(file))
            return real(file, *a, **k)

        with patched((io, "open", deny), (builtins, "open", deny)):
            r = S.call(VariantConfiguration.get_config)
    S.cover("unreadable")
    if any(k in others for k in LEVELS[:LEVELS.index(level)]):
        S.check(r.ok, "a file of a higher level", f"{r!r}")
    else:
        S.check(not r.ok, "unreadable", "accepted")


def again(S, VariantConfiguration):
    """The file changes and the configuration is reset."""
    a, b = S.str("a", 1, "abc"), S.str("b", 1, "abc")
    with config_files({"user": toml({KEYS[0]: [a]})}) as paths:
        first = S.call(lambda: list(VariantConfiguration.namespace_priorities))
        if S.flag("removed"):
            paths["user"].unlink()
            want = []
        else:
            paths["user"].write_text(toml({KEYS[0]: [b], KEYS[1]: {a: [b]}}))
            want = [b]
        if S.flag("new-local"):
            paths["local"].write_text(toml({KEYS[0]: [b, a]}))
            want = [b, a]
        fresh = S.call(lambda: list(VariantConfiguration.get_config().namespace_priorities))
        VariantConfiguration.reset()
        second = S.call(lambda: list(VariantConfiguration.namespace_priorities))
        third = S.call(lambda: list(VariantConfiguration.get_config().namespace_priorities))
    S.cover("reset")
    S.check(first.ok and S.decide(S.eq(first.value, [a])), "first")
    S.check(fresh.ok and S.decide(S.eq(fresh.value, want)), "reread without reset", f"{fresh!r}")
    S.check(second.ok and S.decide(S.eq(second.value, want)), "after reset", f"{second!r}")
    S.check(third.ok and S.decide(S.eq(third.value, want)), "reread", f"{third!r}")
