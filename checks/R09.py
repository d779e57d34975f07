"""inject_abi_dependency for every set of installed distributions and override
string of the listed shapes: the supported properties it adds against the
documented rule (names normalised per PEP 503 with '_', versions cut to one, two
and three release components, overrides win, the first installed distribution of
a name counts, malformed entries are skipped), and its rank after the other
namespaces.  packaging's name and version code is executed symbolically too."""
from harness.env import platform

INSTRUMENT = ["packaging.utils", "packaging.version"]
FUNCTIONS = ["variantlib.resolver.lib:"]
NAMES = "aB_-. "
SHAPES = {
    "quick": [
        dict(name="installed", ni=(0, 1, 2), nlens=(1, 2), covers=["installed"]),
        dict(name="long-name", ni=(1,), nlens=(3, 4), covers=["installed", "skipped"]),
        dict(name="version", ni=(1,), nlens=(1,), vlens=(1, 2, 3, 4, 5), val="01.", covers=["installed", "skipped"]),
        dict(name="override", ni=(0, 1), ne=(1,), nlens=(1, 2), ifew=True, covers=["installed", "override", "skipped"]),
        dict(name="overrides", ni=(1,), ne=(2,), nlens=(1,), few=True, names="a_B ", covers=["installed", "override", "skipped"]),
        dict(name="free-text", ni=(0,), text=(0, 1, 4, 5), tal="_1=,. ", covers=["override", "skipped"]),
        dict(name="resolve", ni=(1,), nlens=(1,), full=True, covers=["installed"]),
        dict(name="many", ni=(1,), ne=(1,), nlens=(1,), few=True, names="a ", many=(40, 110), covers=["installed", "override", "skipped"]),
        dict(name="long", ni=(1,), ne=(1,), nlens=(1,), few=True, names="a_", long=300, covers=["installed", "override"]),
        dict(name="again", ni=(1,), ne=(1,), nlens=(1,), few=True, names="aB", before=True, covers=["installed", "override", "skipped"]),
    ],
    "thorough": [
        dict(name="installed", ni=(0, 1, 2, 3), nlens=(1, 2), covers=["installed"]),
        dict(name="long-name", ni=(1, 2), nlens=(3, 4), covers=["installed", "skipped"]),
        dict(name="version", ni=(1,), nlens=(1,), vlens=(1, 2, 3, 4, 5, 6), val="019.", covers=["installed", "skipped"]),
        dict(name="override", ni=(0, 1, 2), ne=(1,), nlens=(1, 2), few=True, covers=["installed", "override", "skipped"]),
        dict(name="override-versions", ni=(0, 1), ne=(1,), nlens=(1, 2), covers=["installed", "override", "skipped"]),
        dict(name="overrides", ni=(1,), ne=(2, 3), nlens=(1,), few=True, names="a_B ", covers=["installed", "override", "skipped"]),
        dict(name="free-text", ni=(0, 1), text=(0, 1, 4, 5, 6), nlens=(1,), tal="_1=,. ", covers=["override", "skipped"]),
        dict(name="resolve", ni=(1, 2), nlens=(1, 2), full=True, covers=["installed"]),
    ],
}
# text, release (None: not a version)
VERSIONS = (("1.2.3", (1, 2, 3)), ("4", (4, 0, 0)), ("2.10", (2, 10, 0)), ("1!3.4.5.6", (3, 4, 5)),
            ("1.0rc1.post2.dev3+loc.al", (1, 0, 0)), (" v1.4 ", (1, 4, 0)), ("", None), ("1.2.x", None), ("1.2=3", None))
FEW = (VERSIONS[0], VERSIONS[1], VERSIONS[7])


def norm(S, name):
    """Reference: PEP 503 normalisation, written with '_'; None if no valid name results."""
    out = []
    for c in name:
        if S.decide(S.any_in(c, "-_.")):
            if not out or out[-1] != "_":
                out.append("_")
            continue
        if S.decide(S.any_in(c, "ABCDEFGHIJKLMNOPQRSTUVWXYZ")):
            c = c.lower()
        elif not S.decide(S.any_in(c, "abcdefghijklmnopqrstuvwxyz0123456789")):
            return None
        out.append(c)
    return "".join(out) if out else None


def release(S, text):
    """Reference for plain dotted versions (alphabets without suffix letters)."""
    parts = text.strip().split(".")
    out = []
    for x in parts:
        if not len(x) or not S.decide(S.all_in(x, "0123456789")):
            return None
        out.append(int(x))
    return tuple((out + [0, 0])[:3])


def find(S, table, name):
    for i, (n, _) in enumerate(table):
        if S.decide(S.eq(n, name)):
            return i
    return None


def scenario(S):
    from variantlib.models.variant import VariantDescription, VariantProperty
    from variantlib.resolver import lib

    p = S.p
    dists, table = [], []
    for i in range(S.pick("ni", p["ni"])):
        name = S.strv(f"name{i}", p["nlens"], p.get("names", NAMES))
        if "vlens" in p:
            ver = S.strv(f"ver{i}", p["vlens"], p["val"])
            rel = release(S, ver)
        else:
            ver, rel = S.pick(f"ver{i}", FEW if i or p.get("few") or p.get("ifew") else VERSIONS)
        dists.append((name, ver))
        n = norm(S, name)
        if n is None or rel is None:
            S.cover("skipped")
        elif find(S, table, n) is None:
            S.cover("installed")
            table.append((n, rel))
    env = None
    entries = []
    more = [f"yy{i}" for i in range(S.pick("many", p["many"]))] if p.get("many") else []
    dists[:0] = [(n, "3.2.1") for n in more]
    table[:0] = [(n, (3, 2, 1)) for n in more]
    if "ne" in p:
        sep = []
        for i in range(S.pick("ne", p["ne"])):
            name = S.strv(f"ename{i}", p["nlens"], p.get("names", NAMES))
            ver, rel = S.pick(f"ever{i}", FEW if i or p.get("few") else VERSIONS)
            op = S.pick(f"op{i}", ("==", "=") if p.get("few") else ("==", "=", "<=="))
            sep.append(name + op + ver)
            entries.append((name if op != "<==" else name + "<", rel if op != "=" else None))
        if more and S.flag("more overrides"):
            sep = [n + "==3.2.1" for n in more] + sep
        env = ",".join(sep)
    elif "text" in p:
        env = S.strv("env", p["text"], p["tal"])
        for spec in env.split(","):
            at = [i for i in range(len(spec) - 1) if S.decide(S.eq(spec[i:i + 2], "=="))]
            if not at:
                entries.append((spec, None))
                continue
            entries.append((spec[:at[0]], release(S, spec[at[0] + 2:])))
    for name, rel in entries:
        n = norm(S, name)
        if n is None or rel is None:
            S.cover("skipped")
            continue
        S.cover("override")
        i = find(S, table, n)
        if i is None:
            table.append((n, rel))
        else:
            table[i] = (n, rel)
    want = []
    for n, (a, b, c) in table:
        want += [VariantProperty("abi_dependency", n, v) for v in (f"{a}", f"{a}.{b}", f"{a}.{b}.{c}")]
    if p.get("before"):  # what was installed earlier is of no interest
        with platform([(n, "9.8.7") for n, _ in dists] + [("b", "9.8.7")], S.pick("earlier", (None, "a==9.8.7,c==9.8.7"))):
            S.call(lib.inject_abi_dependency, [], [])
    with platform(dists, env):
        if p.get("full"):
            q = S.strv("q", (1,), "ab_")
            d = VariantDescription([VariantProperty("abi_dependency", q, "1")])
            e = VariantDescription([VariantProperty("n", "f", "v")])
            out = lib.sort_and_filter_supported_variants([d, e], [VariantProperty("n", "f", "v")], ["n"])
            got = S.Or(*[S.eq(x, d) for x in out])
            S.check(S.Iff(got, S.Or(*[S.eq(d.properties[0], w) for w in want])), "supported")
            S.check(S.eq(out[0], e), "rank", "an explicitly prioritised namespace does not come first")
            S.observe("out", out)
            return
        supp, prio = [VariantProperty("n", "f", "v")], ["n"]
        r = S.call(lib.inject_abi_dependency, supp, prio)
    S.observe("supp", [r, supp])
    S.check(r.ok, "fails", f"{r!r}")
    S.check(prio == ["n", "abi_dependency"], "rank")
    S.check(S.eq(supp[:1], [VariantProperty("n", "f", "v")]), "kept")
    got = supp[1:]
    S.check(len(got) == len(want) and S.And(*[S.Or(*[S.eq(w, g) for g in got]) for w in want]), "injected",
            "not exactly the installed and overridden packages' versions")
