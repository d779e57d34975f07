"""Sequences of plugin queries in one process: each answer is compared with what
the plugins of that interpreter would say to that query, whatever was asked (or
done with the answers) before."""
import pathlib
import shutil
import sys
import tempfile

from harness.plugins import Feature, hosted, plugin

FUNCTIONS = ["variantlib.plugins.loader:", "variantlib.plugins._subprocess:"]
SHAPES = {
    "quick": [
        dict(name="two-queries", q=2, covers=["answer", "refused"]),
        dict(name="three-queries", q=3, few=True, covers=["answer"]),
        dict(name="broken-then-fixed", q=2, broken=True, few=True, covers=["answer", "refused"]),
    ],
    "thorough": [
        dict(name="two-queries", q=2, al="ab", covers=["answer", "refused"]),
        dict(name="three-queries", q=3, covers=["answer", "refused"]),
        dict(name="four-queries", q=4, few=True, covers=["answer"]),
        dict(name="broken-then-fixed", q=3, broken=True, few=True, covers=["answer", "refused"]),
    ],
}
LISTS = (("m0",), ("m1",), ("m0", "m1"), ("m1", "m0"))


def scenario(S):
    # another environment made from the same interpreter: a link to it, like its own python
    root = pathlib.Path(tempfile.mkdtemp(prefix="p03"))
    try:
        (root / "python").symlink_to(sys.executable)
        explore(S, str(root / "python"))
    finally:
        shutil.rmtree(root)


def explore(S, OTHER):
    from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
    from variantlib.plugins.loader import ListPluginLoader

    p = S.p
    al = p.get("al", "ab")
    # value[interpreter][module][method]
    value, inst = {}, {}
    for k, exe in enumerate((sys.executable, OTHER)):
        inst[exe] = {}
        for m in ("m0", "m1"):
            sup = S.str(f"sup{k}{m}", 1, al)
            full = S.str(f"all{k}{m}", 1, al)
            value[exe, m] = (sup, full)
            inst[exe][m] = plugin("n" + m, [Feature("f", [sup])], [Feature("f", [full])], aot=(m == "m0"))
    broken = S.pick("broken", (sys.executable, OTHER)) if p.get("broken") else None
    saved = dict(inst[broken]) if broken else None
    if broken:
        inst[broken].clear()
    with hosted(inst[sys.executable], **{OTHER: inst[OTHER]}):
        for i in range(p["q"]):
            if broken and i == p["q"] - 1:
                inst[broken].update(saved)
            exe = S.pick(f"exe{i}", (sys.executable, OTHER))
            mods = S.pick(f"mods{i}", LISTS[:1] + LISTS[2:3] if p.get("few") else LISTS)
            method = S.pick(f"method{i}", ("supported", "all") if p.get("few") else ("supported", "all", "fixed"))
            explicit = exe == OTHER or S.flag(f"explicit{i}")

            def run():
                with ListPluginLoader(list(mods), venv_python_executable=pathlib.Path(exe) if explicit else None) as ld:
                    if method == "all":
                        return ld.get_all_configs()
                    return ld.get_supported_configs(require_fixed=method == "fixed")

            r = S.call(run)
            S.observe(f"r{i}", r)
            if not inst[exe] or (method == "fixed" and "m1" in mods):
                S.cover("refused")
                S.check(not r.ok, "refused", f"query {i} was answered")
                continue
            S.cover("answer")
            S.check(r.ok, "fails", f"query {i}: {r!r}")
            want = {"n" + m: ProviderConfig("n" + m, [VariantFeatureConfig("f", [value[exe, m][method == "all"]], False)])
                    for m in mods}
            S.check(S.eq(r.value, want), "answer", f"query {i} got another query's answer")
            S.check(list(r.value) == ["n" + m for m in mods], "order", f"query {i}: {list(r.value)}")
            if i < p["q"] - 1 and S.flag(f"change{i}"):
                # the caller owns what it was given
                for c in r.value.values():
                    c.configs[0].values.append("zz")
