"""What the product starts to query plugins, and what is left of it: the command
it runs, the files it gives to the other interpreter and everything these import
are inspected at the moment the process would start; afterwards, whether the
process answered (with any names), failed, printed rubbish, could not be started,
was interrupted, or one of the files could not be written, nothing is left on
disk and the calling process is as it was.  That an operating-system process
cannot reach into another one is taken for granted."""
import ast
import os
import pathlib
import shutil
import sys
import tempfile

from harness.env import Dist, distributions, patched
from harness.plugins import Feature, Host, plugin, processes

FUNCTIONS = ["variantlib.plugins.loader:", "variantlib.plugins._subprocess:"]
ASSUMPTIONS = ["processes are isolated from each other by the operating system; a script's first import path is its own directory"]
ENDS = ("answers", "exits", "rubbish", "cannot start", "interrupted", "cannot write")
SHAPES = {
    "quick": [
        dict(name="list", kind="list", covers=["answer", "error"]),
        dict(name="entry points", kind="ep", covers=["answer", "error"]),
        dict(name="providers", kind="info", covers=["answer", "error"]),
        dict(name="two", kind="list", n=2, al="abA", covers=["answer", "error"]),
    ],
    "thorough": [
        dict(name="list", kind="list", al="ab_A-", covers=["answer", "error"]),
        dict(name="entry points", kind="ep", al="ab_A", covers=["answer", "error"]),
        dict(name="providers", kind="info", al="ab_A", covers=["answer", "error"]),
        dict(name="three", kind="list", n=3, al="abcA", covers=["answer", "error"]),
    ],
}
OTHER = "/other/bin/python"
CLOSURE = {}


def imports(text):
    """Top-level names a source imports when it runs (not merely for type checkers)."""
    if text not in CLOSURE:
        found = set()

        def visit(node):
            if isinstance(node, ast.If) and "TYPE_CHECKING" in ast.unparse(node.test):
                for x in node.orelse:
                    visit(x)
                return
            if isinstance(node, ast.Import):
                found.update(a.name.split(".")[0] for a in node.names)
            elif isinstance(node, ast.ImportFrom):
                found.add("." if node.level else node.module.split(".")[0])
            for x in ast.iter_child_nodes(node):
                visit(x)

        visit(ast.parse(text))
        CLOSURE[text] = sorted(found)
    return CLOSURE[text]


class Watched(Host):
    def __init__(self, S, interpreters, want, root):
        super().__init__(interpreters)
        self.S, self.want, self.root = S, want, root
        self.end = "answers"
        self.starts = 0

    def seen(self, cmd, script, input, kw):
        S = self.S
        self.starts += 1
        S.check(str(cmd[0]) == self.want, "interpreter", f"started {cmd[0]!r}")
        env = kw.get("env")
        S.check(env is None or env.get("PYTHONPATH") == os.environ.get("PYTHONPATH"), "path", "PYTHONPATH was changed")
        where = pathlib.Path(str(script))
        if where.is_file():
            mine = sorted(x.relative_to(where.parent) for x in where.parent.rglob("*.py"))
            names = {x.parts[0].removesuffix(".py") for x in mine}
            allowed = names | sys.stdlib_module_names
            if kw.get("cwd") is None:
                S.check(names.isdisjoint({"variantlib"}), "stand-alone", "variantlib itself is in the host's directory")
            todo, done = [where.name], set()
            while todo:
                f = todo.pop()
                if f in done:
                    continue
                done.add(f)
                for name in imports((where.parent / f).read_text(encoding="utf-8")):
                    S.check(name in allowed, "stand-alone", f"{f} imports {name}")
                    todo += [str(x) for x in mine if x.parts[0] in (name, name + ".py")]

    def answer(self, exe, script, args, input):
        if self.end == "exits":
            return 1, b""
        if self.end == "rubbish":
            return 0, b"Warning: {"
        if self.end == "cannot start":
            raise FileNotFoundError(2, "No such file or directory", str(exe))
        if self.end == "interrupted":
            raise KeyboardInterrupt
        return super().answer(exe, script, args, input)


def state():
    return (list(sys.path), dict(os.environ), os.getcwd(), list(sys.argv), sys.stdin, sys.stdout, sys.stderr,
            sys.executable, sorted(m for m in sys.modules if m.split(".")[0] in PROBES))


PROBES = ("vx_probe0", "vx_probe1", "vx_probe2", "loader", "_subprocess", "_variantlib_protocols",
          "_variantlib_validators_base")


def scenario(S):
    root = tempfile.mkdtemp(prefix="x02")
    try:
        explore(S, pathlib.Path(root))
    finally:
        shutil.rmtree(root, ignore_errors=True)
        for m in PROBES:
            sys.modules.pop(m, None)


def explore(S, root):
    from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
    from variantlib.models.variant_info import ProviderInfo, VariantInfo
    from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader

    p = S.p
    n = p.get("n", 1)
    temp, work, lib = root / "tmp", root / "work", root / "lib"
    for d in (temp, work, lib):
        d.mkdir()
    objects, apis, ns, feats = {}, [], [], []
    for i in range(n):
        # importable here, too: the calling process could load it by mistake
        (lib / f"vx_probe{i}").mkdir()
        for f in ("__init__", "sub"):
            (lib / f"vx_probe{i}" / f"{f}.py").write_text("class P:\n    pass\n")
        a, f, v = (S.str(f"{x}{i}", 1, p.get("al", "aA")) for x in "nfv")
        ns.append(a)
        feats.append((f, v))
        module = type("Module", (), {"P": plugin(a, [Feature(f, [v])], aot=True)})
        objects[f"vx_probe{i}.sub"] = module
        apis.append(f"vx_probe{i}.sub:P")
    link = root / "venv" / "bin" / "python"
    link.parent.mkdir(parents=True)
    link.symlink_to("/bin/sh")
    exe = S.pick("exe", (sys.executable, OTHER, str(link)))
    venv = pathlib.Path(exe) if exe != sys.executable or S.flag("explicit") else None
    host = Watched(S, {exe: objects}, exe, temp)
    first = S.pick("first", ENDS)
    second = S.pick("second", ENDS) if first == "answers" else None
    countdown = [S.pick("write", (0, 1, 2)) if "cannot write" in (first, second) else 0]
    dist = Dist("pkg", "1", [(f"e{i}", a) for i, a in enumerate(apis)])
    real = {x: getattr(pathlib.Path, x) for x in ("write_bytes", "write_text")}

    def failing(name):
        def write(self, *a, **k):
            if host.end == "cannot write":
                countdown[0] -= 1
                if countdown[0] < 0:
                    raise OSError(28, "No space left on device", str(self))
            return real[name](self, *a, **k)

        return write

    def make():
        if p["kind"] == "ep":
            return EntryPointPluginLoader(venv_python_executable=venv)
        if p["kind"] == "list":
            return ListPluginLoader(apis, venv_python_executable=venv)
        return PluginLoader(VariantInfo(
            namespace_priorities=["x"], providers={"x": ProviderInfo(plugin_api=apis[0], requires=["pkg"])}),
            venv_python_executable=venv)

    def run():
        host.end = first
        with make() as ld:
            host.end = second
            return ld.get_supported_configs(require_fixed=S.flag("fixed"))

    here = os.getcwd()
    os.chdir(work)
    try:
        with processes(host), distributions([dist]), patched(
                (os, "environ", {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "PYTHONPATH")}),
                (tempfile, "tempdir", str(temp)), (sys, "path", [str(lib), *sys.path]),
                (pathlib.Path, "write_bytes", failing("write_bytes")),
                (pathlib.Path, "write_text", failing("write_text"))):
            before = state()
            try:
                r = S.call(run)
                interrupted = False
            except KeyboardInterrupt:
                interrupted = True
            after = state()
        S.check(before == after, "state", "the calling process was changed")
    finally:
        os.chdir(here)
    S.check(not list(temp.iterdir()), "left", f"left behind: {[x.name for x in temp.iterdir()]}")
    S.check(not list(work.iterdir()), "left", f"left in the current directory: {[x.name for x in work.iterdir()]}")
    S.check(len(list(lib.rglob("*"))) == 3 * n, "left",
            "the plugin was compiled by the calling process")
    S.check(host.starts > 0 or first == "cannot write", "never", "no process was started")
    if interrupted or first != "answers" or second != "answers":
        S.cover("error")
        S.check(interrupted == (first == "interrupted" or (second == "interrupted" and host.starts > 1)), "interrupt",
                "the interruption was lost")
        if not interrupted:
            S.observe("r", r)
            if "cannot write" not in (first, second):
                S.check(not r.ok, "silent", f"{first}, {second}: not reported")
        return
    S.observe("r", r)
    lower = S.And(*[S.all_in(x, "abcdefghijklmnopqrstuvwxyz_") for x in ns + [y for f, v in feats for y in (f, v)]])
    good = S.decide(S.And(lower, *[S.Not(S.eq(x, y)) for k, x in enumerate(ns) for y in ns[:k]]))
    S.check(r.ok == good, "verdict", f"{r!r}")
    if good:
        S.cover("answer")
        want = {a: ProviderConfig(a, [VariantFeatureConfig(f, [v], False)]) for a, (f, v) in zip(ns, feats)}
        S.check(S.eq(r.value, want), "answer", "not what the plugins said")
