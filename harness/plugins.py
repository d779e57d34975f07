"""Provider plugins without processes: the product's own plugin host runs in
place of the interpreter it would be started in, on plugin objects chosen by the
scenario.  Every interpreter (path) has its own set of installed plugins."""
import contextlib
import importlib
import io
import os
import pathlib
import subprocess
import sys

from harness.env import patched


class Feature:
    """A plugin's feature configuration object."""

    def __init__(self, name, values, multi_value=False):
        self.name, self.values, self.multi_value = name, values, multi_value


SAME = object()


def plugin(namespace, supported=(), all=SAME, aot="absent", omit=()):
    """A plugin object; answers are lists of Feature (or anything else)."""
    ns = {
        "namespace": namespace,
        "get_all_configs": classmethod(lambda cls: supported if all is SAME else all),
        "get_supported_configs": classmethod(lambda cls: supported),
    }
    if aot != "absent":
        ns["is_aot_plugin"] = aot
    for o in omit:
        del ns[o]
    return type("Plugin", (), ns)


class _Out:
    """stdout of the plugin host: keeps symbolic text as it is."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def value(self):
        parts = [p for p in self.parts if bool(p)]
        if len(parts) == 1:
            return parts[0].encode("utf-8")
        return "".join(parts).encode("utf-8")


class _In:
    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data.decode("utf-8") if isinstance(self.data, bytes) else self.data

    @property
    def buffer(self):
        class B:
            read = staticmethod(lambda: self.data)
        return B


class Host:
    def __init__(self, interpreters):
        self.interpreters = interpreters  # path text -> {module name: plugin object}
        self.calls = []                   # (path text, argv, input)

    def run(self, cmd, *a, input=None, check=False, **kw):
        args = [str(x) if isinstance(x, os.PathLike) else x for x in cmd]
        exe = args.pop(0)
        while args and args[0] in ("-s", "-B", "-u", "-b", "-bb", "-E"):
            args.pop(0)
        script = args.pop(0)
        if input is None and hasattr(kw.get("stdin"), "read"):
            input = kw["stdin"].read()
        self.calls.append((str(exe), args, input))
        self.seen(cmd, script, input, kw)
        rc, stdout = self.answer(exe, script, args, input)
        stderr = b"failed" if rc else b""
        if kw.get("text") or kw.get("encoding") or kw.get("universal_newlines"):
            stdout, stderr = stdout.decode("utf-8"), stderr.decode("utf-8")
        if hasattr(kw.get("stdout"), "write"):
            kw["stdout"].write(stdout)
            stdout = None
        if check and rc:
            raise subprocess.CalledProcessError(rc, cmd, stdout, stderr)
        return subprocess.CompletedProcess(cmd, rc, stdout, stderr)

    def seen(self, cmd, script, input, kw):
        """What the caller starts, for scenarios that look at it."""

    def answer(self, exe, script, args, input):
        """(exit status, stdout)"""
        from variantlib.plugins import _subprocess as host

        if str(exe) not in self.interpreters:
            raise FileNotFoundError(2, "No such file or directory", str(exe))
        modules = self.interpreters[str(exe)]
        out, err = _Out(), io.StringIO()

        def load(name, package=None):
            if name in modules:
                return modules[name]
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)

        with patched((sys, "argv", [str(script), *args]), (sys, "stdin", _In(input)), (sys, "stdout", out),
                     (sys, "stderr", err), (importlib, "import_module", load)):
            try:
                rc = host.main() or 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 1 if e.code else 0
            except Exception:  # noqa: BLE001
                rc = 1
        return rc, b"" if rc else out.value()

    def check_output(self, cmd, *a, **kw):
        kw.pop("stdout", None)
        return self.run(cmd, *a, **{**kw, "check": True}).stdout

    def popen(self, cmd, *a, **kw):
        return Process(self, cmd, kw)


class Process:
    """subprocess.Popen, started when its input is complete."""

    def __init__(self, host, cmd, kw):
        self.host, self.args, self.kw = host, cmd, kw
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None

    def communicate(self, input=None, timeout=None):
        r = self.host.run(self.args, input=input, **self.kw)
        self.returncode = r.returncode
        return r.stdout, r.stderr

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


@contextlib.contextmanager
def processes(h):
    """The processes the product starts are those of this host."""
    new = {"run": h.run, "Popen": h.popen, "check_output": h.check_output}
    targets = [(subprocess, k, v) for k, v in new.items()]
    for name, m in list(sys.modules.items()):
        if name.startswith("variantlib"):
            for k, v in new.items():
                if m.__dict__.get(k) is getattr(subprocess, k):
                    targets.append((m, k, v))
    with patched(*targets):
        yield h


@contextlib.contextmanager
def hosted(plugins, **others):
    """The default interpreter has these plugins: {module: object}; others: path -> {...}."""
    h = Host({sys.executable: plugins, **{k: v for k, v in others.items()}})
    with processes(h):
        yield h


@contextlib.contextmanager
def interpreter(S, modules):
    """The plugins are in the default interpreter, or (shapes with "python") only in one
    the caller names; gives the keyword arguments that name it."""
    how = S.pick("python", ("default", "text", "path")) if S.p.get("python") else "default"
    exe = "/other/bin/python"
    kw = {} if how == "default" else {"venv_python_executable": exe if how == "text" else pathlib.Path(exe)}
    with (hosted({}, **{exe: modules}) if kw else hosted(modules)):
        yield kw


class Isolation:
    """Stand-in for build's isolated environments: another interpreter, which has
    these plugins as long as the environment exists."""

    PYTHON = "/isolated/bin/python"

    def __init__(self, host, modules, fails=False):
        self.host, self.modules, self.fails = host, modules, fails
        self.installed, self.entered = [], 0
        outer = self

        class Env:
            def __init__(self, *a, installer="pip", **k):
                outer.installer = installer

            def __enter__(self):
                outer.entered += 1
                outer.host.interpreters[outer.PYTHON] = outer.modules
                return self

            def __exit__(self, *a):
                outer.host.interpreters.pop(outer.PYTHON, None)

            def install(self, requirements, **k):
                outer.installed.extend(requirements)
                if outer.fails:
                    raise subprocess.CalledProcessError(1, ["install"], b"", b"no such package")

            @property
            def python_executable(self):
                return outer.PYTHON

        self.Env = Env


@contextlib.contextmanager
def isolated(host, modules, fails=False):
    import build
    import build.env

    real = build.env.DefaultIsolatedEnv
    iso = Isolation(host, modules, fails)
    targets = [(build.env, "DefaultIsolatedEnv", iso.Env)]
    for name, m in list(sys.modules.items()):
        if name.startswith("variantlib") and getattr(m, "__dict__", {}).get("DefaultIsolatedEnv") is real:
            targets.append((m, "DefaultIsolatedEnv", iso.Env))
    with patched(*targets):
        yield iso

