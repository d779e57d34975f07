"""Explores tasks (shape, decision prefix) of one check."""
from __future__ import annotations

import ast
import importlib
import importlib.util
import logging
import os
import sys
import time
import traceback

from . import instrument, stubs, values
from .api import SymS
from .core import Abort, Engine, NonDeterminism, SolverUnknown, Unsupported
from .values import cur

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODULES = [
    "variantlib", "variantlib.api", "variantlib.commands.main", "variantlib.commands.make_variant",
    "variantlib.commands.unmake_variant", "variantlib.commands.generate_index_json",
    "variantlib.commands.add_wheel_to_index_json", "variantlib.commands.analyze_wheel",
    "variantlib.commands.update_pyproject_toml", "variantlib.commands.get_variant_hash",
    "variantlib.plugins.loader", "variantlib.plugins._subprocess", "variantlib.configuration",
    "variantlib.pyproject_toml", "variantlib.variant_dist_info", "variantlib.variants_json",
]


class Session:
    """The instrumented product and one check module, in this process."""

    def __init__(self, check, known=()):
        # the product's own third-party imports first, so that they stay native
        sys.path.insert(0, HERE)
        logging.disable(logging.CRITICAL)
        import argparse, base64, build.env, email, importlib.metadata, packaging.markers  # noqa: E401,F401
        import packaging.requirements, platformdirs, tomlkit, tomllib, zipfile  # noqa: E401,F401

        stubs.install()
        path = os.path.join(HERE, "checks", f"{check}.py")
        src = open(path, encoding="utf-8").read()
        extra = {m: sys.modules[m].__file__ for m in module_list(src, "INSTRUMENT")}
        for m in extra:
            del sys.modules[m]
        for m in [m for m in sys.modules if m.split(".")[0] in ("harness", "variantlib")]:
            del sys.modules[m]
        instrument.install({"variantlib": REPO, "harness": HERE}, extra)
        for m in MODULES:
            try:
                importlib.import_module(m)
            except ModuleNotFoundError as e:
                if e.name != m:
                    raise
        self.check = check
        spec = importlib.util.spec_from_loader(f"checks_sx.{check}", None)
        mod = importlib.util.module_from_spec(spec)
        mod.__file__ = path
        mod.__dict__["__sx__"] = instrument.SX
        nfuncs = {k: v for k, v in instrument.FUNCS.items() if k.startswith("variantlib")}
        sys.modules[spec.name] = mod
        exec(instrument.instrument_source(src, path, spec.name), mod.__dict__)
        instrument.FUNCS.clear()
        instrument.FUNCS.update(nfuncs)
        self.mod = mod
        self.snapshot = instrument.StateSnapshot(("variantlib",))
        self.known = known
        self.called = set()

    def shapes(self, tier):
        sh = self.mod.SHAPES
        return sh[tier] if tier in sh else sh["quick"]

    def run_path(self, eng, shape, eager):
        """One path; returns (S, status, exception)."""
        self.snapshot.restore()
        values.reset_path()
        for s in shape.get("constants", getattr(self.mod, "CONSTANTS", ())):
            if 0 < len(s) <= 80 and s not in cur.registry.get(len(s), ()):
                cur.path_registry.setdefault(len(s), {})[s] = None
        cur.eng = eng
        cur.eager = eager
        cur.setorder = bool(shape.get("setorder")) and not eager
        S = SymS(eng, shape, eager, self.known)
        try:
            self.mod.scenario(S)
            return S, "done", None
        except Abort:
            return S, "abort", None
        except (Unsupported, RecursionError) as e:
            return S, "unsupported", e
        except Exception as e:  # noqa: BLE001
            return S, "exception", e
        finally:
            cur.eng = None


def module_list(src, name):
    """The literal value of a top-level assignment of a check module."""
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return ast.literal_eval(n.value)
    return ()


def fmt_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    where = f"{os.path.basename(last.filename)}:{last.lineno}" if last else "?"
    return f"{type(e).__name__}: {str_safe(e)} at {where}"


def str_safe(e):
    try:
        return repr(e.args)[:200]
    except BaseException:  # noqa: BLE001
        return "?"


class Result:
    def __init__(self):
        self.candidates = []
        self.samples = []
        self.covers = set()
        self.found = []
        self.unsupported = []
        self.errors = []
        self.more = []
        self.stats = {}
        self.eager_paths = 0


def explore(sess, task, shapes, slice_s, sample_every, max_samples):
    """Runs one task for about slice_s seconds."""
    res = Result()
    shape = shapes[task["shape"]]
    eng = Engine()
    eager = task.get("eager", False)
    eng.start(task["prefix"], task["model"])
    pre = [load_f(eng, f) for f in task.get("assume", ())]
    t0 = time.time()
    n = 0
    while True:
        S, status, exc = run_one(sess, eng, shape, eager, pre)
        n += 1
        eng.stats["paths"] += 1
        res.covers |= S.covers
        for fid, a, key in S.found:
            res.found.append((task["shape"], fid, a, key))
        for a, key, msg in S.candidates:
            res.candidates.append(dict(shape=task["shape"], assignment=a, key=key, msg=msg, eager=eager,
                                       pc=None if eager else dump_pc(eng)))
        if status == "exception":
            res.candidates.append(dict(shape=task["shape"], assignment=S.assignment(eng.model, True),
                                       key="exception", msg=fmt_exc(exc), eager=eager,
                                       pc=None if eager else dump_pc(eng)))
        elif status == "unsupported":
            res.unsupported.append(dict(shape=task["shape"], msg=fmt_exc(exc), pc=dump_pc(eng),
                                        assignment=S.assignment(eng.model), eager=eager))
        elif status == "abort" and not S.candidates:
            eng.stats["infeasible"] += 1
        if status == "done" and len(res.samples) < max_samples and (n % sample_every) == 1 % sample_every:
            cur.eng = None
            res.samples.append(dict(shape=task["shape"], assignment=S.assignment(eng.model),
                                    observations=[[k, S.view(v, eng.model)] for k, v in S.observations]))
        if eng.pos < len(eng.trail) and status == "done":
            res.errors.append("replayed path ended early")
        if res.candidates and len(res.candidates) > 20:
            break
        if not eng.backtrack():
            break
        if time.time() - t0 > slice_s:
            # the current (just re-targeted) alternative plus everything pending
            res.more.append(eng.export_current())
            res.more.extend(eng.export_pending())
            break
    for m in res.more:
        pass
    res.more = [dict(shape=task["shape"], prefix=p, model=m, eager=eager, assume=task.get("assume", ()))
                for p, m in res.more]
    res.stats = eng.stats
    return res


def run_one(sess, eng, shape, eager, pre):
    if pre:
        cur.eng = eng
        try:
            for f in pre:
                eng.assume(f)
        except Abort:
            return SymS(eng, shape, eager, ()), "abort", None
    return sess.run_path(eng, shape, eager)


# formulas between processes: variables as (name, domain)
def dump_f(f):
    if f is True or f is False:
        return f
    k = f[0]
    if k == "in":
        return ("in", (f[1].base, f[1].dom), f[2])
    if k in ("eq", "lt"):
        return (k, (f[1].base, f[1].dom), (f[2].base, f[2].dom))
    if k == "not":
        return ("not", dump_f(f[1]))
    return (k, [dump_f(g) for g in f[1]])


def load_f(eng, f):
    if f is True or f is False:
        return f
    k = f[0]
    if k == "in":
        return ("in", eng.var(*f[1]), f[2])
    if k in ("eq", "lt"):
        return (k, eng.var(*f[1]), eng.var(*f[2]))
    if k == "not":
        return ("not", load_f(eng, f[1]))
    return (k, tuple(load_f(eng, g) for g in f[1]))


def dump_pc(eng):
    return [dump_f(f) for f in eng.pc()]


def worker_main(conn, check, known, tier):
    try:
        sess = Session(check, known)
        shapes = sess.shapes(tier)
        conn.send(("ready", len(shapes), sorted(instrument.FUNCS)))
    except BaseException as e:  # noqa: BLE001
        conn.send(("fail", traceback.format_exc()))
        return
    sys.setrecursionlimit(5000)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        task, slice_s, every, maxs = msg
        try:
            r = explore(sess, task, shapes, slice_s, every, maxs)
            conn.send(("done", r))
        except (NonDeterminism, SolverUnknown) as e:
            conn.send(("error", f"{type(e).__name__}: {e}"))
        except BaseException:  # noqa: BLE001
            conn.send(("error", traceback.format_exc()))
