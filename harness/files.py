"""Scratch directories: the only place where a scenario has files."""
import contextlib
import os
import shutil
import sys
import tempfile
from pathlib import Path

from harness.env import patched

LEVELS = ("local", "venv", "user", "global")


def toml(doc, force=False):
    """TOML text saying this (a reference to it, where it is symbolic or must be able to become so)."""
    if "symex.stubs" in sys.modules:
        return sys.modules["symex.stubs"].toml_text(doc, force)
    import tomlkit

    return tomlkit.dumps(doc)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="sx-")
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def config_files(contents):
    """contents: level -> text (or bytes) of the configuration file at that level."""
    with scratch() as d:
        env = {**os.environ, "XDG_CONFIG_HOME": str(d / "user"), "XDG_CONFIG_DIRS": str(d / "global"), "HOME": str(d / "home")}
        where = {"local": d / "local", "venv": d / "venv", "user": d / "user" / "variantlib", "global": d / "global" / "variantlib"}
        for level in where:
            where[level].mkdir(parents=True)
        for level, text in contents.items():
            (where[level] / "variants.toml").write_bytes(text.encode("utf-8") if isinstance(text, str) else text)
        old = os.getcwd()
        os.chdir(d / "local")
        try:
            with patched((os, "environ", env), (sys, "prefix", str(d / "venv"))):
                yield {k: v / "variants.toml" for k, v in where.items()}
        finally:
            os.chdir(old)
