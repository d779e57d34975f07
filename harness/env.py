"""Stand-ins for the environment the product reads: installed distributions,
environment variables.  They work on symbolic and on concrete values."""
import contextlib
import importlib.metadata
import os


@contextlib.contextmanager
def patched(*targets):
    """patched((object, attribute, value), ...)"""
    missing = object()
    old = [(o, a, o.__dict__.get(a, missing) if hasattr(o, "__dict__") else getattr(o, a)) for o, a, _ in targets]
    try:
        for o, a, v in targets:
            setattr(o, a, v)
        yield
    finally:
        for o, a, v in reversed(old):
            if v is missing:
                delattr(o, a)
            else:
                setattr(o, a, v)


class Dist:
    def __init__(self, name, version, entry_points=()):
        self.name = name
        self.version = version
        self.metadata = {"Name": name, "Version": version}
        self._normalized_name = name
        self.entry_points = [importlib.metadata.EntryPoint(*e, "variant_plugins")._for(self) for e in entry_points]


def distributions(dists):
    """Exactly these are installed."""
    return patched((importlib.metadata.Distribution, "discover", classmethod(lambda cls, **kw: iter(list(dists)))))


def platform(dists=(), env=None, **variables):
    """Exactly these distributions are installed; VARIANT_ABI_DEPENDENCY=env."""
    e = {k: v for k, v in os.environ.items() if k != "VARIANT_ABI_DEPENDENCY"}
    if env is not None:
        e["VARIANT_ABI_DEPENDENCY"] = env
    e.update(variables)
    ds = [Dist(n, v) for n, v in dists]
    return patched(
        (os, "environ", e),
        (importlib.metadata.Distribution, "discover", classmethod(lambda cls, **kw: iter(list(ds)))),
    )
