"""What programs use besides pathlib and zipfile, on the files in memory: open(), os,
os.path, shutil, glob, fnmatch, tempfile and the io classes.  Whatever does not concern a
file in memory goes to the real function."""
import builtins
import fnmatch
import glob
import io
import os
import shutil
import stat
import sys
import tempfile
import zipfile

from harness.wheels import ArchiveData, Stream, VPath, VZip, joined, str_of, unsupported

REAL = {n: getattr(m, n) for m, n in [
    (builtins, "open"), (os, "listdir"), (os, "scandir"), (os, "walk"), (os, "replace"), (os, "rename"), (os, "unlink"), (os, "remove"),
    (os, "mkdir"), (os, "makedirs"), (os, "fspath"), (os, "stat"), (os, "fdopen"), (os, "close"),
    (shutil, "copyfile"), (shutil, "copy"), (shutil, "copy2"), (shutil, "move"),
    (glob, "glob"), (glob, "iglob"), (fnmatch, "fnmatch"), (fnmatch, "fnmatchcase"), (zipfile, "is_zipfile"),
    (tempfile, "NamedTemporaryFile"), (tempfile, "TemporaryDirectory"), (tempfile, "mkstemp"), (tempfile, "mkdtemp"),
    (io, "BytesIO"), (io, "StringIO"), (io, "TextIOWrapper")]}
REALPATH = {n: getattr(os.path, n) for n in ("exists", "lexists", "isfile", "isdir", "islink", "samefile", "getsize", "join", "basename",
                                             "dirname", "split", "splitext", "abspath", "realpath", "normpath", "isabs", "expanduser")}


def vpath(x):
    """The path in memory this names, or None."""
    if isinstance(x, VPath):
        return x
    if isinstance(x, str) and not isinstance(x, os.PathLike):
        text = x[2:] if x.startswith("./") else x
        if text.startswith("w/"):
            return VPath(text.rstrip("/"))
    return None


def text_of(x):
    return x.text if isinstance(x, VPath) else x


def on_path(name, fn):
    real = REAL.get(name) or REALPATH[name]

    def call(x, *a, **k):
        v = vpath(x)
        return real(x, *a, **k) if v is None else fn(v, *a, **k)

    return call


def like(name, pattern):
    """fnmatch for the patterns of plain text and "*"."""
    if any(c in pattern for c in "?["):
        unsupported("pattern")
    first, *parts = pattern.split("*")
    if not parts:
        return name == first
    if not name.startswith(first):
        return False
    rest = name[len(first):]
    for part in parts[:-1]:
        at = rest.find(part)
        if at < 0:
            return False
        rest = rest[at + len(part):]
    return rest.endswith(parts[-1])


def globbed(pattern, *a, **k):
    v = vpath(pattern)
    if v is None:
        return REAL["glob"](pattern, *a, **k)
    parent, name = v.parent, v.name
    if any(c in parent.text for c in "*?["):
        unsupported("pattern")
    return [x.text for x in parent.iterdir() if not x.name.startswith(".") and like(x.name, name)]


class Entry:
    def __init__(self, v):
        self.v, self.name, self.path = v, v.name, v.text

    def is_file(self, **k):
        return self.v.is_file()

    def is_dir(self, **k):
        return self.v.is_dir()

    def is_symlink(self):
        return False

    def stat(self, **k):
        return self.v.stat()

    def __fspath__(self):
        unsupported("path")


class Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def walk(v, topdown=True, **k):
    entries = list(v.iterdir())
    dirs = [x.name for x in entries if x.is_dir()]
    rows = (v.text, dirs, [x.name for x in entries if not x.is_dir()])
    if topdown:
        yield rows
    for d in list(dirs):
        yield from walk(v / d, topdown)
    if not topdown:
        yield rows


def two(name, fn):
    """Functions of a source and a destination."""
    real = REAL[name]

    def call(a, b, *x, **k):
        v, w = vpath(a), vpath(b)
        if v is None and w is None:
            return real(a, b, *x, **k)
        if v is None or w is None:
            unsupported(name)
        return fn(v, w)

    return call


def into(v, w):
    return w / v.name if w.is_dir() else w


def copied(v, w):
    w.write_bytes(v.read_bytes())
    return w.text


def opened(file, mode="r", *a, **k):
    if isinstance(file, Descriptor):
        return file.open(mode)
    v = vpath(file)
    return REAL["open"](file, mode, *a, **k) if v is None else v.open(mode, *a, **k)


# ------------------------------------------------------------------ temporary files
def fresh(world, parent, prefix, suffix):
    world.temps = getattr(world, "temps", 0) + 1
    v = VPath(f"{parent}/{prefix or 'tmp'}{world.temps}{suffix or ''}")
    world.unique.append(v.text)
    return v


class Descriptor:
    def __init__(self, v):
        self.v = v

    def open(self, mode):
        return self.v.open(mode)


class Temporary:
    def __init__(self, v, mode, delete):
        self.v, self.name, self.delete = v, v.text, delete
        self.stream = v.open("w" + ("b" if "b" in mode else ""))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self.stream.closed:
            self.stream.close()
            if self.delete:
                self.v.unlink(missing_ok=True)

    def __getattr__(self, name):
        if name in ("read", "seek", "tell", "truncate"):
            unsupported("temporary file")
        return getattr(self.stream, name)


class TemporaryDir:
    def __init__(self, world, v):
        self.world, self.v, self.name = world, v, v.text
        world.dirs.append(v.text)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()

    def cleanup(self):
        for x in self.v.below():
            self.world.drop(x.text)
        self.world.dirs = [d for d in self.world.dirs if d != self.name and not d.startswith(self.name + "/")]


# ------------------------------------------------------------------ streams in memory
class Buffer(Stream):
    """io.BytesIO, io.StringIO: everything written so far, or the initial data."""

    def __init__(self, initial=None, newline="\n", text=False):
        super().__init__(initial if initial else "" if text else b"", self.stored, text)
        self.whole = self.data

    def stored(self, data):
        pass

    def readable(self):
        return True

    def write(self, data):
        super().write(data)
        self.whole = None
        return 0

    def getvalue(self):
        if self.whole is None:
            self.whole = joined(self.parts, self.text)
        return self.whole

    def seek(self, at, whence=0):
        if at or whence:
            unsupported("seek")
        self.data = self.getvalue()
        return 0

    def tell(self):
        unsupported("tell")

    def truncate(self, n=0):
        unsupported("truncate")

    getbuffer = getvalue


class Bytes(Buffer):
    def __init__(self, initial=b""):
        super().__init__(initial)


class Text(Buffer):
    def __init__(self, initial="", newline="\n"):
        super().__init__(initial, newline, True)


def wrapper(raw, encoding=None, errors=None, newline=None, *a, **k):
    """io.TextIOWrapper"""
    if not isinstance(raw, Stream):
        return REAL["TextIOWrapper"](raw, encoding, errors, newline, *a, **k)
    if raw.done is None or isinstance(raw, Buffer) and raw.getvalue():
        data = raw.read()
        data = data if isinstance(data, ArchiveData) else data.decode("utf-8")
        out = Stream(translated(data, newline), None, True)
    else:
        def done(text):
            raw.write(text.encode("utf-8"))
            raw.close()

        out = Stream(None, done, True)
    out.buffer = raw
    out.detach = out.flush
    return out


def translated(data, newline):
    """Text as a file opened with this newline argument reads it."""
    if newline is None and not hasattr(data, "native"):
        data = data.replace("\r\n", "\n").replace("\r", "\n")
    return data


# ------------------------------------------------------------------ installation
def targets(world):
    """(object, attribute, stand-in)"""
    here = lambda k: text_of(k) if k is not None else "w"  # noqa: E731

    def named(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **k):
        return Temporary(fresh(world, here(dir), prefix, suffix), mode, delete)

    def mkstemp(suffix=None, prefix=None, dir=None, text=False):
        v = fresh(world, here(dir), prefix, suffix)
        v.write_bytes(b"")
        return Descriptor(v), v.text

    def mkdtemp(suffix=None, prefix=None, dir=None):
        if sys._getframe(1).f_globals.get("__name__") == "tempfile":
            return REAL["mkdtemp"](suffix, prefix, dir)
        v = fresh(world, here(dir), prefix, suffix)
        world.dirs.append(v.text)
        return v.text

    def directory(suffix=None, prefix=None, dir=None, **k):
        return TemporaryDir(world, fresh(world, here(dir), prefix, suffix))

    def unlink(v, *a, **k):
        v.unlink()

    def join(a, *rest):
        out = text_of(a)
        for x in rest:
            out = (out if out.endswith("/") else out + "/") + text_of(x)
        return out

    def absent(x, *a, **k):
        v = vpath(x)
        return REALPATH["exists"](x) if v is None else v.exists()

    out = [(builtins, "open", opened), (io, "open", opened),
           (os, "listdir", on_path("listdir", lambda v: [x.name for x in v.iterdir()])),
           (os, "scandir", on_path("scandir", lambda v: Scan(Entry(x) for x in v.iterdir()))),
           (os, "walk", on_path("walk", walk)),
           (os, "replace", two("replace", lambda v, w: v.replace(w) and None)),
           (os, "rename", two("rename", lambda v, w: v.replace(w) and None)),
           (os, "unlink", on_path("unlink", unlink)), (os, "remove", on_path("remove", unlink)),
           (os, "mkdir", on_path("mkdir", lambda v, *a, **k: v.mkdir(*a, **k))),
           (os, "makedirs", on_path("makedirs", lambda v, *a, **k: v.mkdir(parents=True, exist_ok=k.get("exist_ok", False)))),
           (os, "fspath", lambda x: x.text if isinstance(x, VPath) else REAL["fspath"](x)),
           (os, "stat", on_path("stat", lambda v, **k: v.stat())),
           (os, "fdopen", lambda fd, mode="r", *a, **k: fd.open(mode) if isinstance(fd, Descriptor) else REAL["fdopen"](fd, mode, *a, **k)),
           (os, "close", lambda fd: None if isinstance(fd, Descriptor) else REAL["close"](fd)),
           (shutil, "copyfile", two("copyfile", copied)), (shutil, "copy", two("copy", lambda v, w: copied(v, into(v, w)))),
           (shutil, "copy2", two("copy2", lambda v, w: copied(v, into(v, w)))),
           (shutil, "move", two("move", lambda v, w: v.replace(into(v, w)).text)),
           (glob, "glob", globbed), (glob, "iglob", lambda *a, **k: iter(globbed(*a, **k))),
           (fnmatch, "fnmatch", like), (fnmatch, "fnmatchcase", like),
           (zipfile, "is_zipfile", on_path("is_zipfile", lambda v: v.is_file() and world.node(v.text).entries is not None)),
           (tempfile, "NamedTemporaryFile", named), (tempfile, "TemporaryDirectory", directory),
           (tempfile, "mkstemp", mkstemp), (tempfile, "mkdtemp", mkdtemp),
           (io, "BytesIO", Bytes), (io, "StringIO", Text), (io, "TextIOWrapper", wrapper)]
    paths = dict(
        exists=absent, lexists=absent, isfile=on_path("isfile", lambda v: v.is_file()), isdir=on_path("isdir", lambda v: v.is_dir()),
        islink=on_path("islink", lambda v: False), samefile=on_path("samefile", lambda v, w: v.samefile(w)),
        getsize=on_path("getsize", lambda v: v.stat().st_size),
        join=lambda a, *rest: join(a, *rest) if vpath(a) is not None else REALPATH["join"](a, *rest),
        basename=on_path("basename", lambda v: v.name), dirname=on_path("dirname", lambda v: v.parent.text),
        split=on_path("split", lambda v: (v.parent.text, v.name)),
        splitext=on_path("splitext", lambda v: (v.text[:len(v.text) - len(v.suffix)], v.suffix)),
        isabs=on_path("isabs", lambda v: False),
        **{n: on_path(n, text_of) for n in ("abspath", "realpath", "normpath", "expanduser")})
    out += [(os.path, n, f) for n, f in paths.items()]
    # names imported directly
    new = {id(REAL[n] if n in REAL else REALPATH[n]): f for _, n, f in out if n in REAL or n in REALPATH}
    for name, m in list(sys.modules.items()):
        if name.startswith("variantlib") and not name.startswith("variantlib.plugins") and m is not None:
            out += [(m, a, new[id(x)]) for a, x in list(m.__dict__.items()) if id(x) in new and not a.startswith("__")]
    return out
