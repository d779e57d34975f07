"""Wheel files and directories for the command-line tools.  On symbolic values the files
live in memory (names and contents may be symbolic); otherwise in a scratch directory.
Every path starts with "w/"."""
import argparse
import contextlib
import csv
import json
import os
import pathlib
import sys
import types
import warnings
import zipfile
from pathlib import Path

from harness.env import patched
from harness.files import scratch

RealPath, RealZip = pathlib.Path, zipfile.ZipFile


def unsupported(what):
    from symex.core import Unsupported

    raise Unsupported(what)


class ArchiveData:
    """The bytes of an archive, which only an archive is made of."""

    def __init__(self, entries):
        self.entries = entries

    def __bool__(self):
        return True

    def __len__(self):
        unsupported("raw archive")

    def __getattr__(self, name):
        if not name.startswith("__") and hasattr(bytes, name):
            unsupported("raw archive")
        raise AttributeError(name)


class Node:
    def __init__(self, content=b"", entries=None):
        self.content, self.entries, self.gen = content, entries, 0

    def set(self, content=b"", entries=None):
        if isinstance(content, ArchiveData):
            content, entries = b"", list(content.entries)
        self.content, self.entries = content, entries
        self.gen += 1


# ------------------------------------------------------------------ streams
def joined(parts, text):
    parts = [x for x in parts if bool(x)]
    if len(parts) == 1:
        return parts[0]
    return ("" if text else b"").join(parts)


class Stream:
    """An open file."""

    def __init__(self, data=None, done=None, text=False, step=None):
        self.data, self.done, self.text = data, done, text
        self.step = step or (lambda: None)
        self.parts = []
        self.closed = False

    def readable(self):
        return self.done is None

    def writable(self):
        return self.done is not None

    def read(self, n=-1):
        if n is None or n < 0 or not self.data or isinstance(self.data, ArchiveData):
            out, self.data = self.data, "" if self.text else b""
            return out
        if isinstance(self.data, (str, bytes)) and hasattr(self.data, "native"):
            out, self.data = self.data, "" if self.text else b""
            return out
        out, self.data = self.data[:n], self.data[n:]
        return out

    def readlines(self, hint=-1):
        data = self.read()
        if hasattr(data, "native"):
            return [data]
        nl = "\n" if self.text else b"\n"
        out = data.split(nl)
        last = out.pop()
        return [x + nl for x in out] + ([last] if last else [])

    def readline(self, limit=-1):
        lines = self.readlines()
        self.data = joined(lines[1:], self.text)
        return lines[0] if lines else "" if self.text else b""

    def __iter__(self):
        return iter(self.readlines())

    def write(self, data):
        if self.text != isinstance(data, str):
            raise TypeError("wrong kind of data")
        self.step()
        self.parts.append(data)
        return 0

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            if self.done is not None:
                self.step()
                self.done(joined(self.parts, self.text))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------------ paths
class VPath:
    """A path in memory."""

    world = None

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def as_posix(self):
        return self.text

    def __repr__(self):
        return f"VPath({self.text!r})"

    def __eq__(self, o):
        return isinstance(o, VPath) and self.text == o.text

    def __hash__(self):
        return 7

    def __lt__(self, o):
        return self.text < o.text

    def __deepcopy__(self, memo):
        return self

    def __fspath__(self):
        unsupported("path")

    def __truediv__(self, other):
        return VPath(self.text + "/" + str_of(other))

    def joinpath(self, *others):
        out = self
        for o in others:
            out = out / o
        return out

    @property
    def name(self):
        return self.text.rpartition("/")[2]

    @property
    def parent(self):
        return VPath(self.text.rpartition("/")[0])

    @property
    def suffix(self):
        head, dot, tail = self.name.rpartition(".")
        return dot + tail if head and tail else ""

    @property
    def stem(self):
        name = self.name
        head, _, tail = name.rpartition(".")
        return head if head and tail else name

    def with_name(self, name):
        return self.parent / name

    def with_suffix(self, suffix):
        return self.with_name(self.stem + suffix)

    def with_stem(self, stem):
        return self.with_name(stem + self.suffix)

    def resolve(self, strict=False):
        return self

    absolute = expanduser = resolve

    def is_absolute(self):
        return False

    def exists(self, **k):
        return self.is_dir() or self.is_file()

    def is_dir(self):
        return self.world.is_dir(self.text)

    def is_file(self):
        return self.world.node(self.text) is not None

    def samefile(self, other):
        text = str_of(other)
        for t in (self.text, text):
            if self.world.node(t) is None and not self.world.is_dir(t):
                raise FileNotFoundError(t)
        return self.text == text

    def is_symlink(self):
        return False

    def need(self):
        n = self.world.node(self.text)
        if n is None:
            raise IsADirectoryError(self.text) if self.is_dir() else FileNotFoundError(self.text)
        return n

    def make(self):
        if self.is_dir():
            raise IsADirectoryError(self.text)
        if not self.parent.is_dir():
            raise FileNotFoundError(self.text)
        self.world.step()
        return self.world.node(self.text) or self.world.add(self.text, Node())

    def open(self, mode="r", *a, **k):
        text = "b" not in mode
        kind = mode.replace("b", "").replace("t", "")
        if kind == "r":
            from harness.vfs import translated

            n = self.need()
            d = n.content if n.entries is None else ArchiveData(n.entries)
            if text and isinstance(d, bytes):
                d = d.decode("utf-8")
            if text:
                newline = k.get("newline", a[3] if len(a) > 3 else None)
                d = translated(d, newline) if isinstance(d, str) else unsupported("raw archive")
            elif not text and isinstance(d, str):
                d = d.encode("utf-8")
            self.world.step()
            return Stream(d, None, text)
        if kind == "x":
            if self.exists():
                raise FileExistsError(self.text)
            kind = "w"
        if kind != "w":
            unsupported("mode")
        n = self.make()
        n.set(b"")
        return Stream(None, n.set, text, self.world.step)

    def read_text(self, *a, **k):
        return self.open("r").read()

    def read_bytes(self):
        return self.open("rb").read()

    def write_text(self, data, *a, **k):
        with self.open("w") as f:
            f.write(data)
        return 0

    def write_bytes(self, data):
        with self.open("wb") as f:
            f.write(data)
        return 0

    def unlink(self, missing_ok=False):
        if self.world.node(self.text) is None:
            if missing_ok:
                return
            raise FileNotFoundError(self.text)
        self.world.step()
        self.world.drop(self.text)

    def replace(self, target):
        n = self.world.node(self.text)
        if n is None:
            raise FileNotFoundError(self.text)
        text = str_of(target)
        self.world.step()
        self.world.drop(self.text)
        self.world.drop(text)
        self.world.add(text, n)
        return VPath(text)

    rename = replace

    def stat(self, **k):
        n = None if self.is_dir() else self.need()
        if n is not None and n.entries is not None:
            unsupported("raw archive")
        data = n.content if n else b""
        if isinstance(data, str):
            data = data.encode("utf-8")
        return types.SimpleNamespace(st_size=len(data), st_mode=0o100644 if n else 0o040755)

    def match(self, pattern):
        from harness.vfs import like

        return like(self.name, pattern)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if self.exists():
            if exist_ok:
                return
            raise FileExistsError(self.text)
        self.world.step()
        self.world.dirs.append(self.text)

    def iterdir(self):
        if not self.is_dir():
            raise FileNotFoundError(self.text)
        return iter([VPath(t) for t in [*self.world.dirs, *self.world.ordered()] if t.rpartition("/")[0] == self.text])

    def below(self):
        return [VPath(t) for t in [*self.world.dirs, *self.world.ordered()] if t.startswith(self.text + "/")]

    def glob(self, pattern):
        deep = pattern.startswith("**/")
        if deep:
            pattern = pattern[3:]
        entries = self.below() if deep else list(self.iterdir())
        from harness.vfs import like

        if "/" in pattern:
            unsupported("pattern")
        return iter([x for x in entries if like(x.name, pattern)])

    def rglob(self, pattern):
        return self.glob("**/" + pattern)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(RealPath, name):
            raise AttributeError(name)
        unsupported(f"path.{name}")


def str_of(x):
    if isinstance(x, VPath):
        return x.text
    if isinstance(x, RealPath):
        return str(x)
    return x


class _Meta(type):
    def __instancecheck__(cls, x):
        return type(x) is VPath or isinstance(x, RealPath)


class AnyPath(metaclass=_Meta):
    def __new__(cls, *parts):
        text = "/".join([str_of(x) for x in parts]) if parts else "."
        if text.startswith("./"):
            text = text[2:]
        if text.startswith("w/"):
            return VPath(text)
        return RealPath(*parts)

    cwd = staticmethod(RealPath.cwd)
    home = staticmethod(RealPath.home)


# ------------------------------------------------------------------ archives
class VInfo:
    def __init__(self, filename="NoName", date_time=(1980, 1, 1, 0, 0, 0), data=b""):
        self.filename = self.orig_filename = filename
        self.date_time = date_time
        self.compress_type = zipfile.ZIP_STORED
        self.external_attr = 0
        self.internal_attr = self.flag_bits = 0
        self.comment = self.extra = b""
        self.create_system = 3
        self.data = data

    @property
    def file_size(self):
        return len(self.data)

    compress_size = file_size

    @property
    def CRC(self):
        unsupported("checksum")

    def is_dir(self):
        return self.filename.endswith("/")


class Opened:
    """A stream as the file of an archive."""

    text = None

    def __init__(self, stream, mode):
        self.stream, self.mode = stream, mode

    def need(self):
        data = self.stream.read()
        return Node(b"", data.entries) if isinstance(data, ArchiveData) else Node(data)

    def exists(self):
        return False

    def make(self):
        if self.mode == "a":
            return self.need()
        outer = self

        class Sink(Node):
            def set(self, content=b"", entries=None):
                super().set(content, entries)
                if entries is not None:
                    outer.stream.write(ArchiveData(entries))

        return Sink()


class VZip:
    """zipfile.ZipFile on files in memory."""

    world = None

    def __init__(self, file, mode="r", compression=zipfile.ZIP_STORED, allowZip64=True, compresslevel=None, **k):
        from harness.vfs import vpath

        if isinstance(file, Stream):
            file = Opened(file, mode)
        else:
            file = vpath(file)
        if file is None:
            unsupported("archive")
        self.mode, self.compression, self.filename = mode, compression, file.text
        self.comment = b""
        self.open_writes = 0
        if mode == "r":
            node = file.need()
            self.world.step()
            if node.entries is None:
                raise zipfile.BadZipFile("File is not a zip file")
            self.infos = list(node.entries)
        elif mode in ("w", "x"):
            if mode == "x" and file.exists():
                raise FileExistsError(file.text)
            node = file.make()
            node.set(b"")
            self.infos = []
        elif mode == "a":
            node = file.make()
            if node.entries is None and bool(node.content):
                raise zipfile.BadZipFile("File is not a zip file")
            self.infos = list(node.entries or ())
        else:
            unsupported("mode")
        self.node, self.gen = node, node.gen

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.mode != "r" and self.infos is not None and self.gen == self.node.gen:
            self.world.step()
            self.node.set(b"", self.infos)
            self.gen = None

    def infolist(self):
        return list(self.infos)

    def namelist(self):
        return [x.filename for x in self.infos]

    def getinfo(self, name):
        for x in reversed(self.infos):
            if x.filename == name:
                return x
        raise KeyError(f"There is no item named {name!r} in the archive")

    def open(self, name, mode="r", pwd=None, force_zip64=False):
        if isinstance(name, VInfo):
            info = name
        elif mode == "w":
            info = VInfo(name)
            info.compress_type = self.compression
        else:
            info = self.getinfo(name)
        if mode == "r":
            if self.mode != "r":
                return Stream(info.data)
            if self.gen != self.node.gen:
                raise zipfile.BadZipFile("Truncated file")
            self.world.step()
            return Stream(info.data)
        new = VInfo(info.filename, info.date_time)
        new.compress_type, new.external_attr = info.compress_type, info.external_attr or 0o600 << 16

        def done(data):
            new.data = data
            self.infos.append(new)

        return Stream(None, done, step=self.world.step)

    def extract(self, member, path=None, pwd=None):
        info = member if isinstance(member, VInfo) else self.getinfo(member)
        from harness.vfs import vpath

        target = vpath(path)
        if target is None:
            unsupported("extract")
        for part in info.filename.split("/")[:-1]:
            target = target / part
            target.mkdir(exist_ok=True)
        if not info.is_dir():
            target = target / info.filename.rpartition("/")[2]
            target.write_bytes(info.data)
        return target.text

    def extractall(self, path=None, members=None, pwd=None):
        for x in self.infos if members is None else members:
            self.extract(x, path)

    def write(self, filename, arcname=None, compress_type=None, compresslevel=None):
        from harness.vfs import vpath

        v = vpath(filename)
        self.writestr(v.text if arcname is None else arcname, v.read_bytes())

    def read(self, name, pwd=None):
        return self.open(name).read()

    def writestr(self, zinfo_or_arcname, data, compress_type=None, compresslevel=None):
        name = zinfo_or_arcname
        with self.open(name, "w") as f:
            f.write(data.encode("utf-8") if isinstance(data, str) else data)

    def testzip(self):
        return None

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(RealZip, name):
            raise AttributeError(name)
        unsupported(f"zip.{name}")


class _Text:
    """A standard stream: keeps symbolic text."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def value(self):
        parts = [x for x in self.parts if bool(x)]
        return parts[0] if len(parts) == 1 else "".join(parts)


# ------------------------------------------------------------------ world
class Killed(BaseException):
    """The process ends here."""


class World:
    def __init__(self, S, memory=False):
        self.S = S
        self.real = S.eager and not memory
        self.faults, self.steps, self.fault = (), 0, None
        self.dirs, self.files = ["w"], []  # files: [text, node]
        self.rank = None
        self.made, self.unique = [], []  # names of files written in memory; of those, unique ones

    def step(self):
        """A file operation is about to happen: it may fail, or the process may end here."""
        if self.fault is None and self.faults:
            kind = self.S.pick(f"step{self.steps}", (None, *self.faults))
            if kind is not None:
                self.fault = kind
                if kind == "error":
                    raise OSError(28, "No space left on device")
        self.steps += 1
        if self.fault == "killed":
            raise Killed

    # in memory
    def node(self, text):
        for t, n in self.files:
            if t == text:
                return n

    def add(self, text, node):
        self.files.append((text, node))
        self.made.append(text)
        return node

    def drop(self, text):
        self.files = [(t, n) for t, n in self.files if not t == text]

    def is_dir(self, text):
        return any(d == text for d in self.dirs)

    def ordered(self):
        out = [t for t, _ in self.files]
        if self.rank is not None:
            out.sort(key=lambda t: next((i for i, r in enumerate(self.rank) if t.endswith("/" + r)), 99))
        return out

    # the scenario's side
    def dir(self, text):
        self.dirs.append(text)
        if self.real:
            RealPath(text).mkdir(parents=True, exist_ok=True)

    def file(self, text, content):
        if self.real:
            RealPath(text).write_bytes(plain(content))
        else:
            self.add(text, Node(content))

    def zip(self, text, entries):
        """entries: (name, content, permissions)."""
        if self.real:
            with RealZip(text, "w") as z, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for name, data, mode in entries:
                    info = zipfile.ZipInfo(name, (2020, 1, 2, 3, 4, 6))
                    info.external_attr = mode << 16
                    z.writestr(info, plain(data))
            return
        infos = []
        for name, data, mode in entries:
            info = VInfo(name, (2020, 1, 2, 3, 4, 6), data)
            info.external_attr = mode << 16
            infos.append(info)
        self.add(text, Node(b"", infos))

    def exists(self, text):
        return os.path.exists(text) if self.real else self.node(text) is not None

    def read(self, text):
        """Content, as bytes; None if there is no such file."""
        if self.real:
            return RealPath(text).read_bytes() if os.path.exists(text) else None
        n = self.node(text)
        if n is None:
            return None
        return n.content.encode("utf-8") if isinstance(n.content, str) else n.content

    def unzip(self, text):
        """(name, content, permissions) of every entry; None if there is no such archive."""
        if self.real:
            if not os.path.exists(text):
                return None
            with RealZip(text) as z:
                return [(i.filename, z.read(i), i.external_attr >> 16) for i in z.infolist()]
        n = self.node(text)
        if n is None or n.entries is None:
            return None
        return [(i.filename, i.data, i.external_attr >> 16) for i in n.entries]

    def all(self):
        """Everything there is."""
        if self.real:
            names = sorted(os.path.join(d, f) for d, _, fs in os.walk("w") for f in fs)
            return [(t, (self.read(t), None)) for t in names]
        return [(t, (n.content, None if n.entries is None else [(i.filename, i.data, i.external_attr) for i in n.entries])) for t, n in self.files]

    def unchanged(self, before, but=()):
        """Formula: the same files with the same content as before."""
        S = self.S
        now = self.all()
        fs = []
        for a, b in ((before, now), (now, before)):
            for t, c in a:
                if any(t == x for x in but):
                    continue
                fs.append(S.Or(*[S.And(S.eq(t, u), S.eq(c, d)) for u, d in b]))
        return S.And(*fs)

    def run(self, fn, args, disk=False):
        """A command on these arguments: outcome, what it printed.  disk: it uses real files."""
        out, err = _Text(), _Text()
        table, argv = [], []
        for a in args:
            if self.real or not symbolic(a):
                argv.append(a)
            else:
                table.append(a)
                argv.append(f"@{len(table) - 1}")
        targets = [(sys, "stdout", out), (sys, "stderr", err)]
        if self.real:
            if self.rank is not None:
                targets += ranked(self.rank)
        elif disk:
            targets += arguments(table)
        else:
            targets += virtual(self, table)
        with patched(*targets):
            try:
                r = self.S.call(fn, argv)
            except Killed:
                r = None
        return r, out.value()


def symbolic(x):
    from symex.values import contains_sym

    return contains_sym(x)


def plain(x):
    if hasattr(x, "native"):
        x = x.native()
    return x.encode("utf-8") if isinstance(x, str) else bytes(x)


def ranked(rank):
    """Directories list these names in this order."""
    key = lambda x: next((i for i, r in enumerate(rank) if str(x).endswith(r)), 99)
    glob, iterdir, listdir, scandir = RealPath.glob, RealPath.iterdir, os.listdir, os.scandir

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    return [(RealPath, "glob", lambda self, *a, **k: iter(sorted(glob(self, *a, **k), key=lambda p: key(p.name)))),
            (RealPath, "iterdir", lambda self: iter(sorted(iterdir(self), key=lambda p: key(p.name)))),
            (os, "listdir", lambda *a: sorted(listdir(*a), key=key)),
            (os, "scandir", lambda *a: Scan(sorted(scandir(*a), key=lambda e: key(e.name))))]


def arguments(table):
    """@N on a command line stands for table[N]."""
    get_value = argparse.ArgumentParser._get_value

    def value(self, action, arg):
        if isinstance(arg, str) and arg.startswith("@") and arg[1:].isdigit():
            arg = table[int(arg[1:])]
        return get_value(self, action, arg)

    def error(self, message):
        raise SystemExit(2)

    formatter = argparse.HelpFormatter._metavar_formatter

    def metavar(self, action, default):
        if symbolic(list(action.choices or ())):
            return lambda n: (default,) * n
        return formatter(self, action, default)

    def check(self, action, value):
        if action.choices is not None and not any(value == c for c in action.choices):
            raise argparse.ArgumentError(action, "invalid choice")

    parse = argparse.ArgumentParser.parse_known_args

    def known(self, args=None, namespace=None):
        # (arguments passed on by another command)
        if args is not None and symbolic(list(args)):
            args = list(args)
            for i, a in enumerate(args):
                if symbolic(a):
                    table.append(a)
                    args[i] = f"@{len(table) - 1}"
        return parse(self, args, namespace)

    return [(argparse.ArgumentParser, "_get_value", value), (argparse.ArgumentParser, "error", error),
            (argparse.ArgumentParser, "parse_known_args", known),
            (argparse.HelpFormatter, "_metavar_formatter", metavar), (argparse.ArgumentParser, "_check_value", check)]


def virtual(world, table):
    from harness import vfs

    VPath.world = VZip.world = world
    targets = arguments(table) + vfs.targets(world) + [(pathlib, "Path", AnyPath), (zipfile, "ZipFile", VZip), (zipfile, "ZipInfo", VInfo)]
    for name, m in list(sys.modules.items()):
        if name.startswith("variantlib") and not name.startswith("variantlib.plugins") and m is not None:
            for attr, new in (("Path", AnyPath), ("ZipFile", VZip), ("ZipInfo", VInfo)):
                old = m.__dict__.get(attr)
                if old is RealPath or old is RealZip or (attr == "ZipInfo" and old is zipfile.ZipInfo):
                    targets.append((m, attr, new))
    return targets


@contextlib.contextmanager
def world(S, memory=False):
    w = World(S, memory)
    if not w.real:
        yield w
        return
    with scratch() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            os.mkdir("w")
            yield w
        finally:
            os.chdir(old)


# ------------------------------------------------------------------ a wheel's content
DI = "x-1.dist-info"
META = DI + "/variant.json"
RECORD = DI + "/RECORD"
# files a tool could mistake for the variant metadata or the record list
FILES = ("x/m.py", "x/variant.json", "variant.json", DI + "/METADATA", DI + "/sub/variant.json", "x/RECORD",
         DI + "/licenses/RECORD", DI + "/RECORD.jws", "x/_vendor/y-1.dist-info/variant.json", "x/_vendor/y-1.dist-info/RECORD",
         "x-1.data/scripts/run", DI + "/variant.json.bak", "x/a,b.py", "x/", "RECORD", DI + "/VARIANT.JSON", DI + "/record", SIMILAR := object())


def row(name, digest, size, end="\n", quote=False):
    if "," in name or quote:
        name = '"' + name + '"'
    return name + "," + digest + "," + size + end


def content(S, name, lens=(0, 2), alphabet="a\n,"):
    n = S.pick(name + ".len", lens)
    return S.str(name, n, alphabet).encode("utf-8")


def build(S, p, name="w", meta=None, listed=True):
    """(entries, record rows) of a wheel: some files, then RECORD (or RECORD before the last
    file); with metadata `meta` (text), listed in the records or not."""
    entries, rows = [], []
    first = 0
    for i in range(S.pick(name + ".files", p.get("files", (1,)))):
        S.assume(first < len(FILES))
        k = S.pick(f"{name}.file{i}", tuple(range(len(FILES)))[first:] if "which" not in p else p["which"][i])
        first = k + 1
        S.assume(first <= len(FILES))
        f = FILES[k]
        if f is SIMILAR:
            # any name beside the metadata and the record list that contains theirs
            f = DI + "/" + S.str(name + ".pre", S.pick(name + ".prelen", (0, 1)), "i._") + S.pick(name + ".base", ("variant.json", "RECORD"))
            f = f + S.str(name + ".post", S.pick(name + ".postlen", (0, 1)), "x._")
            S.assume(len(f) > len(META) or f[-1] != "n" and len(f) > len(RECORD))
        data = b"" if f.endswith("/") else content(S, f"{name}.data{i}", p.get("dl", (0, 2)))
        entries.append((f, data, S.pick(f"{name}.mode{i}", p.get("modes", (0o644,)))))
        if not f.endswith("/"):
            rows.append((f, "sha256=" + S.str(f"{name}.sha{i}", 1, "aZ_"), str(len(data))))
    if meta is not None:
        at = S.pick(name + ".meta", p.get("meta_at", (0,)) if entries else (0,))
        at = len(entries) if at else 0
        entries.insert(at, (META, meta.encode("utf-8"), 0o644))
        if listed:
            rows.insert(S.pick(name + ".metarow", p.get("meta_row", (0,))) and len(rows), (META, "sha256=old", "1"))
    rows.append((RECORD, "", ""))
    end = S.pick(name + ".eol", p.get("eol", ("\n",)))
    quote = S.pick(name + ".quote", p.get("quote", (False,)))
    text = "".join([row(*r, end, quote) for r in rows])
    tail = S.pick(name + ".tail", p.get("tail", ("",)))
    if tail == "none":
        text = text[:-len(end)]
    elif tail == "blank":
        text = text + end
    at = len(entries) - S.pick(name + ".after", p.get("after", (0,)))
    S.assume(at >= 0)
    entries.insert(at, (RECORD, text.encode("utf-8"), 0o644))
    return entries, rows


def records(data):
    """The rows of a record list."""
    return [r for r in csv.reader(data.decode("utf-8").split("\n")) if r]


def without(data, name):
    """The text of a record list without the lines of a file."""
    lines = data.decode("utf-8").split("\n")
    last = lines.pop()
    lines = [x + "\n" for x in lines] + ([last] if last else [])
    return "".join([x for x in lines if next(iter(next(iter(csv.reader([x])), [])), None) != name])


def lines(data, name):
    """The lines of a record list, but empty ones and those of a file; the last one without
    its terminator, which may be missing."""
    text = without(data, name)
    out = [x for x in text.split("\n") if x.strip()]
    if len(out) and not text.endswith("\n"):
        out[-1] = out[-1].rstrip("\r")
    return out


def blanks(data):
    """How many empty lines a record list has."""
    return sum(1 for x in data.decode("utf-8").split("\n")[:-1] if not x.strip())


def same_entries(S, got, want, but=()):
    """Formula: the same names, contents and permissions in the same order."""
    got = [e for e in got if not any(e[0] == b for b in but)]
    want = [e for e in want if not any(e[0] == b for b in but)]
    return len(got) == len(want) and S.And(*[S.And(S.eq(a[0], b[0]), S.eq(a[1], b[1]), a[2] & 0o777 == b[2] & 0o777) for a, b in zip(got, want)])


def same_rows(S, got, want):
    return len(got) == len(want) and S.And(*[S.eq(list(a), list(b)) for a, b in zip(got, want)])


# ------------------------------------------------------------------ variant wheels of all kinds
def _provider(requires, **more):
    return {"default-priorities": {"namespace": ["n"]}, "providers": {"n": {"requires": requires, **more}}}


TABLES = ({}, _provider(["plug"]), _provider(["other"]), _provider(["plug"], optional=True),
          {"default-priorities": {"namespace": ["n"], "feature": {"n": ["g"]}}, "providers": {"n": {"requires": ["plug"]}}},
          {"default-priorities": {"namespace": ["n"]}, "providers": {"n": {"install-time": False}}, "static-properties": {"n": {"g": ["3"]}}})
KINDS = ("good", "plain", "none", "text", "extra", "two", "corrupt", "name")
UNUSABLE = ("plain", "none", "text", "extra", "two", "corrupt", "name")


def variant_wheel(S, w, name, p, directory, kinds=KINDS):
    """Puts one wheel into the directory; returns (file name, namever, label in the file name,
    usable, table, label, properties)."""
    from harness.metadata import nested, variant

    kind = S.pick(name + ".kind", kinds)
    project = S.pick(name + ".project", p.get("projects", ("x-1",)))
    tag = S.pick(name + ".tag", p.get("tags", ("any",)))
    built = S.pick(name + ".build", p.get("builds", ("",)))
    label = S.strv(name + ".label", p.get("ll", (1,)), p["lal"])
    table = TABLES[S.pick(name + ".table", p.get("tables", (1,)))]
    props = variant(S, name + ".p", S.pick(name + ".n", p["n"]), p)
    if p.get("more"):
        from variantlib.models.variant import VariantProperty

        props = [VariantProperty("n", "y", f"y{i}") for i in range(S.pick(name + ".more", p["more"]))] + list(getattr(props, "properties", props))
    stated = S.strv(name + ".stated", p.get("ll", (1,)), p["lal"]) if props and p.get("mislabel") else label
    if not props:
        stated = "null"
        if S.flag(name + ".null"):
            label = "null"
    doc = {**{k: dict(v) for k, v in table.items()}, "variants": {stated: nested(S, props)}}
    text = json.dumps(doc)
    if kind == "text":
        text = "{"
    elif kind == "extra":
        text = json.dumps({**doc, "providers": {**doc.get("providers", {}), "n": {"requires": ["plug"], "unknown": 1}}})
    elif kind == "two":
        text = json.dumps({**doc, "variants": {**doc["variants"], "other": {"n": {"f": ["9"]}}}})
    entries, _ = build(S, {"files": p.get("files", (0,)), "which": p.get("which", [[0]]), "dl": (0,), "meta_at": (0, 1)}, name + ".w",
                       None if kind in ("none", "plain") else text)
    filename = f"{project}{built}-py3-none-{tag}" + ("-" + label if kind != "plain" else "") + ".whl"
    if kind == "name":
        filename = "x" + ("-" + label if S.flag(name + ".short") else "") + ".whl"
    S.assume(S.And(*[S.Not(S.eq(t, directory + "/" + filename)) for t, _ in w.all()]))
    if kind == "corrupt":
        w.file(directory + "/" + filename, b"not a zip archive")
    else:
        w.zip(directory + "/" + filename, entries)
    usable = kind == "good" and S.decide(S.eq(label, stated))
    if kind == "good" and not usable:
        kind = "mislabelled"
    return filename, project, label, kind if not usable else "good", table, label, props


def said_by(table):
    from harness.metadata import parse_common

    return parse_common(table)


def index_says(S, data, fields, variants):
    """Formula: an index text that says exactly this."""
    from harness.metaref import accepts

    why, said = accepts(S, json.loads(data), "index")
    if why is not None:
        return False
    f, vs = said
    return S.And(S.eq(f, fields), len(vs) == len(variants), *[S.Or(*[S.And(S.eq(a, b), same_triples(S, t, q)) for b, q in variants]) for a, t in vs])


def same_triples(S, got, props):
    return S.And(len(got) == len(props), *[S.Or(*[S.And(S.eq(a, q.namespace), S.eq(b, q.feature), S.eq(c, q.value)) for a, b, c in got]) for q in props])


def agree(S, state, wheel):
    """An index's (fields, variants) after adding this wheel; None if it disagrees."""
    _, _, _, _, table, label, props = wheel
    f = said_by(table)
    if state is None:
        return f, [(label, props)]
    fields, variants = state
    if not S.decide(S.eq(f, fields)):
        return None
    for k, q in variants:
        if S.decide(S.eq(k, label)):
            same = len(q) == len(props) and S.And(*[S.Or(*[S.eq(a, b) for b in q]) for a in props])
            return (fields, variants) if S.decide(same) else None
    return fields, variants + [(label, props)]
