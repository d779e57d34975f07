"""Models of the library calls whose arithmetic is not the subject: JSON and TOML
text, SHA-256."""
from __future__ import annotations

import csv
import hashlib
import io
import json

from .core import Unsupported, f_and, f_mask, f_not, mask_of
from .values import (LazyStr, SymBytes, SymStr, bchars, chars, contains_sym, cur, decide, deep_concretize, eq_chars, is_str, is_sym, mk, sx_join)

_real = {n: getattr(json, n) for n in ("dumps", "loads", "dump", "load")}


class JsonDoc:
    """Text of a JSON document over symbolic data: carries the data."""

    def __init__(self, data, sort, kind=str, fmt=None):
        self.data, self.sort, self.kind, self.fmt = data, sort, kind, fmt

    @property
    def __class__(self):
        return self.kind

    @property
    def _sx_type(self):
        return self.kind

    def encode(self, *a, **k):
        return JsonDoc(self.data, self.sort, bytes, self.fmt)

    def decode(self, *a, **k):
        return JsonDoc(self.data, self.sort, str, self.fmt)

    def strip(self, *a):
        return self

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is JsonDoc:
            return self.kind is o.kind and self.fmt == o.fmt and json_eq(self.canon(), o.canon())
        if isinstance(o, self.kind):
            # plain text: compare through its data
            try:
                d = _real["loads"](o)
            except ValueError:
                return False
            return json_eq(self.canon(), d)
        return NotImplemented

    def canon(self):
        return canon(self.data) if self.sort else self.data

    def __hash__(self):
        return 5

    def __deepcopy__(self, memo):
        return self

    def native(self):
        s = _real["dumps"](deep_concretize(self.data), **dict(self.fmt or ()))
        return s if self.kind is str else s.encode("utf-8")

    def __str__(self):
        return self.native() if self.kind is str else repr(self.native())

    def __bytes__(self):
        return self.native()

    def __len__(self):
        # a number standing for the length of exactly this document
        if cur.eng is None:
            return len(self.native())
        n = 1000 + 70 * doc_index(self)
        if self.kind is bytes and not dict(self.fmt or ()).get("ensure_ascii", True):
            n += wide(self.data)
        return n

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(self.kind, name):
            raise AttributeError(name)
        return getattr(self.native(), name)

    def __add__(self, o):
        return self.native() + o

    def __radd__(self, o):
        return o + self.native()

    def __getitem__(self, i):
        return self.native()[i]


def doc_index(doc):
    """The number of this document among those met on the path."""
    doc = JsonDoc(doc.data, doc.sort, str, doc.fmt)
    for i, d in enumerate(cur.docs):
        if d == doc:
            return i
    cur.docs.append(JsonDoc(doc.data, doc.sort, str, doc.fmt))
    return len(cur.docs) - 1


def wide(x):
    """How many more bytes than characters a text has in UTF-8."""
    if isinstance(x, dict):
        return wide(list(x)) + wide(list(x.values()))
    if isinstance(x, (list, tuple)):
        return sum(wide(i) for i in x)
    if not isinstance(x, str):
        return 0
    return sum((c >= 0x80) + (c >= 0x800) + (c >= 0x10000) if type(c) is int else decide(f_mask(c, (1 << 0x800) - (1 << 0x80))) for c in chars(x))


def canon(x):
    if isinstance(x, dict):
        return {k: canon(x[k]) for k in sorted(x)}
    if isinstance(x, list):
        return [canon(i) for i in x]
    return x


def json_eq(a, b):
    """Equality of JSON texts of two data (key order counts)."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        return all(ka == kb and json_eq(va, vb) for (ka, va), (kb, vb) in zip(a.items(), b.items()))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return all(json_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


def _jcopy(x, depth=0):
    """What survives a JSON round trip."""
    if depth > 50:
        raise ValueError("Circular reference detected")
    if x is None or isinstance(x, (str, bool, int, float)):
        if isinstance(x, int) and type(x) not in (int, bool):
            raise Unsupported("hash value in JSON")
        return x
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if not isinstance(k, str):
                if k is None or isinstance(k, (bool, int, float)):
                    k = _real["dumps"](k)
                else:
                    raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
            out[k] = _jcopy(v, depth + 1)
        return out
    if isinstance(x, (list, tuple)):
        return [_jcopy(i, depth + 1) for i in x]
    raise TypeError(f"Object of type {type(x).__name__} is not JSON serializable")


def dumps(obj, **kw):
    if cur.eng is None or not contains_sym(obj):
        return _real["dumps"](obj, **kw)
    if kw.get("default") or kw.get("cls"):
        raise Unsupported("custom JSON encoder")
    return JsonDoc(_jcopy(obj), bool(kw.get("sort_keys")), str, tuple(sorted(kw.items())))


def loads(s, **kw):
    if type(s) is JsonDoc:
        d = _jcopy(s.data)
        return canon(d) if s.sort else d
    if isinstance(s, (SymStr, SymBytes, LazyStr)):
        s = deep_concretize(s)
    return _real["loads"](s, **kw)


def dump(obj, fp, **kw):
    fp.write(dumps(obj, **kw))


def load(fp, **kw):
    return loads(fp.read(), **kw)


# ------------------------------------------------------------------ TOML
TOKEN = "sx-document"
_toml = {}


def toml_text(doc, force=False):
    """Text of a TOML file with this content; a reference where it is symbolic (or force)."""
    if cur.eng is None or not (force or contains_sym(doc)):
        import tomlkit

        return tomlkit.dumps(doc)
    cur.toml.append(_tcopy(doc))
    return f"{TOKEN} = {len(cur.toml) - 1}\n"


def _tcopy(x):
    if isinstance(x, dict):
        return {k: _tcopy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_tcopy(v) for v in x]
    return x


def toml_back(d):
    """What a parser returns for such a text."""
    if cur.eng is not None and TOKEN in d:
        return _tcopy(cur.toml[int(d[TOKEN])])
    return d


def _install_toml():
    import tomlkit
    import tomllib
    from tomlkit.toml_file import TOMLFile

    real = dict(load=tomllib.load, loads=tomllib.loads)
    tomllib.load = lambda fp, **k: toml_back(real["load"](fp, **k))
    tomllib.loads = lambda s, **k: toml_back(real["loads"](s, **k))
    kit = dict(load=tomlkit.load, loads=tomlkit.loads, parse=tomlkit.parse, dump=tomlkit.dump, dumps=tomlkit.dumps)
    tomlkit.load = lambda fp: toml_back(kit["load"](fp))
    tomlkit.loads = lambda s: toml_back(kit["loads"](s))
    tomlkit.parse = lambda s: toml_back(kit["parse"](s))
    tomlkit.dumps = lambda d, *a, **k: toml_text(d, True) if type(d) is _Doc or contains_sym(d) else kit["dumps"](d, *a, **k)
    tomlkit.dump = lambda d, fp, *a, **k: fp.write(tomlkit.dumps(d, *a, **k))
    rd, wr = TOMLFile.read, TOMLFile.write

    def write(self, data):
        if cur.eng is None or type(data) is not dict:
            return wr(self, data)
        with open(self._path, "w", encoding="utf-8", newline="") as f:
            f.write(toml_text(data, True))

    TOMLFile.read = lambda self: toml_back(rd(self))
    TOMLFile.write = write
    real_doc = {n: getattr(tomlkit, n) for n in ("document", "array", "table", "key")}

    def model(name, new):
        setattr(tomlkit, name, lambda *a, **k: real_doc[name](*a, **k) if cur.eng is None or cur.eager else new(*a, **k))

    model("document", _Doc)
    model("table", lambda *a: _Doc())
    model("array", lambda raw="[]": _List() if raw == "[]" else real_doc["array"](raw))
    model("key", lambda k: _Key(k if isinstance(k, (list, tuple)) else [k]))


class _Key(list):
    """A dotted key."""


class _List(list):
    def multiline(self, multiline=True):
        return self


class _Doc(dict):
    """A TOML document or table being built: its content, not its layout."""

    def __setitem__(self, k, v):
        *front, last = k if isinstance(k, _Key) else [k]
        d = self
        for x in front:
            if x not in d:
                dict.__setitem__(d, x, _Doc())
            d = d[x]
        dict.__setitem__(d, last, v)

    def add(self, k, v=None):
        if v is not None:
            self[k] = v
        return self

    append = add

    def as_string(self):
        return toml_text(self, True)


# ------------------------------------------------------------------ csv
_csv = {n: getattr(csv, n) for n in ("reader", "writer")}


def csv_rows(lines, delimiter=",", quotechar='"'):
    """The default dialect, on possibly symbolic lines."""
    row, quoted, seen = [[]], False, False
    q, d = ord(quotechar), ord(delimiter)
    for line in lines:
        if not isinstance(line, str):
            raise _csv_error("iterator should return strings")
        cs = chars(line)
        is_c = lambda c, k: c == k if type(c) is int else decide(f_mask(c, 1 << k))
        i, n = 0, len(cs)
        while i < n:
            c = cs[i]
            if quoted:
                if is_c(c, q):
                    if i + 1 < n and is_c(cs[i + 1], q):
                        row[-1].append(q)
                        i += 1
                    else:
                        quoted = False
                else:
                    row[-1].append(c)
            elif not row[-1] and is_c(c, q):
                quoted = seen = True
            elif is_c(c, d):
                row.append([])
                seen = True
            elif is_c(c, 10) or is_c(c, 13):
                pass
            else:
                row[-1].append(c)
                seen = True
            i += 1
        if not quoted:
            yield [mk(tuple(x)) for x in row] if seen else []
            row, seen = [[]], False
    if quoted:
        yield [mk(tuple(x)) for x in row]


_csv_error = csv.Error


def csv_reader(lines, *a, **k):
    lines = list(lines)
    if cur.eng is None or a or k or not contains_sym(lines):
        return _csv["reader"](iter(lines), *a, **k)
    return csv_rows(lines)


class _Writer:
    def __init__(self, f, lineterminator="\r\n"):
        self.f, self.end = f, lineterminator

    def writerow(self, row):
        out = []
        for x in row:
            if not is_str(x):
                x = "" if x is None else str(x)
            if any(c in x for c in ',"\r\n'):
                x = '"' + mk(chars(x)).replace('"', '""') + '"' if is_sym(x) else '"' + x.replace('"', '""') + '"'
            out.append(x)
        self.f.write(sx_join(",", out) + self.end)

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def csv_writer(f, *a, **k):
    if cur.eng is None or a or set(k) - {"lineterminator"}:
        return _csv["writer"](f, *a, **k)
    return _Writer(f, **k)


# ------------------------------------------------------------------ sha256
HEX = mask_of("0123456789abcdef")
_sha256 = hashlib.sha256


class SymSha:
    name = "sha256"
    digest_size = 32
    block_size = 64

    def __init__(self, data=b"", **kw):
        self._c = []
        if bool(data):
            self.update(data)

    def update(self, data):
        if type(data) is JsonDoc:
            # injective: the text of a document is represented by its number
            if data.kind is not bytes:
                raise TypeError("Strings must be encoded before hashing")
            data = data.native() if cur.eng is None else b"\0document %d" % doc_index(data)
        if isinstance(data, str):
            raise TypeError("Strings must be encoded before hashing")
        self._c.extend(bchars(data))

    def copy(self):
        h = SymSha()
        h._c = list(self._c)
        return h

    def hexdigest(self):
        payload = tuple(self._c)
        if cur.eng is None:
            return _sha256(bytes(payload)).hexdigest()
        for p, d in cur.digests:
            if p == payload or decide(eq_chars(p, payload)):
                return d
        if all(type(c) is int for c in payload):
            d = _sha256(bytes(payload)).hexdigest()
        else:
            eng = cur.eng
            k = len(cur.digests)
            d8 = SymStr(tuple(eng.var(f"sha#{k}.{i}", HEX) for i in range(8)))
            d = d8 * 8
        for p, o in cur.digests:
            # SHA-256 (first eight digits) is taken to be injective
            cur.eng.assume(f_not(eq_chars(chars(o)[:8], chars(d)[:8])))
        cur.digests.append((payload, d))
        return d

    def digest(self):
        if all(type(c) is int for c in self._c):
            return _sha256(bytes(self._c)).digest()
        return _sha256(bytes(c if type(c) is int else cur.eng.pick_value(c) for c in self._c)).digest()


def sha256(data=b"", **kw):
    if cur.eng is None:
        return _sha256(data, **kw)
    return SymSha(data)


def _new(name, data=b"", **kw):
    if str(name).lower().replace("-", "") == "sha256":
        return sha256(data)
    return _real_new(name, data, **kw)


_real_new = hashlib.new


# ------------------------------------------------------------------ io
def _buffer(base, empty):
    """io.StringIO / io.BytesIO that also take symbolic text; there, from the first such write
    on, the content is a list of parts that can be read from the start again."""

    class Buffer(base):
        _sx = _at = None

        def __init__(self, initial=empty, *a, **k):
            if type(initial) in (str, bytes, bytearray, memoryview, type(None)):
                super().__init__(initial, *a, **k)
            else:
                super().__init__(empty, *a, **k)
                self._sx, self._at = [initial], 0

        def write(self, s):
            if self._sx is None and type(s) in (str, bytes, bytearray, memoryview):
                return super().write(s)
            if self._sx is None:
                if super().tell() != len(super().getvalue()):
                    raise Unsupported("write of symbolic text in the middle of a buffer")
                self._sx = [super().getvalue()]
            if self._at is not None:
                raise Unsupported("write after seek in a buffer with symbolic text")
            self._sx.append(s)
            return 0

        def writelines(self, lines):
            for x in lines:
                self.write(x)

        def getvalue(self):
            if self._sx is None:
                return super().getvalue()
            parts = [x for x in self._sx if type(x) is JsonDoc or bool(x)]
            if len(parts) != 1:
                parts = [sx_join(empty, parts) if parts else empty]
            self._sx = parts
            return parts[0]

        def seek(self, at, whence=0):
            if self._sx is None:
                return super().seek(at, whence)
            if at or whence:
                raise Unsupported("seek in a buffer with symbolic text")
            self._at = 0
            return 0

        def read(self, n=-1):
            if self._sx is None:
                return super().read(n)
            if n is not None and n >= 0:
                raise Unsupported("partial read of a buffer with symbolic text")
            at, self._at = self._at, 1
            return self.getvalue() if at == 0 else empty

        def __iter__(self):
            if self._sx is None:
                return super().__iter__()
            return iter(self.read().splitlines(True))

        def tell(self):
            if self._sx is None:
                return super().tell()
            raise Unsupported("tell on a buffer with symbolic text")

        def truncate(self, n=None):
            if self._sx is None:
                return super().truncate(n)
            raise Unsupported("truncate of a buffer with symbolic text")

        def readline(self, *a):
            if self._sx is None:
                return super().readline(*a)
            raise Unsupported("readline of a buffer with symbolic text")

    Buffer.__name__ = Buffer.__qualname__ = base.__name__

    return Buffer


def install():
    io.StringIO, io.BytesIO = _buffer(io.StringIO, ""), _buffer(io.BytesIO, b"")
    json.dumps, json.loads, json.dump, json.load = dumps, loads, dump, load
    hashlib.sha256 = sha256
    hashlib.new = _new
    csv.reader, csv.writer = csv_reader, csv_writer
    _install_toml()
