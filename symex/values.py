"""Symbolic strings and bytes, symbolic hash values and helpers over them.

A SymStr has a concrete length and one symbolic or concrete character per
position.  Every comparison forks the current path through the engine, so code
that runs on SymStr objects always sees native booleans.
"""
from __future__ import annotations

import unicodedata  # noqa: F401

from .core import NVAL, Unsupported, f_and, f_eq, f_lt, f_mask, f_not, f_or, mask_of, mask_values


class Cur:
    """The running exploration."""

    eng = None
    registry = {}      # length -> {str}: constants that exist as plain strings
    path_registry = {}  # additions of the current path
    hashed = {}        # length -> [SymStr] hashed on this path
    eager = False
    digests = []       # (payload chars, SymStr) on this path
    setorder = False


cur = Cur()


def reset_path():
    cur.path_registry = {}
    cur.hashed = {}
    cur.digests = []
    cur.toml = []
    cur.docs = []


def register_static(s):
    if 0 < len(s) <= 80:
        cur.registry.setdefault(len(s), set()).add(s)


def register(s):
    """A plain string produced while the path runs."""
    n = len(s)
    if s in cur.registry.get(n, ()) or s in cur.path_registry.get(n, ()):
        return
    cur.path_registry.setdefault(n, {})[s] = None
    ch = tuple(map(ord, s))
    for sym in cur.hashed.get(n, ()):
        if cur.eng.decide(eq_chars(sym.c, ch)):
            raise Unsupported(f"late constant {s!r}")


def eq_chars(a, b):
    if len(a) != len(b):
        return False
    fs = []
    for x, y in zip(a, b):
        if x is y:
            continue
        f = f_eq(x, y)
        if f is False:
            return False
        if f is not True:
            fs.append(f)
    return f_and(fs)


def lt_chars(a, b):
    """a < b lexicographically."""
    ors = []
    pre = []
    for x, y in zip(a, b):
        ors.append(f_and([*pre, f_lt(x, y)]))
        pre.append(f_eq(x, y))
    if len(a) < len(b):
        ors.append(f_and(pre))
    return f_or(ors)


def chars(s):
    """Characters of a plain or symbolic string."""
    t = type(s)
    if t is SymStr or t is SymBytes:
        return s.c
    if t is LazyStr:
        return chars(s.force())
    return tuple(map(ord, s))


def bchars(s):
    return s.c if type(s) is SymBytes else tuple(s)


def mk(cs):
    """String from characters; plain if all of them are concrete."""
    for c in cs:
        if type(c) is not int:
            return SymStr(tuple(cs))
    s = "".join(map(chr, cs))
    if cur.eng is not None:
        register(s)
    return s


def mkb(cs):
    for c in cs:
        if type(c) is not int:
            return SymBytes(tuple(cs))
    return bytes(cs)


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymBytes


def is_str(x):
    return type(x) is SymStr or isinstance(x, str)


def concretize(s):
    """Native string for s, forking over its feasible values."""
    t = type(s)
    if t is LazyStr:
        return concretize(s.force())
    if t is SymStr or t is SymBytes:
        if any(type(c) is not int for c in s.c):
            cur.eng.stats["concretised"] += 1
        vals = [c if type(c) is int else cur.eng.pick_value(c) for c in s.c]
        if t is SymStr:
            r = "".join(map(chr, vals))
            register(r)
            return r
        return bytes(vals)
    return s


def deep_concretize(x):
    t = type(x)
    if t is SymStr or t is SymBytes or t is LazyStr:
        return concretize(x)
    if t is list:
        return [deep_concretize(i) for i in x]
    if t is tuple:
        return tuple(deep_concretize(i) for i in x)
    if t is dict:
        return {deep_concretize(k): deep_concretize(v) for k, v in x.items()}
    if t is set or t is frozenset:
        return t(deep_concretize(i) for i in x)
    return x


def pathchars(cs):
    """Replaces variables the path has pinned by their values (display, C calls)."""
    out = []
    for c in cs:
        if type(c) is not int:
            d = cur.eng.dom.get(c.name, c.dom)
            if not d & (d - 1):
                c = d.bit_length() - 1
        out.append(c)
    return out


_MASKS = {}


def class_mask(name, pred):
    m = _MASKS.get(name)
    if m is None:
        m = mask_of([i for i in range(NVAL) if pred(chr(i))])
        _MASKS[name] = m
    return m


SPACE = class_mask("isspace", str.isspace)


def decide(f):
    if f is True or f is False:
        return f
    return cur.eng.decide(f)


def in_mask(c, m):
    return decide(f_mask(c, m))


def _map_char(c, fname, fn):
    """fn(chr) for one character: identity characters stay as they are."""
    if type(c) is int:
        return tuple(map(ord, fn(chr(c))))
    m = class_mask("ident:" + fname, lambda x: fn(x) == x)
    if in_mask(c, m):
        return (c,)
    rest = cur.eng.dom.get(c.name, c.dom) & ~m
    vals = mask_values(rest)
    if len(vals) > 64 or any(len(fn(chr(v))) != 1 or ord(fn(chr(v))) >= NVAL for v in vals):
        return tuple(map(ord, fn(chr(cur.eng.pick_value(c)))))
    if len(vals) == 1:
        return (ord(fn(chr(vals[0]))),)
    img = {v: ord(fn(chr(v))) for v in vals}
    w = cur.eng.var(f"{fname}({c.name})", mask_of(img.values()))
    cur.eng.assume(f_or([f_and([f_mask(c, 1 << v), f_mask(w, 1 << x)]) for v, x in img.items()]))
    return (w,)


def _as_chars(x):
    if type(x) is SymStr:
        return x.c
    if type(x) is LazyStr:
        return chars(x)
    if isinstance(x, str):
        return tuple(map(ord, x))
    raise TypeError(f"expected str, got {type(x).__name__}")


class LazyStr:
    """Text computed only if something looks at it (messages)."""

    __slots__ = ("fn", "v")
    _sx_type = str

    def __init__(self, fn):
        self.fn, self.v = fn, None

    @property
    def __class__(self):
        return str

    def force(self):
        if self.v is None:
            v = self.fn()
            while type(v) is LazyStr:
                v = v.force()
            self.v = v
        return self.v

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return concretize(self.force())

    def __repr__(self):
        return "<lazy text>"

    def __format__(self, spec):
        return format(concretize(self.force()), spec)

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return bool(self.force())

    def __add__(self, o):
        if is_str(o):
            return LazyStr(lambda: sx_join("", [self, o]))
        return NotImplemented

    def __radd__(self, o):
        if is_str(o):
            return LazyStr(lambda: sx_join("", [o, self]))
        return NotImplemented

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(_methods(self.force()), name)


def _methods(s):
    return s if type(s) is SymStr else SymStr(tuple(map(ord, s)))


def _lazy_op(name):
    def op(self, *a):
        return getattr(_methods(self.force()), name)(*[x.force() if type(x) is LazyStr else x for x in a])
    return op


for _n in ("__len__", "__iter__", "__getitem__", "__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__",
           "__contains__", "__mod__", "__mul__"):
    setattr(LazyStr, _n, _lazy_op(_n))


class SymStr:
    __slots__ = ("c", "_h")

    def __init__(self, c):
        self.c = c
        self._h = None

    @property
    def __class__(self):
        return str

    # ---- basics
    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for c in self.c:
            yield mk((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.c[i])
        return mk((self.c[i],))

    def __eq__(self, o):
        if type(o) is LazyStr:
            o = o.force()
        if type(o) is SymStr:
            return decide(eq_chars(self.c, o.c))
        if isinstance(o, str):
            if len(o) != len(self.c):
                return False
            return decide(eq_chars(self.c, tuple(map(ord, o))))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _cmp(self, o, f):
        if type(o) is LazyStr:
            o = o.force()
        if type(o) is SymStr:
            return decide(f(self.c, o.c))
        if isinstance(o, str):
            return decide(f(self.c, tuple(map(ord, o))))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lt_chars)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt_chars(b, a))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: f_not(lt_chars(b, a)))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: f_not(lt_chars(a, b)))

    def __hash__(self):
        h = self._h
        if h is None:
            n = len(self.c)
            h = 0
            for reg in (cur.registry.get(n, ()), cur.path_registry.get(n, ())):
                for k in sorted(reg) if type(reg) is set else list(reg):
                    f = eq_chars(self.c, tuple(map(ord, k)))
                    if f is not False and decide(f):
                        h = hash(k)
                        break
                if h:
                    break
            self._h = h
            cur.hashed.setdefault(n, []).append(self)
        return h

    def __add__(self, o):
        if is_str(o):
            return mk(self.c + _as_chars(o))
        return NotImplemented

    def __radd__(self, o):
        if is_str(o):
            return mk(_as_chars(o) + self.c)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.c * n)

    __rmul__ = __mul__

    def __contains__(self, sub):
        return self._contains(_as_chars(sub))

    def _contains(self, sub):
        n, m = len(self.c), len(sub)
        return decide(f_or([eq_chars(self.c[i:i + m], sub) for i in range(n - m + 1)]))

    def __mod__(self, args):
        return percent(self, args)

    def __str__(self):
        return concretize(self)

    def __repr__(self):
        return "<sym %s>" % "".join(chr(c) if type(c) is int else "?" for c in self.c)

    def __format__(self, spec):
        return format(concretize(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic string")

    # ---- searching
    def _range(self, start, end):
        n = len(self.c)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = _as_chars(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if decide(eq_chars(self.c[i:i + len(sub)], sub)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = _as_chars(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if decide(eq_chars(self.c[i:i + len(sub)], sub)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        s, e = self._range(start, end)
        if len(sub) == 0:
            return max(0, e - s + 1)
        k = 0
        while True:
            i = self.find(sub, s, e)
            if i < 0:
                return k
            k += 1
            s = i + len(sub)

    def startswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        part = self.c[s:e]
        ps = p if isinstance(p, tuple) else (p,)
        return decide(f_or([eq_chars(part[:len(q)], _as_chars(q)) for q in ps if len(q) <= len(part)]))

    def endswith(self, p, start=None, end=None):
        s, e = self._range(start, end)
        part = self.c[s:e]
        ps = p if isinstance(p, tuple) else (p,)
        return decide(f_or([eq_chars(part[len(part) - len(q):], _as_chars(q)) for q in ps if len(q) <= len(part)]))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # ---- splitting
    def _strip_mask(self, cs):
        if cs is None:
            return SPACE
        cs = _as_chars(cs)
        m = 0
        for c in cs:
            if type(c) is not int:
                c = cur.eng.pick_value(c)
            m |= 1 << c
        return m

    def strip(self, cs=None):
        return self.lstrip(cs)[:].rstrip(cs)

    def lstrip(self, cs=None):
        m = self._strip_mask(cs)
        i = 0
        while i < len(self.c) and in_mask(self.c[i], m):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, cs=None):
        m = self._strip_mask(cs)
        i = len(self.c)
        while i > 0 and in_mask(self.c[i - 1], m):
            i -= 1
        return mk(self.c[:i])

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            i, n = 0, len(self.c)
            while i < n:
                while i < n and in_mask(self.c[i], SPACE):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mk(self.c[i:]).rstrip())
                    return out
                j = i
                while j < n and not in_mask(self.c[j], SPACE):
                    j += 1
                out.append(mk(self.c[i:j]))
                i = j
            return out
        if len(sep) == 0:
            raise ValueError("empty separator")
        s = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, s)
            if i < 0:
                break
            out.append(mk(self.c[s:i]))
            s = i + len(sep)
        out.append(mk(self.c[s:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return concretize(self).rsplit(sep, maxsplit)
        out = []
        e = len(self.c)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, e)
            if i < 0:
                break
            out.append(mk(self.c[i + len(sep):e]))
            e = i
        out.append(mk(self.c[:e]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        m = mask_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85")
        out = []
        i = s = 0
        n = len(self.c)
        while i < n:
            if in_mask(self.c[i], m):
                j = i + 1
                if j < n and decide(f_mask(self.c[i], 1 << 13)) and decide(f_mask(self.c[j], 1 << 10)):
                    j += 1
                out.append(mk(self.c[s:j if keepends else i]))
                i = s = j
            else:
                i += 1
        if s < n:
            out.append(mk(self.c[s:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mk(self.c[:i]), sep, mk(self.c[i + len(sep):]))

    # ---- building
    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if not is_str(x):
                raise TypeError(f"sequence item {k}: expected str instance")
            if k:
                out.extend(self.c)
            out.extend(_as_chars(x))
        return mk(out)

    def replace(self, old, new, count=-1):
        old_n = len(old)
        new = _as_chars(new)
        if old_n == 0:
            return concretize(self).replace(concretize(old), concretize(mk(new)), count)
        out = []
        s = k = 0
        while count < 0 or k < count:
            i = self.find(old, s)
            if i < 0:
                break
            out.extend(self.c[s:i])
            out.extend(new)
            s = i + old_n
            k += 1
        out.extend(self.c[s:])
        return mk(out)

    def _mapped(self, name, fn):
        out = []
        for c in self.c:
            out.extend(_map_char(c, name, fn))
        return mk(out)

    def lower(self):
        return self._mapped("lower", str.lower)

    def upper(self):
        return self._mapped("upper", str.upper)

    def casefold(self):
        return self._mapped("casefold", str.casefold)

    def ljust(self, w, fill=" "):
        return self + fill * max(0, w - len(self.c))

    def rjust(self, w, fill=" "):
        return fill * max(0, w - len(self.c)) + self

    def zfill(self, w):
        if len(self.c) >= w:
            return self
        return concretize(self).zfill(w)

    def encode(self, encoding="utf-8", errors="strict"):
        out = []
        limit = {"ascii": 128, "us-ascii": 128, "latin-1": 256, "latin1": 256}.get(str(encoding).lower(), 128)
        for c in self.c:
            if type(c) is int:
                out.extend(chr(c).encode(encoding, errors))
            elif in_mask(c, (1 << limit) - 1):
                out.append(c)
            else:
                out.extend(chr(cur.eng.pick_value(c)).encode(encoding, errors))
        return mkb(out)

    # ---- classes
    def _all(self, name, empty=False):
        if not self.c:
            return empty
        m = class_mask(name, getattr(str, name))
        return decide(f_and([f_mask(c, m) for c in self.c]))

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isspace(self):
        return self._all("isspace")

    def isprintable(self):
        return self._all("isprintable", True)

    def isascii(self):
        return self._all("isascii", True)

    def isidentifier(self):
        if not self.c:
            return False
        m0 = class_mask("id0", str.isidentifier)
        m1 = class_mask("id1", lambda x: ("a" + x).isidentifier())
        return decide(f_and([f_mask(self.c[0], m0), *[f_mask(c, m1) for c in self.c[1:]]]))

    def islower(self):
        up = class_mask("uppertitle", lambda x: x.isupper() or x.istitle())
        lo = class_mask("lower", str.islower)
        return decide(f_and([f_or([f_mask(c, lo) for c in self.c]), *[f_not(f_mask(c, up)) for c in self.c]]))

    def isupper(self):
        lo = class_mask("lowertitle", lambda x: x.islower() or (x.istitle() and not x.isupper()))
        up = class_mask("upper", str.isupper)
        return decide(f_and([f_or([f_mask(c, up) for c in self.c]), *[f_not(f_mask(c, lo)) for c in self.c]]))

    def __getattr__(self, name):
        # str methods without a model: fork over the feasible values
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute {name!r}")

        def method(*a, **k):
            return getattr(concretize(self), name)(
                *[deep_concretize(x) for x in a], **{n: deep_concretize(x) for n, x in k.items()})

        return method


def _as_bchars(x):
    if type(x) is SymBytes:
        return x.c
    return tuple(x)


class SymBytes:
    __slots__ = ("c", "_h")

    def __init__(self, c):
        self.c = c
        self._h = None

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for c in self.c:
            yield c if type(c) is int else cur.eng.pick_value(c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkb(self.c[i])
        c = self.c[i]
        return c if type(c) is int else cur.eng.pick_value(c)

    def __eq__(self, o):
        if type(o) is SymBytes or isinstance(o, (bytes, bytearray)):
            return decide(eq_chars(self.c, _as_bchars(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return decide(lt_chars(self.c, _as_bchars(o)))

    def __gt__(self, o):
        return decide(lt_chars(_as_bchars(o), self.c))

    def __hash__(self):
        # bytes never share a hash table with plain bytes constants of equal length
        return 0

    def __add__(self, o):
        if type(o) is SymBytes or isinstance(o, (bytes, bytearray)):
            return mkb(self.c + _as_bchars(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return mkb(_as_bchars(o) + self.c)
        return NotImplemented

    def __contains__(self, sub):
        if isinstance(sub, int):
            sub = bytes([sub])
        return self._str()._contains(_as_bchars(sub))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symb %s>" % "".join(chr(c) if type(c) is int else "?" for c in self.c)

    def __bytes__(self):
        return concretize(self)

    def _str(self):
        return SymStr(self.c)

    @staticmethod
    def _conv(x):
        if type(x) is SymStr:
            return mkb(x.c)
        if isinstance(x, str):
            return x.encode("latin-1")
        if isinstance(x, list):
            return [SymBytes._conv(i) for i in x]
        if isinstance(x, tuple):
            return tuple(SymBytes._conv(i) for i in x)
        return x

    @staticmethod
    def _arg(x):
        if type(x) is SymBytes:
            return SymStr(x.c)
        if isinstance(x, (bytes, bytearray)):
            return bytes(x).decode("latin-1")
        if isinstance(x, tuple):
            return tuple(SymBytes._arg(i) for i in x)
        return x

    def decode(self, encoding="utf-8", errors="strict"):
        enc = str(encoding).lower().replace("-", "").replace("_", "")
        limit = 256 if enc in ("latin1", "iso88591") else 128
        ok = f_and([f_mask(c, (1 << limit) - 1) for c in self.c])
        if decide(ok):
            return mk(self.c)
        return concretize(self).decode(encoding, errors)

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out.extend(self.c)
            out.extend(_as_bchars(x))
        return mkb(out)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(f"'bytes' object has no attribute {name!r}")
        if name in _BYTES_LIKE_STR:
            m = getattr(SymStr(self.c), name)

            def method(*a, **k):
                if name in ("strip", "lstrip", "rstrip", "split") and (not a or a[0] is None) and not k:
                    a = ()
                r = m(*[SymBytes._arg(x) for x in a], **{n: SymBytes._arg(x) for n, x in k.items()})
                return SymBytes._conv(r)

            return method

        def method2(*a, **k):
            return getattr(concretize(self), name)(*[deep_concretize(x) for x in a], **k)

        return method2


_BYTES_LIKE_STR = {
    "find", "rfind", "index", "rindex", "count", "startswith", "endswith", "removeprefix",
    "removesuffix", "strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition",
    "replace", "splitlines",
}


# ------------------------------------------------------------------ hash()
class SymHash(int):
    """Value of hash(): equal exactly when the hashed data are equal."""

    def __new__(cls, payload):
        self = int.__new__(cls, 7)
        self.payload = payload
        return self

    def __eq__(self, o):
        if type(o) is SymHash:
            return payload_eq(self.payload, o.payload)
        return False if isinstance(o, int) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 7

    def _op(self, name, o):
        a, b = ("h", self.payload), (("h", o.payload) if type(o) is SymHash else o)
        if name in ("xor", "add", "mul", "and", "or"):
            # commutative: compared as unordered pairs
            return SymHash(("comm", name, a, b))
        return SymHash(("op", name, a, b))

    def __xor__(self, o):
        return self._op("xor", o)

    __rxor__ = __xor__

    def __add__(self, o):
        return self._op("add", o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._op("mul", o)

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("arithmetic on hash()")

    def __and__(self, o):
        raise Unsupported("arithmetic on hash()")

    def __rshift__(self, o):
        raise Unsupported("arithmetic on hash()")

    def __lt__(self, o):
        raise Unsupported("order of hash()")

    __gt__ = __le__ = __ge__ = __lt__

    def __str__(self):
        raise Unsupported("text of hash()")

    __repr__ = __format__ = __str__

    def __deepcopy__(self, memo):
        return self


def payload_eq(a, b):
    """Native bool: equality of hashed data (forks)."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("comm",) == b[:1]:
        if a[1] != b[1]:
            return False
        return (payload_eq(a[2], b[2]) and payload_eq(a[3], b[3])) or (
            payload_eq(a[2], b[3]) and payload_eq(a[3], b[2]))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(payload_eq(x, y) for x, y in zip(a, b))
    if type(a) is SymHash and type(b) is SymHash:
        return payload_eq(a.payload, b.payload)
    try:
        return bool(a == b)
    except RecursionError:
        return False


def sx_hash(x):
    hash(x)  # unhashable data still raise TypeError
    return SymHash(x)


# ------------------------------------------------------------------ formatting
def contains_sym(x, depth=0):
    t = type(x)
    if t is SymStr or t is SymBytes or t is LazyStr:
        return True
    if depth > 6:
        return False
    if t in (list, tuple, set, frozenset):
        return any(contains_sym(i, depth + 1) for i in x)
    if t is dict:
        return any(contains_sym(k, depth + 1) or contains_sym(v, depth + 1) for k, v in x.items())
    if isinstance(x, (dict, list, set)):
        return contains_sym(dict(x) if isinstance(x, dict) else list(x), depth + 1)
    f = getattr(t, "__dataclass_fields__", None)
    if f:
        return any(contains_sym(getattr(x, n, None), depth + 1) for n in f)
    if isinstance(x, BaseException):
        return any(contains_sym(a, depth + 1) for a in x.args)
    return False


_QUOTE_BAD = None


def sx_repr(x):
    """repr() that keeps symbolic characters."""
    if contains_sym(x):
        return LazyStr(lambda: _sx_repr(x))
    return repr(x)


def _sx_repr(x):
    global _QUOTE_BAD
    t = type(x)
    if t is LazyStr:
        return _sx_repr(x.force())
    if t is SymStr:
        if _QUOTE_BAD is None:
            _QUOTE_BAD = mask_of([i for i in range(NVAL) if chr(i) in "'\"\\" or not chr(i).isprintable()])
        if decide(f_or([f_mask(c, _QUOTE_BAD) for c in x.c])):
            return repr(concretize(x))
        return "'" + x + "'"
    if t is SymBytes:
        return "b" + sx_repr(x.decode("latin-1"))
    if not contains_sym(x):
        return repr(x)
    if t is list:
        return "[" + sx_join(", ", [sx_repr(i) for i in x]) + "]"
    if t is tuple:
        return "(" + sx_join(", ", [sx_repr(i) for i in x]) + (",)" if len(x) == 1 else ")")
    if t is set:
        return "{" + sx_join(", ", [sx_repr(i) for i in x]) + "}"
    if t is frozenset:
        return "frozenset({" + sx_join(", ", [sx_repr(i) for i in x]) + "})"
    if isinstance(x, dict):
        body = "{" + sx_join(", ", [sx_repr(k) + ": " + sx_repr(v) for k, v in x.items()]) + "}"
        return body if t is dict else f"{t.__name__}(" + body + ")"
    f = getattr(t, "__dataclass_fields__", None)
    if f is not None and "__create_fn__" in getattr(t.__repr__, "__qualname__", "") or f is not None:
        parts = [n + "=" + sx_repr(getattr(x, n)) for n, fd in f.items() if fd.repr]
        return t.__qualname__ + "(" + sx_join(", ", parts) + ")"
    if isinstance(x, BaseException):
        return t.__name__ + sx_repr(x.args)
    return repr(x)


def sx_str(x):
    t = type(x)
    if t is SymStr or t is LazyStr:
        return x
    if t is str:
        return x
    if isinstance(x, BaseException) and t.__str__ is BaseException.__str__:
        if len(x.args) == 0:
            return ""
        if len(x.args) == 1:
            return sx_str(x.args[0])
        return sx_repr(x.args)
    if t in (list, tuple, set, frozenset, dict) or hasattr(t, "__dataclass_fields__"):
        if t.__str__ is object.__str__ and contains_sym(x):
            return sx_repr(x)
    return str(x)


def sx_join(sep, items):
    items = list(items)
    if any(type(x) is LazyStr for x in items):
        return LazyStr(lambda: sx_join(sep, [x.force() if type(x) is LazyStr else x for x in items]))
    out = []
    cs = chars(sep)
    for k, x in enumerate(items):
        if k:
            out.extend(cs)
        out.extend(chars(x))
    return mk(out)


def percent(fmt, args):
    """'%' formatting with %s, %r, %d and %(name)s."""
    import re

    if type(fmt) is SymStr:
        fmt = concretize(fmt)
    if not contains_sym(args):
        return fmt % args
    out = []
    pos = 0
    if not isinstance(args, (tuple, dict)):
        args = (args,)
    i = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([sdr%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(2) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = args[m.group(1)]
        else:
            v = args[i]
            i += 1
        out.append(sx_repr(v) if m.group(2) == "r" else sx_str(v))
    out.append(fmt[pos:])
    return sx_join("", out)
