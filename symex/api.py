"""The interface harnesses are written against: one scenario function, run
symbolically (SymS) over the instrumented product and concretely (ConS) over
the product as it is."""
from __future__ import annotations

from . import values
from .core import (Abort, Infeasible, f_and, f_iff, f_lt, f_mask, f_not, f_or, mask_of, mask_values)
from .values import SymBytes, SymStr, chars, cur, eq_chars, lt_chars, mk

ALL = "".join(map(chr, range(0, 0x800)))


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def refused(self, *types):
        return self.exc is not None and isinstance(self.exc, types)

    def __repr__(self):
        return f"ok({self.value!r})" if self.ok else f"raised({type(self.exc).__name__})"


class Base:
    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:  # noqa: BLE001
            e.__traceback__ = None
            return Outcome(exc=e)
        except SystemExit as e:
            return Outcome(exc=e)

    def flag(self, name):
        return self.pick(name, (False, True))

    def int(self, name, lo, hi):
        return self.pick(name, tuple(range(lo, hi + 1)))

    def strv(self, name, lens, alphabet):
        n = self.pick(name + ".len", tuple(lens))
        return self.str(f"{name}_{n}", n, alphabet)

    def perm(self, name, items):
        """A symbolic permutation of a list."""
        items = list(items)
        out = []
        k = 0
        while items:
            i = self.pick(f"{name}.{k}", tuple(range(len(items)))) if len(items) > 1 else 0
            out.append(items.pop(i))
            k += 1
        return out

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)


def _fields(x):
    return getattr(type(x), "__dataclass_fields__", None)


def grown(S, name, n):
    """Shapes with "grow": one-character names (all, or those with these words in their input's
    name) have one or two characters, so that one may begin with another."""
    g = S.p.get("grow") if n == 1 and isinstance(S.p, dict) else None
    if not g or g is not True and not any(x in name for x in g) or any(x in name for x in S.p.get("short", ())):
        return n
    return S.pick(name + ".grow", (1, 2))


def affix(p, name, n):
    """What a shape puts before every non-empty string (except the named ones)."""
    k = p.get("long") if isinstance(p, dict) else None
    if not k or not n or any(x in name for x in p.get("short", ())) or not any(x in name for x in p.get("only", [""])):
        return ""
    return "y" * k


class SymS(Base):
    concrete = False

    def __init__(self, eng, shape, eager=False, findings=()):
        self.eng = eng
        self.p = shape
        self.eager = eager
        self.known = findings
        self.inputs = {}      # name -> ('s', chars) | ('p', var or index)
        self.candidates = []
        self.covers = set()
        self.observations = []
        self.found = []
        self.notes = []

    # -- inputs
    def str(self, name, n, alphabet):
        n = grown(self, name, n)
        dom = alphabet if isinstance(alphabet, int) else mask_of(alphabet)
        cs = tuple(self.eng.var(f"{name}.{i}", dom) for i in range(n))
        if name in self.inputs:
            raise RuntimeError(f"input {name} declared twice")
        self.inputs[name] = ("s", cs)
        if self.eager:
            cs = tuple(self.eng.pick_value(c) for c in cs)
        if not cs:
            return ""
        return mk(tuple(map(ord, affix(self.p, name, n))) + cs)

    def pick(self, name, options):
        options = tuple(options)
        if len(options) == 1:
            return options[0]
        v = self.eng.var(name, (1 << len(options)) - 1)
        self.inputs[name] = ("p", v)
        return options[self.eng.pick_value(v)]

    # -- formulas
    def eq(self, a, b):
        if type(a) is values.LazyStr:
            a = a.force()
        if type(b) is values.LazyStr:
            b = b.force()
        ta, tb = type(a), type(b)
        sa, sb = ta is SymStr or isinstance(a, str), tb is SymStr or isinstance(b, str)
        if sa or sb:
            if not (sa and sb):
                return False
            if ta not in (SymStr, str) or tb not in (SymStr, str):
                return bool(a == b)
            return eq_chars(chars(a), chars(b))
        ba, bb = ta is SymBytes or ta is bytes, tb is SymBytes or tb is bytes
        if ba or bb:
            return ba and bb and eq_chars(values.bchars(a), values.bchars(b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
                return False
            return f_and([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            fs = []
            for k, v in a.items():
                if k not in b:
                    return False
                fs.append(self.eq(v, b[k]))
            return f_and(fs)
        if _fields(a) is not None and _fields(b) is not None:
            if ta is not tb:
                return False
            return f_and([self.eq(getattr(a, f), getattr(b, f)) for f in _fields(a)])
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return len(a) == len(b) and all(x in b for x in a)
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return bool(a == b)

    def lt(self, a, b):
        return lt_chars(chars(a), chars(b))

    def all_in(self, s, alphabet):
        m = alphabet if isinstance(alphabet, int) else mask_of(alphabet)
        return f_and([f_mask(c, m) for c in chars(s)])

    def any_in(self, s, alphabet):
        m = alphabet if isinstance(alphabet, int) else mask_of(alphabet)
        return f_or([f_mask(c, m) for c in chars(s)])

    def And(self, *fs):
        return f_and([_f(f) for f in fs])

    def Or(self, *fs):
        return f_or([_f(f) for f in fs])

    def Not(self, f):
        return f_not(_f(f))

    def Iff(self, a, b):
        return f_iff(_f(a), _f(b))

    def decide(self, f):
        """Branches on a formula."""
        return values.decide(_f(f))

    # -- verdicts
    def assume(self, f):
        f = _f(f)
        if f is True:
            return
        self.eng.assume(f)

    def check(self, f, key, msg="", finding=None):
        f = _f(f)
        eng = self.eng
        self.covers.add("check:" + key)
        if finding is not None and finding[0] in self.known:
            fid, cond = finding
            cond = _f(cond)
            m = eng.refute(f_or([f, cond]))
            if m is not None:
                self._candidate(m, key, msg)
                eng.assume(f_or([f, cond]))
            m = eng.refute(f)
            if m is not None:
                self.found.append((fid, self.assignment(m), key))
                eng.assume(f)
            return
        m = eng.refute(f)
        if m is not None:
            self._candidate(m, key, msg)
            eng.assume(f)

    def _candidate(self, model, key, msg):
        msg = msg.force() if type(msg) is values.LazyStr else msg
        self.candidates.append((self.assignment(model, True), str(key), str(self.view(msg, model))))

    def fail(self, key, msg=""):
        self.check(False, key, msg)

    def assignment(self, model, digests=False):
        out = {}
        if digests:
            # first digits of SHA-256 as the solver chose them (injectively)
            d = [[bytes(_val(c, model) for c in p).hex(), "".join(chr(_val(c, model)) for c in o.c[:8])]
                 for p, o in values.cur.digests if type(o) is values.SymStr]
            if d:
                out["#sha256"] = d
        for name, (kind, v) in self.inputs.items():
            if kind == "s":
                out[name] = "".join(chr(_val(c, model)) for c in v)
            else:
                out[name] = _val(v, model)
        return out

    def cover(self, tag):
        self.covers.add(tag)

    def observe(self, name, value):
        self.observations.append((name, _forced(value)))

    def view(self, x, model, depth=0):
        return _view(x, lambda c: _val(c, model), depth)


def _forced(x, depth=0):
    t = type(x)
    if t is values.LazyStr:
        return x.force()
    if depth > 6:
        return x
    if t is Outcome and x.ok:
        return Outcome(_forced(x.value, depth + 1))
    if t in (list, tuple):
        return t(_forced(i, depth + 1) for i in x)
    if t is dict:
        return {_forced(k, depth + 1): _forced(v, depth + 1) for k, v in x.items()}
    f = None if isinstance(x, type) else _fields(x)
    if f is not None:
        # as it is now; the scenario may change it later
        y = object.__new__(t)
        for n in f:
            object.__setattr__(y, n, _forced(getattr(x, n), depth + 1))
        return y
    return x


def _val(c, model):
    if type(c) is int:
        return c
    x = model.get(c.name)
    if x is None:
        x = (c.dom & -c.dom).bit_length() - 1
    return x


def _f(f):
    if f is True or f is False or isinstance(f, tuple):
        return f
    return bool(f)


def _view(x, val, depth=0):
    t = type(x)
    if depth > 12:
        return "..."
    if t is values.LazyStr:
        return "<lazy>" if x.v is None else _view(x.v, val, depth)
    if t is SymStr:
        return "".join(chr(val(c)) for c in x.c)
    if t is SymBytes:
        return "b:" + "".join(chr(val(c)) for c in x.c)
    if t is bytes:
        return "b:" + x.decode("latin-1")
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str) and t is str:
        return x
    if isinstance(x, (list, tuple)):
        return [_view(i, val, depth + 1) for i in x]
    if isinstance(x, dict):
        return {"__dict__": [[_view(k, val, depth + 1), _view(v, val, depth + 1)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        import json

        return {"__set__": sorted([_view(i, val, depth + 1) for i in x], key=lambda v: str(v))}
    if isinstance(x, BaseException):
        return {"__exc__": t.__name__}
    if isinstance(x, Outcome):
        return {"__ok__": _view(x.value, val, depth + 1)} if x.ok else _view(x.exc, val, depth + 1)
    f = _fields(x)
    if f is not None:
        return {"__cls__": t.__name__, **{n: _view(getattr(x, n), val, depth + 1) for n in f}}
    if isinstance(x, type):
        return x.__name__
    if hasattr(t, "native"):
        return _view(x.data, val, depth + 1) if hasattr(x, "data") else t.__name__
    return t.__name__


class Violated(BaseException):
    pass


class ConS(Base):
    """Concrete run of the scenario for one assignment."""

    concrete = True
    eager = True

    def __init__(self, assignment, shape, findings=()):
        self.a = assignment
        self.p = shape
        self.known = findings
        self.failures = []
        self.found = []
        self.observations = []
        self.covers = set()
        self.inputs = {}
        self.candidates = []

    def str(self, name, n, alphabet):
        n = grown(self, name, n)
        s = self.a.get(name)
        if s is None or len(s) != n:
            dom = alphabet if isinstance(alphabet, int) else mask_of(alphabet)
            s = chr((dom & -dom).bit_length() - 1) * n
        return affix(self.p, name, n) + s

    def pick(self, name, options):
        options = tuple(options)
        if len(options) == 1:
            return options[0]
        return options[min(self.a.get(name, 0), len(options) - 1)]

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return (len(a) == len(b) and isinstance(a, list) == isinstance(b, list)
                    and all(self.eq(x, y) for x, y in zip(a, b)))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.eq(v, b[k]) for k, v in a.items())
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if _fields(a) is not None and _fields(b) is not None:
            return type(a) is type(b) and all(self.eq(getattr(a, f), getattr(b, f)) for f in _fields(a))
        return bool(a == b)

    def lt(self, a, b):
        return a < b

    def _al(self, alphabet):
        return set(map(chr, mask_values(alphabet))) if isinstance(alphabet, int) else alphabet

    def all_in(self, s, alphabet):
        al = self._al(alphabet)
        return all(c in al for c in s)

    def any_in(self, s, alphabet):
        al = self._al(alphabet)
        return any(c in al for c in s)

    def And(self, *fs):
        return all(bool(f) for f in fs)

    def Or(self, *fs):
        return any(bool(f) for f in fs)

    def Not(self, f):
        return not f

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def decide(self, f):
        return bool(f)

    def assume(self, f):
        if not f:
            raise Infeasible

    def check(self, f, key, msg="", finding=None):
        if not f:
            if finding is not None and finding[0] in self.known and finding[1]:
                self.found.append((finding[0], key))
                raise Abort
            self.failures.append((key, msg))
            raise Violated

    def fail(self, key, msg=""):
        self.check(False, key, msg)

    def cover(self, tag):
        self.covers.add(tag)

    def observe(self, name, value):
        self.observations.append((name, self.view(value)))

    def view(self, x, model=None, depth=0):
        return _view(x, None, depth)
