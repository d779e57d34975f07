"""Path-exploration engine: symbolic characters, formulas, z3 back end, DFS by
re-execution.

A symbolic variable ranges over a subset of 0..2047 (a bit mask: code points of
symbolic characters, or option numbers of symbolic choices).  Formulas are small
tuples; every branch on a formula that is not decided by the variables' current
domains is put to z3 under the path condition, and every feasible outcome is
explored.
"""
from __future__ import annotations

import time
import zlib

W = 11
NVAL = 1 << W
FULL = (1 << NVAL) - 1


class Abort(BaseException):
    """Ends the current path (infeasible assumption or finished violation)."""


class Infeasible(Abort):
    pass


class Unsupported(BaseException):
    """The symbolic values cannot follow the code here."""


class SolverUnknown(BaseException):
    pass


class NonDeterminism(BaseException):
    pass


class Var:
    __slots__ = ("name", "dom", "z", "base")

    def __init__(self, name, dom, base=None):
        self.name = name
        self.base = base or name
        self.dom = dom
        self.z = None

    def __repr__(self):
        return f"<{self.name}>"


def low(mask):
    return (mask & -mask).bit_length() - 1


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << (c if isinstance(c, int) else ord(c))
    return m


def mask_values(mask):
    out = []
    while mask:
        b = mask & -mask
        out.append(b.bit_length() - 1)
        mask ^= b
    return out


def ranges(mask):
    """Bit mask -> list of (lo, hi)."""
    out = []
    while mask:
        lo = low(mask)
        m = mask >> lo
        n = low(~m)
        out.append((lo, lo + n - 1))
        mask = (m >> n) << (lo + n)
    return out


# ---------------------------------------------------------------- formulas
# True | False | ('in', v, mask) | ('eq', v, w) | ('lt', v, w)
# | ('and', (f, ...)) | ('or', (f, ...)) | ('not', f)


def f_in(v, mask):
    return ("in", v, mask)


def f_eq(a, b):
    """Equality of two characters (int or Var)."""
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        if not (0 <= b < NVAL) or not (a.dom >> b) & 1:
            return False
        return ("in", a, 1 << b)
    if a is b:
        return True
    if not a.dom & b.dom:
        return False
    if a.name > b.name:
        a, b = b, a
    return ("eq", a, b)


def f_lt(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a < b
        if a >= NVAL:
            return False
        return f_mask(b, FULL & ~((1 << (a + 1)) - 1))
    if isinstance(b, int):
        return f_mask(a, (1 << b) - 1 if b < NVAL else FULL)
    if a is b:
        return False
    return ("lt", a, b)


def f_mask(c, mask):
    """Membership of a character (int or Var) in a set."""
    if isinstance(c, int):
        return bool((mask >> c) & 1) if c < NVAL else False
    m = c.dom & mask
    if m == c.dom:
        return True
    if not m:
        return False
    return ("in", c, m)


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "not":
        return f[1]
    if f[0] == "in":
        return ("in", f[1], f[1].dom & ~f[2])
    return ("not", f)


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def f_iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return f_not(b)
    if b is False:
        return f_not(a)
    return f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])])


def fvars(f, acc):
    if f is True or f is False:
        return acc
    k = f[0]
    if k == "in":
        acc[f[1].name] = f[1]
    elif k in ("eq", "lt"):
        acc[f[1].name] = f[1]
        acc[f[2].name] = f[2]
    elif k == "not":
        fvars(f[1], acc)
    else:
        for g in f[1]:
            fvars(g, acc)
    return acc


class Engine:
    """Explores all paths of one scenario below a given decision prefix."""

    def __init__(self):
        import z3

        self.z3 = z3
        self.solver = z3.Solver()
        self.vars = {}
        self.zcache = {}
        self.levels = []  # per solver level: list of var names whose domain was added
        self.dom_added = set()
        self.stats = {
            "paths": 0, "infeasible": 0, "branches": 0, "forks": 0, "queries": 0,
            "solver_s": 0.0, "obligations": 0, "trivial": 0, "concretised": 0,
        }
        self.trail = []
        self.pending = []
        self.reset_path()

    # -------------------------------------------------------------- variables
    def var(self, name, dom):
        # the domain is part of the variable's identity, in every process alike
        key = (name, dom)
        v = self.vars.get(key)
        if v is None:
            v = Var(f"{name}#{zlib.crc32(b'%x' % dom):08x}", dom, name)
            v.z = self.z3.BitVec(v.name, W)
            self.vars[key] = v
        return v

    # -------------------------------------------------------------- paths
    def reset_path(self):
        self.pos = 0
        self.dom = {}
        self.fresh = 0
        self.path_state = {}

    def start(self, prefix, model):
        """prefix: list of (kind, value[, formula]); model: dict name->value."""
        self._pop_to(0)
        self.trail = [[t[0], t[1], None, t[2] if len(t) > 2 else None] for t in prefix]
        self.nprefix = len(self.trail)
        self.pushed = [False] * len(self.trail)
        self.model = dict(model)
        self.pending = []
        self.reset_path()

    def backtrack(self):
        """Moves to the next unexplored alternative; False if there is none."""
        if not self.pending:
            return False
        depth, val, model = self.pending.pop()
        # solver levels: one per trail entry that pushed
        self._pop_trail(depth)
        _kind, _v, f, hint = self.trail[depth]
        del self.trail[depth:]
        del self.pushed[depth:]
        self.trail.append(["b", val, f, hint])
        self._push(f if val else f_not(f))
        self.pushed.append(True)
        self.model = model
        self.reset_path()
        return True

    def export_pending(self):
        out = []
        for depth, val, model in self.pending:
            pre = [(k, v, h) for k, v, _f, h in self.trail[:depth]] + [("b", val, self.trail[depth][3])]
            out.append((pre, model))
        self.pending = []
        return out

    def export_current(self):
        """The alternative the engine was just moved to."""
        return [(k, v, h) for k, v, _f, h in self.trail], dict(self.model)

    # -------------------------------------------------------------- solver
    def _zdom(self, v):
        return self._zin(v, v.dom)

    def _zin(self, v, mask):
        z3 = self.z3
        key = (v.name, mask)
        r = self.zcache.get(key)
        if r is None:
            ors = []
            for lo, hi in ranges(mask):
                if lo == hi:
                    ors.append(v.z == lo)
                elif lo == 0:
                    ors.append(z3.ULE(v.z, hi))
                elif hi == NVAL - 1:
                    ors.append(z3.UGE(v.z, lo))
                else:
                    ors.append(z3.And(z3.UGE(v.z, lo), z3.ULE(v.z, hi)))
            r = ors[0] if len(ors) == 1 else (z3.Or(ors) if ors else z3.BoolVal(False))
            self.zcache[key] = r
        return r

    def _z(self, f):
        z3 = self.z3
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k == "in":
            return self._zin(f[1], f[2])
        if k == "eq":
            return f[1].z == f[2].z
        if k == "lt":
            return z3.ULT(f[1].z, f[2].z)
        if k == "not":
            return z3.Not(self._z(f[1]))
        if k == "and":
            return z3.And([self._z(g) for g in f[1]])
        return z3.Or([self._z(g) for g in f[1]])

    def _push(self, f):
        self.solver.push()
        added = []
        for name, v in fvars(f, {}).items():
            if name not in self.dom_added:
                self.dom_added.add(name)
                added.append(name)
                self.solver.add(self._zdom(v))
        self.solver.add(self._z(f))
        self.levels.append(added)

    def _pop_to(self, n):
        k = len(self.levels) - n
        if k > 0:
            self.solver.pop(k)
            for added in self.levels[n:]:
                self.dom_added.difference_update(added)
            del self.levels[n:]

    def _pop_trail(self, depth):
        n = sum(1 for p in self.pushed[:depth] if p)
        self._pop_to(n)

    def _check(self, f):
        """sat? of PC and f.  Returns model dict or None."""
        t = time.perf_counter()
        self._push(f)
        r = self.solver.check()
        model = None
        if r == self.z3.sat:
            zm = self.solver.model()
            model = dict(self.model)
            for d in zm.decls():
                model[d.name()] = zm[d].as_long()
        self._pop_to(len(self.levels) - 1)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        if r == self.z3.unknown:
            raise SolverUnknown(str(f))
        return model

    # -------------------------------------------------------------- evaluation
    def val(self, v):
        x = self.model.get(v.name)
        return low(v.dom) if x is None else x

    def ev(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "in":
            return bool((f[2] >> self.val(f[1])) & 1)
        if k == "eq":
            return self.val(f[1]) == self.val(f[2])
        if k == "lt":
            return self.val(f[1]) < self.val(f[2])
        if k == "not":
            return not self.ev(f[1])
        if k == "and":
            return all(self.ev(g) for g in f[1])
        return any(self.ev(g) for g in f[1])

    def simp(self, f):
        """Simplify under the path's current variable domains."""
        if f is True or f is False:
            return f
        k = f[0]
        dom = self.dom
        if k == "in":
            d = dom.get(f[1].name, f[1].dom)
            m = d & f[2]
            if m == d:
                return True
            if not m:
                return False
            return f
        if k == "eq":
            a = dom.get(f[1].name, f[1].dom)
            b = dom.get(f[2].name, f[2].dom)
            if not a & b:
                return False
            if not a & (a - 1):
                if a == b:
                    return True
                return ("in", f[2], a)
            if not b & (b - 1):
                return ("in", f[1], b)
            return f
        if k == "lt":
            a = dom.get(f[1].name, f[1].dom)
            b = dom.get(f[2].name, f[2].dom)
            if a.bit_length() - 1 < low(b):
                return True
            if low(a) >= b.bit_length() - 1:
                return False
            return f
        if k == "not":
            return f_not(self.simp(f[1]))
        if k == "and":
            out = []
            for g in f[1]:
                g = self.simp(g)
                if g is False:
                    return False
                if g is not True:
                    out.append(g)
            return f_and(out)
        out = []
        for g in f[1]:
            g = self.simp(g)
            if g is True:
                return True
            if g is not False:
                out.append(g)
        return f_or(out)

    def _narrow(self, f):
        """Domain propagation for a formula now known to hold."""
        k = f[0]
        if k == "in":
            v = f[1]
            self.dom[v.name] = self.dom.get(v.name, v.dom) & f[2]
        elif k == "eq":
            a, b = f[1], f[2]
            m = self.dom.get(a.name, a.dom) & self.dom.get(b.name, b.dom)
            self.dom[a.name] = m
            self.dom[b.name] = m
        elif k == "and":
            for g in f[1]:
                self._narrow(g)
        elif k == "not" and f[1][0] == "or":
            for g in f[1][1]:
                self._narrow(f_not(g))
        elif k == "not" and f[1][0] == "in":
            self._narrow(f_not(f[1]))

    # -------------------------------------------------------------- the two primitives
    def decide(self, f, hint=None):
        f = self.simp(f)
        if f is True or f is False:
            return f
        self.stats["branches"] += 1
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            t = self.trail[i]
            if t[0] == "a":
                raise NonDeterminism(f"assume/branch mismatch at {i}")
            if t[2] is None:
                t[2] = f
                if t[0] == "b":
                    self._push(f if t[1] else f_not(f))
                    self.pushed[i] = True
            elif t[2] != f:
                raise NonDeterminism(f"decision {i}: {t[2]} vs {f}")
            g = f if t[1] else f_not(f)
            self._narrow(g)
            return t[1]
        val = self.ev(f)
        other = f_not(f) if val else f
        m = self._check(other)
        if m is None:
            self.trail.append(["f", val, f, hint])
            self.pushed.append(False)
        else:
            self.stats["forks"] += 1
            self.pending.append((i, not val, m))
            self.trail.append(["b", val, f, hint])
            self._push(f if val else f_not(f))
            self.pushed.append(True)
        self._narrow(f if val else f_not(f))
        return val

    def assume(self, f):
        f = self.simp(f)
        if f is True:
            return
        if f is False:
            raise Infeasible
        i = self.pos
        self.pos += 1
        if i < len(self.trail):
            t = self.trail[i]
            if t[0] != "a":
                raise NonDeterminism(f"assume/branch mismatch at {i}")
            if t[2] is None:
                t[2] = f
                self._push(f)
                self.pushed[i] = True
            elif t[2] != f:
                raise NonDeterminism(f"assumption {i}")
            self._narrow(f)
            return
        if not self.ev(f):
            m = self._check(f)
            if m is None:
                raise Infeasible
            self.model = m
        self.trail.append(["a", True, f, None])
        self._push(f)
        self.pushed.append(True)
        self._narrow(f)

    def refute(self, f):
        """None if PC implies f, else a model of PC and not f."""
        self.stats["obligations"] += 1
        f = self.simp(f)
        if f is True:
            self.stats["trivial"] += 1
            return None
        if f is False:
            return dict(self.model)
        if not self.ev(f):
            return dict(self.model)
        return self._check(f_not(f))

    def pick_value(self, v):
        """Concretise a variable by forking over its feasible values."""
        while True:
            d = self.dom.get(v.name, v.dom)
            if not d & (d - 1):
                return low(d)
            x = None
            if self.pos < len(self.trail):
                x = self.trail[self.pos][3]
            if x is None:
                x = self.val(v)
            if not (d >> x) & 1:
                raise NonDeterminism(f"value {x} of {v.name}")
            if self.decide(("in", v, 1 << x), x):
                return x

    def pc(self):
        return [f if v else f_not(f) for _k, v, f, _h in self.trail[: self.pos]]
