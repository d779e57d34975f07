"""Symbolic regular-expression matching.

A backtracking matcher over the parse tree of Python's own `re` parser.  The
search order is the one of `re` (first alternative first, greedy and lazy
repeats), every character test forks the path, so on each path the matcher
takes exactly the branch the real engine takes.
"""
from __future__ import annotations

import re
import re._compiler as _compiler
import re._constants as C
import re._parser as _parser

from .core import NVAL, Unsupported, f_mask, mask_of
from .values import (LazyStr, SymBytes, SymStr, concretize, cur, decide, eq_chars, is_sym, mk, mkb)

_masks = {}
_parsed = {}

SINGLE = {C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY, C.RANGE}


def _single(node, flags):
    key = (repr(node), flags)
    r = _masks.get(key)
    if r is None:
        st = _parser.State()
        st.flags = flags
        sp = _parser.SubPattern(st, [node])
        st.str = ""
        pat = _compiler.compile(sp, flags)
        r = (mask_of([i for i in range(NVAL) if pat.fullmatch(chr(i))]), pat)
        _masks[key] = r
    return r


def _parse(pat):
    r = _parsed.get(pat)
    if r is None:
        p = pat.pattern
        if isinstance(p, bytes):
            p = p.decode("latin-1")
            flags = (pat.flags | re.ASCII) & ~re.LOCALE
        else:
            flags = pat.flags
        r = (_parser.parse(p, flags & ~re.DEBUG), flags)
        _parsed[pat] = r
    return r


class _Matcher:
    def __init__(self, pat, cs):
        self.tree, self.flags = _parse(pat)
        self.cs = cs
        self.n = len(cs)

    def test(self, node, flags, c):
        mask, pat = _single(node, flags)
        if type(c) is int:
            return bool((mask >> c) & 1) if c < NVAL else bool(pat.fullmatch(chr(c)))
        return decide(f_mask(c, mask))

    def word(self, i):
        if i < 0 or i >= self.n:
            return False
        return self.test((C.IN, [(C.CATEGORY, C.CATEGORY_WORD)]), self.flags, self.cs[i])

    def newline(self, i):
        c = self.cs[i]
        return c == 10 if type(c) is int else decide(f_mask(c, 1 << 10))

    def at(self, where, pos):
        if where is C.AT_BEGINNING_STRING:
            return pos == 0
        if where is C.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(self.flags & re.MULTILINE) and self.newline(pos - 1)
        if where is C.AT_END_STRING:
            return pos == self.n
        if where is C.AT_END:
            if pos == self.n:
                return True
            if self.flags & re.MULTILINE:
                return self.newline(pos)
            return pos == self.n - 1 and self.newline(pos)
        if where is C.AT_BOUNDARY:
            return self.word(pos - 1) != self.word(pos)
        if where is C.AT_NON_BOUNDARY:
            return self.n > 0 and self.word(pos - 1) == self.word(pos)
        raise Unsupported(f"regex anchor {where}")

    def m(self, seq, i, pos, g, flags, k):
        """Matches seq[i:] at pos, then continuation k(pos, groups); None if impossible."""
        while True:
            if i == len(seq):
                return k(pos, g)
            op, av = seq[i]
            if op in SINGLE:
                if pos >= self.n or not self.test((op, av), flags, self.cs[pos]):
                    return None
                pos += 1
                i += 1
                continue
            if op is C.AT:
                if not self.at(av, pos):
                    return None
                i += 1
                continue
            break

        def rest(p, gg):
            return self.m(seq, i + 1, p, gg, flags, k)

        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(alt, 0, pos, g, flags, rest)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            fl = (flags | add) & ~rem
            if gid is None:
                return self.m(sub, 0, pos, g, fl, rest)

            def close(p, gg):
                gg = dict(gg)
                gg[gid] = (pos, p)
                gg["last"] = gid
                return rest(p, gg)

            return self.m(sub, 0, pos, g, fl, close)
        if op is C.MAX_REPEAT or op is C.MIN_REPEAT:
            lo, hi, sub = av
            if op is C.MAX_REPEAT and len(sub) == 1 and sub[0][0] in SINGLE:
                end = pos
                while end < self.n and (hi is C.MAXREPEAT or end - pos < hi) and self.test(sub[0], flags, self.cs[end]):
                    end += 1
                for p in range(end, pos + lo - 1, -1):
                    r = rest(p, g)
                    if r is not None:
                        return r
                return None
            return self.rep(op is C.MAX_REPEAT, lo, hi, sub, 0, pos, -1, g, flags, rest)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            r = self.rep(True, lo, hi, sub, 0, pos, -1, g, flags, lambda p, gg: (p, gg))
            return None if r is None else rest(*r)
        if op is C.ATOMIC_GROUP:
            r = self.m(av, 0, pos, g, flags, lambda p, gg: (p, gg))
            return None if r is None else rest(*r)
        if op is C.ASSERT or op is C.ASSERT_NOT:
            direction, sub = av
            if direction >= 0:
                r = self.m(sub, 0, pos, g, flags, lambda p, gg: (p, gg))
            else:
                lo, hi = sub.getwidth()
                r = None
                if lo == hi and pos - lo >= 0:
                    r = self.m(sub, 0, pos - lo, g, flags,
                               lambda p, gg: (p, gg) if p == pos else None)
            if op is C.ASSERT:
                return None if r is None else rest(pos, r[1])
            return rest(pos, g) if r is None else None
        if op is C.GROUPREF:
            span = g.get(av)
            if span is None:
                return None
            part = self.cs[span[0]:span[1]]
            if not decide(eq_chars(self.cs[pos:pos + len(part)], part)):
                return None
            return rest(pos + len(part), g)
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            sub = yes if gid in g else no
            return rest(pos, g) if sub is None else self.m(sub, 0, pos, g, flags, rest)
        raise Unsupported(f"regex node {op}")

    def rep(self, greedy, lo, hi, sub, n, pos, last, g, flags, k):
        if n >= lo and pos == last:
            return k(pos, g)  # empty iteration: stop

        def more():
            if hi is not C.MAXREPEAT and n >= hi:
                return None
            return self.m(sub, 0, pos, g, flags,
                          lambda p, gg: self.rep(greedy, lo, hi, sub, n + 1, p, pos, gg, flags, k))

        if n < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else k(pos, g)
        r = k(pos, g)
        return r if r is not None else more()


class SymMatch:
    def __init__(self, pat, string, cs, start, end, groups, mkfn):
        self.re = pat
        self.string = string
        self._cs = cs
        self._g = dict(groups)
        self.lastindex = self._g.pop("last", None)
        self._g[0] = (start, end)
        self._mk = mkfn
        self.pos, self.endpos = 0, len(cs)

    def _idx(self, i):
        return i if isinstance(i, int) else self.re.groupindex[i]

    def _one(self, i, default=None):
        i = self._idx(i)
        if i > self.re.groups:
            raise IndexError("no such group")
        s = self._g.get(i)
        return default if s is None else self._mk(self._cs[s[0]:s[1]])

    def group(self, *a):
        if not a:
            return self._one(0)
        if len(a) == 1:
            return self._one(a[0])
        return tuple(self._one(i) for i in a)

    def __getitem__(self, i):
        return self._one(i)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    @property
    def lastgroup(self):
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                return n
        return None

    def span(self, i=0):
        return self._g.get(self._idx(i), (-1, -1))

    def start(self, i=0):
        return self.span(i)[0]

    def end(self, i=0):
        return self.span(i)[1]

    def expand(self, t):
        raise Unsupported("Match.expand")


def _prep(pat, s):
    if type(s) is LazyStr:
        s = s.force()
    if type(s) is SymStr or isinstance(s, str):
        return (s.c if type(s) is SymStr else tuple(map(ord, s))), mk
    return (s.c if type(s) is SymBytes else tuple(s)), mkb


def _run(pat, s, pos, full, search, advance=False):
    cs, mkfn = _prep(pat, s)
    mt = _Matcher(pat, cs)
    ends = range(pos, len(cs) + 1) if search else (pos,)
    for st in ends:
        def done(p, g):
            if (full and p != len(cs)) or (advance and p == pos):
                return None
            return (p, g)

        r = mt.m(mt.tree, 0, st, {}, mt.flags, done)
        if r is not None:
            return SymMatch(pat, s, cs, st, r[0], r[1], mkfn)
    return None


def _clip(s, pos, endpos):
    if endpos is not None and endpos < len(s):
        s = s[:endpos]
    return s, (min(pos, len(s)) if pos else 0)


class RxPattern:
    """The methods of re.Pattern for symbolic subjects."""

    @staticmethod
    def fullmatch(pat, s, pos=0, endpos=None):
        s, pos = _clip(s, pos, endpos)
        return _run(pat, s, pos, True, False)

    @staticmethod
    def match(pat, s, pos=0, endpos=None):
        s, pos = _clip(s, pos, endpos)
        return _run(pat, s, pos, False, False)

    @staticmethod
    def search(pat, s, pos=0, endpos=None):
        s, pos = _clip(s, pos, endpos)
        return _run(pat, s, pos, False, True)

    @staticmethod
    def finditer(pat, s, pos=0, endpos=None):
        s, pos = _clip(s, pos, endpos)
        out = []
        advance = False
        while pos <= len(s):
            m = _run(pat, s, pos, False, True, advance)
            if m is None:
                break
            out.append(m)
            advance = m.end() == m.start()
            pos = m.end()
        return iter(out)

    @staticmethod
    def findall(pat, s, *a):
        out = []
        for m in RxPattern.finditer(pat, s, *a):
            n = pat.groups
            e = s[:0] if is_sym(s) else s[:0]
            out.append(m.group() if n == 0 else (m.groups(e)[0] if n == 1 else m.groups(e)))
        return out

    @staticmethod
    def split(pat, s, maxsplit=0):
        out = []
        pos = 0
        k = 0
        for m in RxPattern.finditer(pat, s):
            if maxsplit and k >= maxsplit:
                break
            out.append(s[pos:m.start()])
            out.extend(m.groups())
            pos = m.end()
            k += 1
        out.append(s[pos:])
        return out

    @staticmethod
    def sub(pat, repl, s, count=0):
        out = []
        pos = 0
        k = 0
        mkfn = _prep(pat, s)[1]
        for m in RxPattern.finditer(pat, s):
            if count and k >= count:
                break
            out.extend(_prep(pat, s[pos:m.start()])[0])
            r = repl(m) if callable(repl) else repl
            if not callable(repl) and not is_sym(r) and "\\" in r:
                raise Unsupported("template in re.sub")
            out.extend(_prep(pat, r)[0])
            pos = m.end()
            k += 1
        out.extend(_prep(pat, s[pos:])[0])
        return mkfn(tuple(out))


METHODS = ("fullmatch", "match", "search", "finditer", "findall", "split", "sub")


def subject_index(name):
    """Position of the subject among a Pattern method's arguments."""
    return 1 if name == "sub" else 0


def pattern_call(pat, name, args, kw):
    i = subject_index(name)
    subj = args[i] if len(args) > i else kw.get("string")
    if is_sym(subj):
        if "string" in kw:
            kw = dict(kw)
            args = (*args, kw.pop("string"))
        return getattr(RxPattern, name)(pat, *args, **kw)
    return getattr(pat, name)(*args, **kw)


_real = {n: getattr(re, n) for n in METHODS}


def _modfn(name):
    real = _real[name]

    def fn(pattern, *args, **kw):
        i = subject_index(name)
        subj = args[i] if len(args) > i else kw.get("string")
        if is_sym(subj) and cur.eng is not None:
            flags = kw.pop("flags", 0)
            if is_sym(pattern):
                pattern = concretize(pattern)
            pat = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
            return pattern_call(pat, name, args, kw)
        return real(pattern, *args, **kw)

    fn.__name__ = name
    return fn


def install():
    for n in METHODS:
        setattr(re, n, _modfn(n))
