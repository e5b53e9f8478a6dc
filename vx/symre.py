"""A symbolic regular-expression matcher with Python's backtracking semantics.

Patterns are parsed by the standard library's own parser (re._parser); each
character test on a symbolic element is a branch decided by the solver.
Concrete subjects go to the real `re`.
"""
from __future__ import annotations

import re as _re
import sys
import unicodedata
from re import _constants as C
from re import _parser as P

import z3

from . import values as V
from .values import inset, eqel, elems, is_sym, mkbool, vx_all, vx_any, vx_not

_CATS = {}


def _ranges(pred):
    out = []
    start = None
    for i in range(0x110000):
        if pred(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return out


def cat_ranges(cat, is_bytes, ascii_):
    key = (str(cat), is_bytes or ascii_)
    r = _CATS.get(key)
    if r is not None:
        return r
    name = str(cat)
    if is_bytes or ascii_:
        base = {"DIGIT": [(48, 57)], "SPACE": [(9, 13), (32, 32)], "WORD": [(48, 57), (65, 90), (95, 95), (97, 122)]}
        k = name.split("_")[-1]
        r = base[k]
    else:
        k = name.split("_")[-1]
        if k == "DIGIT":
            r = _ranges(lambda c: unicodedata.category(c) == "Nd")
        elif k == "SPACE":
            r = _ranges(str.isspace)
        else:
            r = _ranges(lambda c: c.isalnum() or c == "_")
    _CATS[key] = r
    return r


def in_ranges(c, rngs):
    return vx_any([inset(c, lo, hi) for lo, hi in rngs])


class Ctx:
    def __init__(self, cs, is_bytes, flags):
        self.cs = cs
        self.n = len(cs)
        self.is_bytes = is_bytes
        self.flags = flags


def _lit(c, a, flags, is_bytes):
    if flags & _re.IGNORECASE:
        opts = {a}
        if a < 128 or not is_bytes:
            ch = chr(a)
            for s in (ch.lower(), ch.upper()):
                if len(s) == 1 and (not is_bytes or ord(s) < 128):
                    opts.add(ord(s))
            if not is_bytes and not flags & _re.ASCII:
                low = ch.lower()
                extra = {"k": [0x212A], "s": [0x17F], "i": [0x130, 0x131], "å": [0x212B]}
                if low in ("k", "s"):
                    opts.update(extra[low])
        return vx_any([eqel(c, o) for o in sorted(opts)])
    return eqel(c, a)


def _set(c, items, flags, is_bytes):
    neg = False
    parts = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            parts.append(_lit(c, av, flags, is_bytes))
        elif op is C.RANGE:
            lo, hi = av
            parts.append(inset(c, lo, hi))
            if flags & _re.IGNORECASE:
                for a, b, d in ((65, 90, 32), (97, 122, -32)):
                    l2, h2 = max(lo, a), min(hi, b)
                    if l2 <= h2:
                        parts.append(inset(c, l2 + d, h2 + d))
        elif op is C.CATEGORY:
            r = in_ranges(c, cat_ranges(av, is_bytes, flags & _re.ASCII))
            parts.append(vx_not(r) if "NOT_" in str(av) else r)
        else:
            raise NotImplementedError(str(op))
    r = vx_any(parts)
    return vx_not(r) if neg else r


def _fixed(seq, i, x, flags, tests, groups):
    """Width of seq when it has exactly one shape; collects its character tests and group spans. None otherwise."""
    j = i
    for op, av in seq:
        if op is C.LITERAL:
            tests.append(lambda c, av=av, f=flags: _lit(c, av, f, x.is_bytes))
            j += 1
        elif op is C.NOT_LITERAL:
            tests.append(lambda c, av=av, f=flags: vx_not(_lit(c, av, f, x.is_bytes)))
            j += 1
        elif op is C.ANY:
            tests.append((lambda c: True) if flags & _re.DOTALL else (lambda c: vx_not(eqel(c, 10))))
            j += 1
        elif op is C.IN:
            tests.append(lambda c, av=av, f=flags: _set(c, av, f, x.is_bytes))
            j += 1
        elif op is C.SUBPATTERN:
            gid, add, dele, sub = av
            j2 = _fixed(list(sub), j, x, (flags | add) & ~dele, tests, groups)
            if j2 is None:
                return None
            if gid is not None:
                groups[gid] = (j, j2)
                groups["last"] = gid
            j = j2
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] == av[1] and av[0] <= 64:
            for _ in range(av[0]):
                j = _fixed(list(av[2]), j, x, flags, tests, groups)
                if j is None:
                    return None
        else:
            return None
    return j


def _match(seq, idx, i, groups, x, flags, k):
    """Generator-free continuation matcher: returns groups dict (with end) or None."""
    if idx == len(seq):
        return k(i, groups)
    # a run of single-shape items is one conjunction, hence one branch
    end = idx
    tests, gs = [], {}
    j = i
    while end < len(seq):
        t2, g2 = [], {}
        j2 = _fixed([seq[end]], j, x, flags, t2, g2)
        if j2 is None:
            break
        tests += t2
        gs.update(g2)
        j = j2
        end += 1
    if end > idx:
        if j > x.n:
            return None
        if not vx_all([t(x.cs[i + q]) for q, t in enumerate(tests)]):
            return None
        return _match(seq, end, j, {**groups, **gs} if gs else groups, x, flags, k)
    op, av = seq[idx]

    def nxt(j, g):
        return _match(seq, idx + 1, j, g, x, flags, k)

    if op is C.LITERAL:
        if i < x.n and _lit(x.cs[i], av, flags, x.is_bytes):
            return nxt(i + 1, groups)
        return None
    if op is C.NOT_LITERAL:
        if i < x.n and vx_not(_lit(x.cs[i], av, flags, x.is_bytes)):
            return nxt(i + 1, groups)
        return None
    if op is C.ANY:
        if i < x.n and (flags & _re.DOTALL or vx_not(eqel(x.cs[i], 10))):
            return nxt(i + 1, groups)
        return None
    if op is C.IN:
        if i < x.n and _set(x.cs[i], av, flags, x.is_bytes):
            return nxt(i + 1, groups)
        return None
    if op is C.SUBPATTERN:
        gid, add, dele, sub = av
        f2 = (flags | add) & ~dele

        def done(j, g):
            if gid is not None:
                g = dict(g)
                g[gid] = (i, j)
                g["last"] = gid
            return _match(seq, idx + 1, j, g, x, flags, k)

        return _match(list(sub), 0, i, groups, x, f2, done)
    if op is C.BRANCH:
        for alt in av[1]:
            r = _match(list(alt), 0, i, groups, x, flags, nxt)
            if r is not None:
                return r
        return None
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
        lo, hi, sub = av
        hi = x.n + 1 if hi is C.MAXREPEAT else hi
        sub = list(sub)
        greedy = op is not C.MIN_REPEAT

        def rep(j, g, cnt, last):
            def again(jj, gg):
                if jj == j and cnt >= lo:
                    return None  # zero-width iteration
                return rep(jj, gg, cnt + 1, j)

            if cnt < lo:
                return _match(sub, 0, j, g, x, flags, again)
            if greedy:
                if cnt < hi:
                    r = _match(sub, 0, j, g, x, flags, again)
                    if r is not None:
                        return r
                return nxt(j, g)
            r = nxt(j, g)
            if r is not None:
                return r
            if cnt < hi:
                return _match(sub, 0, j, g, x, flags, again)
            return None

        return rep(i, groups, 0, -1)
    if op is C.AT:
        ok = False
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            ok = i == 0
            if not ok and av is C.AT_BEGINNING and flags & _re.MULTILINE:
                ok = bool(eqel(x.cs[i - 1], 10))
        elif av is C.AT_END_STRING:
            ok = i == x.n
        elif av is C.AT_END:
            if i == x.n:
                ok = True
            elif flags & _re.MULTILINE:
                ok = bool(eqel(x.cs[i], 10))
            elif i == x.n - 1:
                ok = bool(eqel(x.cs[i], 10))
        elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = cat_ranges("CATEGORY_WORD", x.is_bytes, flags & _re.ASCII)
            a = bool(in_ranges(x.cs[i - 1], w)) if i > 0 else False
            b = bool(in_ranges(x.cs[i], w)) if i < x.n else False
            ok = (a != b) == (av is C.AT_BOUNDARY)
        else:
            raise NotImplementedError(str(av))
        return nxt(i, groups) if ok else None
    if op in (C.ASSERT, C.ASSERT_NOT):
        d, sub = av
        if d < 0:
            w = sub.getwidth()[0]
            r = _match(list(sub), 0, i - w, groups, x, flags, lambda j, g: g) if i - w >= 0 else None
        else:
            r = _match(list(sub), 0, i, groups, x, flags, lambda j, g: g)
        if op is C.ASSERT:
            return None if r is None else nxt(i, r)
        return nxt(i, groups) if r is None else None
    if op is C.GROUPREF:
        sp = groups.get(av)
        if sp is None:
            return None
        a, b = sp
        if i + (b - a) > x.n:
            return None
        for q in range(b - a):
            if not eqel(x.cs[a + q], x.cs[i + q]):
                return None
        return nxt(i + b - a, groups)
    raise NotImplementedError(str(op))


class VxMatch:
    def __init__(self, pat, subj, spans):
        self.re = pat
        self.string = subj
        self._g = spans
        self.pos = 0
        self.endpos = len(elems(subj))

    def span(self, n=0):
        n = self._n(n)
        return self._g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def _n(self, n):
        if isinstance(n, str):
            return self.re.groupindex[str(n)]
        return n

    def _one(self, n):
        n = self._n(n)
        if n > self.re.groups:
            raise IndexError("no such group")
        sp = self._g.get(n)
        if sp is None:
            return None
        return V.lift(self.string)[sp[0] : sp[1]] if is_sym(self.string) else self.string[sp[0] : sp[1]]

    def group(self, *ns):
        if not ns:
            return self._one(0)
        if len(ns) == 1:
            return self._one(ns[0])
        return tuple(self._one(n) for n in ns)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._g.get(i) is None else self._one(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (default if self._g.get(i) is None else self._one(i)) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        return self._g.get("last")

    @property
    def lastgroup(self):
        li = self.lastindex
        for k, i in self.re.groupindex.items():
            if i == li:
                return k
        return None

    def expand(self, template):
        return _expand(self, template)


class VxPattern:
    def __init__(self, pattern, flags=0):
        self._p = _re.compile(pattern, flags)
        self.pattern = self._p.pattern
        self.flags = self._p.flags
        self.groups = self._p.groups
        self.groupindex = self._p.groupindex
        self._tree = None

    def __eq__(self, o):
        return isinstance(o, VxPattern) and o._p == self._p

    def __hash__(self):
        return hash(self._p)

    def _parsed(self):
        if self._tree is None:
            self._tree = list(P.parse(self.pattern, self.flags & ~_re.DEBUG if isinstance(self.pattern, str) else self.flags))
        return self._tree

    def _at(self, x, i, full=False):
        k = (lambda j, g: {**g, 0: (i, j)} if j == x.n else None) if full else (lambda j, g: {**g, 0: (i, j)})
        return _match(self._parsed(), 0, i, {}, x, self.flags, k)

    def _ctx(self, s, pos, endpos):
        cs = elems(s)
        if endpos is not None:
            cs = cs[:endpos]
        return Ctx(cs, not isinstance(s, str), self.flags)

    def match(self, s, pos=0, endpos=None):
        if not is_sym(s):
            a = (V.plain(s), pos) + (() if endpos is None else (endpos,))
            return self._p.match(*a)
        r = self._at(self._ctx(s, pos, endpos), pos)
        return None if r is None else VxMatch(self, s, r)

    def fullmatch(self, s, pos=0, endpos=None):
        if not is_sym(s):
            a = (V.plain(s), pos) + (() if endpos is None else (endpos,))
            return self._p.fullmatch(*a)
        r = self._at(self._ctx(s, pos, endpos), pos, True)
        return None if r is None else VxMatch(self, s, r)

    def search(self, s, pos=0, endpos=None):
        if not is_sym(s):
            a = (V.plain(s), pos) + (() if endpos is None else (endpos,))
            return self._p.search(*a)
        x = self._ctx(s, pos, endpos)
        for i in range(pos, x.n + 1):
            r = self._at(x, i)
            if r is not None:
                return VxMatch(self, s, r)
        return None

    def finditer(self, s, pos=0, endpos=None):
        if not is_sym(s):
            a = (V.plain(s), pos) + (() if endpos is None else (endpos,))
            yield from self._p.finditer(*a)
            return
        x = self._ctx(s, pos, endpos)
        i = pos
        last_empty = -1
        while i <= x.n:
            r = self._at(x, i)
            if r is None:
                i += 1
                continue
            a, b = r[0]
            if a == b and a == last_empty:
                i += 1
                continue
            yield VxMatch(self, s, r)
            if a == b:
                last_empty = a
                i += 1
            else:
                i = b
                last_empty = b

    def findall(self, s, *a):
        if not is_sym(s):
            return self._p.findall(V.plain(s), *a)
        out = []
        for m in self.finditer(s, *a):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups(s[:0])[0])
            else:
                out.append(m.groups(s[:0]))
        return out

    def subn(self, repl, s, count=0):
        isb = not isinstance(s, str)
        if not is_sym(s):
            sym_out = []
            if callable(repl):
                # the replacement may produce symbolic text
                pos, out, n = 0, [], 0
                s0 = V.plain(s)
                for m in self._p.finditer(s0):
                    if count and n >= count:
                        break
                    out.append(s0[pos : m.start()])
                    out.append(repl(m))
                    pos = m.end()
                    n += 1
                out.append(s0[pos:])
                return V.concat(bytes if isb else str, out), n
            if is_sym(repl):
                repl = V.realise(repl)
            return self._p.subn(repl, V.plain(s), count)
        out = []
        pos = n = 0
        sv = V.lift(s)
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out.append(sv[pos:a])
            out.append(repl(m) if callable(repl) else _expand(m, repl))
            pos = b
            n += 1
        out.append(sv[pos:])
        return V.concat(bytes if isb else str, out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if not is_sym(s):
            return self._p.split(V.plain(s), maxsplit)
        out, pos, n = [], 0, 0
        sv = V.lift(s)
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(sv[pos:a])
            out.extend(m.groups())
            pos = b
            n += 1
        out.append(sv[pos:])
        return out


def _expand(m, template):
    tpl = V.plain(template)
    isb = isinstance(tpl, (bytes, bytearray))
    parts = P.parse_template(tpl, m.re._p)
    out = []
    for p in parts:
        if isinstance(p, int):
            g = m._one(p)
            if g is not None:
                out.append(g)
        elif p:
            out.append(p)
    return V.concat(bytes if isb else str, out)


class ReModule:
    """Stands in for the `re` module in instrumented code."""

    def __init__(self):
        for n in dir(_re):
            if not n.startswith("_"):
                setattr(self, n, getattr(_re, n))
        self.compile = self._compile
        self.match = lambda p, s, flags=0: self._compile(p, flags).match(s)
        self.fullmatch = lambda p, s, flags=0: self._compile(p, flags).fullmatch(s)
        self.search = lambda p, s, flags=0: self._compile(p, flags).search(s)
        self.sub = lambda p, r, s, count=0, flags=0: self._compile(p, flags).sub(r, s, count)
        self.subn = lambda p, r, s, count=0, flags=0: self._compile(p, flags).subn(r, s, count)
        self.split = lambda p, s, maxsplit=0, flags=0: self._compile(p, flags).split(s, maxsplit)
        self.findall = lambda p, s, flags=0: self._compile(p, flags).findall(s)
        self.finditer = lambda p, s, flags=0: self._compile(p, flags).finditer(s)
        self.Pattern = VxPattern
        self.Match = VxMatch
        self._cache = {}

    def _compile(self, p, flags=0):
        if isinstance(p, VxPattern):
            return p
        if isinstance(p, _re.Pattern):
            return VxPattern(p)
        if is_sym(p):
            p = V.realise(p)
        p = V.plain(p)
        key = (type(p), p, int(flags))
        r = self._cache.get(key)
        if r is None:
            r = self._cache[key] = VxPattern(p, flags)
        return r
