"""Symbolic-aware int / str / bytes / bytearray / float / bool.

Each object is a genuine Python value (a subclass of the builtin, holding the
concrete value of the current run) plus a tag with the z3 expression.  The
instrumented modules see these classes under the names int, str, bytes, ...
"""
from __future__ import annotations

import builtins
import enum as _enum
import sys
import types as _types
from fractions import Fraction

import z3

from . import core

_int, _str, _bytes, _bool, _float, _bytearray = int, str, bytes, bool, float, bytearray
_type, _issubclass, _len = type, issubclass, len


def _isinstance(o, c):  # type(o) only: never runs user __getattribute__
    return _issubclass(_type(o), c)



_list, _tuple, _dict, _set = list, tuple, dict, set


def ctx():
    return core.CTX


# ------------------------------------------------------------------ tags
_KIND = {}


def _kind(t):
    k = _KIND.get(t)
    if k is None:
        if t is VxBool or _issubclass(t, SymEnum):
            k = 2
        elif _issubclass(t, (VxInt, VxStr, VxBytes, VxFloat, VxByteArray)):
            k = 1
        else:
            k = 0
        _KIND[t] = k
    return k


def tag(x):
    k = _kind(_type(x))
    if k == 0:
        return None
    if k == 2:
        return x
    return object.__getattribute__(x, "__dict__").get("_vx")


def is_sym(x):
    k = _kind(_type(x))
    if k == 0:
        return False
    if k == 2:
        return True
    return object.__getattribute__(x, "__dict__").get("_vx") is not None


def _settag(o, t):
    object.__getattribute__(o, "__dict__")["_vx"] = t


def site():
    f = sys._getframe(2)
    here = __file__.rsplit("/", 1)[0]
    while f is not None and f.f_code.co_filename.startswith(here):
        f = f.f_back
    if f is None:
        return "?"
    return "%s:%d" % (f.f_code.co_filename.rsplit("/", 1)[-1], f.f_lineno)


# ------------------------------------------------------------------ concrete views
def iconc(x):
    return _int.__add__(x, 0)


def sconc(x):
    return _str.__str__(x)


def bconc(x):
    return _bytes(memoryview(x))


def plain(x):
    """Concrete value without constraining anything (only for values never inspected)."""
    t = _type(x)
    if t is VxBool:
        return x.c
    if _issubclass(t, SymEnum):
        return x.member
    if t is VxInt:
        return iconc(x)
    if t is VxStr:
        return sconc(x)
    if t is VxBytes:
        return bconc(x)
    if t is VxFloat:
        return _float.__float__(x)
    return x


def realise(x, where=None):
    """Concretise x: fix it to the current value on this path and return a plain object."""
    k = _kind(_type(x))
    if k == 0:
        t = _type(x)
        if t is _list:
            if any(is_symdeep(i) for i in x):
                return [realise(i) for i in x]
        elif t is _tuple:
            if any(is_symdeep(i) for i in x):
                return _tuple(realise(i) for i in x)
        return x
    where = where or site()
    if k == 2:
        if _type(x) is VxBool:
            return _bool(x)
        return x.realise(where)
    tg = tag(x)
    if _issubclass(_type(x), VxInt):
        if tg is not None:
            ctx().concretise(tg, iconc(x), where)
        return iconc(x) if _type(x) is VxInt else x
    if _issubclass(_type(x), VxFloat):
        if tg is not None:
            ctx().concretise(tg[0], tg[2], where)
        return _float.__float__(x) if _type(x) is VxFloat else x
    if tg is not None:
        for c in elems(x):
            if is_sym(c):
                realise(c, where)
    if _type(x) is VxStr:
        return sconc(x)
    if _type(x) is VxBytes:
        return bconc(x)
    return x


def is_symdeep(x):
    t = _type(x)
    if t is _list or t is _tuple:
        return any(is_symdeep(i) for i in x)
    return is_sym(x)


# ------------------------------------------------------------------ bool
class VxBool:
    """A symbolic truth value; asking for its truth is a branch."""

    __slots__ = ("e", "c")

    def __new__(cls, x=False):
        if _type(x) is VxBool:
            return x
        return True if x else False

    def __bool__(self):
        return ctx().branch(self.e, self.c, site=None)

    def _other(self, o):
        if _type(o) is VxBool:
            return o.e, o.c
        if o is True or o is False:
            return z3.BoolVal(o), o
        return None

    def __eq__(self, o):
        p = self._other(o)
        if p is None:
            if _isinstance(o, _int):
                return self._asint() == o
            return False
        return mkbool(self.e == p[0], self.c == p[1])

    def __ne__(self, o):
        p = self._other(o)
        if p is None:
            if _isinstance(o, _int):
                return self._asint() != o
            return True
        return mkbool(self.e != p[0], self.c != p[1])

    def __and__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return mkbool(z3.And(self.e, p[0]), self.c and p[1])

    __rand__ = __and__

    def __or__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return mkbool(z3.Or(self.e, p[0]), self.c or p[1])

    __ror__ = __or__

    def __xor__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return mkbool(self.e != p[0], self.c != p[1])

    __rxor__ = __xor__

    def _asint(self):
        return mkint(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 1 if self.c else 0)

    def __hash__(self):
        return hash(_bool(self))

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return self._asint() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._asint() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._asint() - o

    def __rsub__(self, o):
        return o - self._asint()

    def __lt__(self, o):
        return self._asint() < o

    def __le__(self, o):
        return self._asint() <= o

    def __gt__(self, o):
        return self._asint() > o

    def __ge__(self, o):
        return self._asint() >= o

    def __str__(self):
        return "True" if self else "False"

    __repr__ = __str__

    def __format__(self, spec):
        return format(_bool(self), spec)


VxBool.__name__ = VxBool.__qualname__ = "bool"


def mkbool(e, c):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    b = object.__new__(VxBool)
    b.e = e
    b.c = _bool(c)
    return b


def vx_not(x):
    if _type(x) is VxBool:
        return mkbool(z3.Not(x.e), not x.c)
    return not x


def bexpr(x):
    if _type(x) is VxBool:
        return x.e
    return z3.BoolVal(_bool(x))


def vx_all(xs):
    es, c = [], True
    for x in xs:
        if _type(x) is VxBool:
            es.append(x.e)
            c = c and x.c
        elif not x:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es), c)


def vx_any(xs):
    es, c = [], False
    for x in xs:
        if _type(x) is VxBool:
            es.append(x.e)
            c = c or x.c
        elif x:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es), c)


# ------------------------------------------------------------------ int
def iexpr(x):
    """z3 expression of an int-like value."""
    t = tag(x)
    if t is None:
        return z3.IntVal(iconc(x))
    if _type(x) is VxBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if _type(x) is SymEnum:
        raise TypeError("enum")
    return t


def mkint(e, c):
    if z3.is_int_value(e):
        return e.as_long()
    o = _int.__new__(VxInt, c)
    o.__dict__["_vx"] = e
    return o


def _intish(o):
    return _isinstance(o, _int) or _type(o) is VxBool


def _bits_of_const(e, c):
    """e & c for a constant c >= 0 (two's complement semantics for e)."""
    total = []
    i = 0
    while c >> i:
        if not (c >> i) & 1:
            i += 1
            continue
        j = i
        while (c >> j) & 1:
            j += 1
        q, _ = ctx().divmod_const(e, 1 << i)
        _, r = ctx().divmod_const(q, 1 << (j - i))
        total.append(r * (1 << i))
        i = j
    if not total:
        return z3.IntVal(0)
    return z3.Sum(total) if _len(total) > 1 else total[0]


class VxInt(_int):
    def __new__(cls, *args, **kw):
        if cls is VxInt and _len(args) == 1 and not kw and _type(args[0]) is _int:
            return args[0]
        c, e = vx_parse_int(*args, **kw)
        if cls is VxInt:
            return c if e is None else mkint(e, c)
        o = _int.__new__(cls, c)
        if e is not None:
            _settag(o, e)
        return o

    @classmethod
    def from_bytes(cls, b, byteorder="big", *, signed=False):
        if is_sym(b):
            cs = elems(b)
            if byteorder == "big":
                cs = cs[::-1]
            v = from_digits_le(cs, 256)
            if signed:
                n = _len(cs)
                if v >= 1 << (8 * n - 1):
                    v = v - (1 << (8 * n))
            return v
        return _int.from_bytes(b, byteorder, signed=signed)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        e = tag(self)
        if e is None:
            return _int.to_bytes(iconc(self), length, byteorder, signed=signed)
        return int_to_bytes(self, length, byteorder, signed)

    def bit_length(self):
        if tag(self) is None:
            return _int.bit_length(self)
        v = abs(self)
        n = 0
        while not (v < (1 << n)):
            n += 1
        return n

    def __int__(self):
        return mkint(tag(self), iconc(self)) if tag(self) is not None else iconc(self)

    def __index__(self):
        return iconc(realise(self))

    def __trunc__(self):
        return VxInt.__int__(self)

    def __float__(self):
        e = tag(self)
        if e is None:
            return _int.__float__(self)
        return mkfloat(e, 1, iconc(self))

    def __bool__(self):
        e = tag(self)
        if e is None:
            return _int.__bool__(self)
        return _bool(mkbool(e != 0, iconc(self) != 0))

    def __hash__(self):
        if tag(self) is not None:
            h = core.CTX.hashed.get(id(self))
            if h is not None:
                return h[1]
            realise(self)
        return _int.__hash__(self)

    def __str__(self):
        if tag(self) is None:
            return _int.__repr__(self)
        return str_of_int(self)

    __repr__ = __str__

    def __format__(self, spec):
        if tag(self) is None:
            return _int.__format__(self, spec)
        r = format_int(self, spec)
        return realise(r) if is_sym(r) else r

    def __neg__(self):
        e = tag(self)
        return _int.__neg__(self) if e is None else mkint(-e, -iconc(self))

    def __pos__(self):
        e = tag(self)
        return _int.__pos__(self) if e is None else mkint(e, iconc(self))

    def __invert__(self):
        e = tag(self)
        return _int.__invert__(self) if e is None else mkint(-e - 1, ~iconc(self))

    def __abs__(self):
        e = tag(self)
        if e is None:
            return _int.__abs__(self)
        if mkbool(e < 0, iconc(self) < 0):
            return mkint(-e, -iconc(self))
        return mkint(e, iconc(self))

    def __round__(self, n=None):
        return VxInt.__int__(self)

    @property
    def real(self):
        return VxInt.__int__(self)

    @property
    def numerator(self):
        return VxInt.__int__(self)


VxInt.__name__ = VxInt.__qualname__ = "int"
VxInt.__module__ = "builtins"


def _mkarith(name, f):
    native = getattr(_int, name)

    def op(self, o):
        if not _intish(o):
            if _isinstance(o, _float) and tag(self) is not None:
                return getattr(VxInt.__float__(self), name)(o)
            return NotImplemented
        if tag(self) is None and tag(o) is None:
            return native(iconc(self), plain(o) if _type(o) is VxBool else iconc(o))
        return f(self, o)

    op.__name__ = name
    return op


def _c(o):
    return (1 if o.c else 0) if _type(o) is VxBool else iconc(o)


def _add(a, b):
    return mkint(iexpr(a) + iexpr(b), _c(a) + _c(b))


def _sub(a, b):
    return mkint(iexpr(a) - iexpr(b), _c(a) - _c(b))


def _mul(a, b):
    if tag(a) is not None and tag(b) is not None:
        b = realise(b)
    return mkint(iexpr(a) * iexpr(b), _c(a) * _c(b))


def _divmod(a, b):
    if tag(b) is not None:
        b = realise(b)
    d = _c(b)
    if d == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    ca = _c(a)
    if tag(a) is None:
        return divmod(ca, d)
    if d < 0:
        q, r = ctx().divmod_const(-iexpr(a), -d)
        return mkint(q, ca // d), mkint(-r, ca % d)
    q, r = ctx().divmod_const(iexpr(a), d)
    return mkint(q, ca // d), mkint(r, ca % d)


def _pow(a, b, m=None):
    if is_sym(b):
        b = realise(b)
    if m is not None:
        return pow(_c(realise(a)), _c(b), _c(realise(m)))
    if tag(a) is None:
        return _c(a) ** _c(b)
    n = _c(b)
    if n < 0 or n > 4:
        return _c(realise(a)) ** n
    r = 1
    for _ in range(n):
        r = mkint(iexpr(r) * iexpr(a), _c(r) * _c(a))
    return r


def _and(a, b):
    if tag(a) is not None and tag(b) is not None:
        return _bvop(a, b, lambda x, y: x & y, _c(a) & _c(b))
    if tag(a) is None:
        a, b = b, a
    c = _c(b)
    e = iexpr(a)
    if c >= 0:
        return mkint(_bits_of_const(e, c), _c(a) & c)
    return mkint(e - _bits_of_const(e, ~c), _c(a) & c)


def _or(a, b):
    if tag(a) is not None and tag(b) is not None:
        # the common "disjoint bits" composition stays linear
        for x, y in ((a, b), (b, a)):
            for k in (4, 8, 16, 32, 48, 64, 80, 96, 112):
                ex, ey = iexpr(x), iexpr(y)
                if _struct_multiple(ex, 1 << k) and _entails(z3.And(ey >= 0, ey < (1 << k))):
                    return mkint(ex + ey, _c(a) | _c(b))
        return _bvop(a, b, lambda x, y: x | y, _c(a) | _c(b))
    if tag(a) is None:
        a, b = b, a
    x = _and(a, b)
    return mkint(iexpr(a) + iexpr(b) - iexpr(x), _c(a) | _c(b))


def _xor(a, b):
    if tag(a) is not None and tag(b) is not None:
        return _bvop(a, b, lambda x, y: x ^ y, _c(a) ^ _c(b))
    x = _and(a, b)
    return mkint(iexpr(a) + iexpr(b) - 2 * iexpr(x), _c(a) ^ _c(b))


def _entails(cond):
    c = ctx()
    c.solver.push()
    c.solver.add(z3.Not(cond))
    r, _ = c.solve()
    c.solver.pop()
    return r == z3.unsat


def _struct_multiple(e, m):
    if z3.is_int_value(e):
        return e.as_long() % m == 0
    if z3.is_mul(e):
        return any(z3.is_int_value(e.arg(i)) and e.arg(i).as_long() % m == 0 for i in range(e.num_args()))
    if z3.is_add(e):
        return all(_struct_multiple(e.arg(i), m) for i in range(e.num_args()))
    return False


def _bvop(a, b, f, c):
    # bit-wise operators on two symbolic operands: up to 16 bits (either sign) through digits, else concretise
    ca, cb = _c(a), _c(b)
    ea, eb = iexpr(a), iexpr(b)
    if mkbool(z3.And(ea >= 0, ea < 65536, eb >= 0, eb < 65536), 0 <= ca < 65536 and 0 <= cb < 65536):
        signed = False
    elif mkbool(z3.And(ea >= -32768, ea < 32768, eb >= -32768, eb < 32768), -32768 <= ca < 32768 and -32768 <= cb < 32768):
        signed = True
        ea = z3.If(ea < 0, ea + 65536, ea)
        eb = z3.If(eb < 0, eb + 65536, eb)
    else:
        return f(_c(realise(a)), _c(realise(b)))
    da = ctx().digits(ea, 2, 16)
    db = ctx().digits(eb, 2, 16)
    out = []
    for i in range(16):
        x, y = da[i] == 1, db[i] == 1
        if f(1, 1) and not f(1, 0):
            r = z3.And(x, y)
        elif f(1, 1):
            r = z3.Or(x, y)
        else:
            r = z3.Xor(x, y)
        # two's complement: the top bit counts negative
        out.append(z3.If(r, z3.IntVal(-(1 << i) if signed and i == 15 else 1 << i), z3.IntVal(0)))
    return mkint(z3.Sum(out), c)


def _lshift(a, b):
    if is_sym(b):
        b = realise(b)
    if _c(b) < 0:
        raise ValueError("negative shift count")
    return mkint(iexpr(a) * (1 << _c(b)), _c(a) << _c(b))


def _rshift(a, b):
    if is_sym(b):
        b = realise(b)
    if _c(b) < 0:
        raise ValueError("negative shift count")
    return _divmod(a, 1 << _c(b))[0]


def _truediv(a, b):
    if tag(b) is not None:
        b = realise(b)
    if _c(b) == 0:
        raise ZeroDivisionError("division by zero")
    if tag(a) is None:
        return _c(a) / _c(b)
    n, d = iexpr(a), _c(b)
    cn = _c(a)
    if d < 0:
        n, d, cn = -n, -d, -cn
    return mkfloat(n, d, cn)


for _n, _f in dict(
    add=_add, sub=_sub, mul=_mul, floordiv=lambda a, b: _divmod(a, b)[0], mod=lambda a, b: _divmod(a, b)[1],
    divmod=_divmod, lshift=_lshift, rshift=_rshift, truediv=_truediv,
).items():
    setattr(VxInt, "__%s__" % _n, _mkarith("__%s__" % _n, _f))
    setattr(VxInt, "__r%s__" % _n, _mkarith("__r%s__" % _n, (lambda f: lambda a, b: f(b, a))(_f)))
for _n, _f in {"and": _and, "or": _or, "xor": _xor}.items():
    setattr(VxInt, "__%s__" % _n, _mkarith("__%s__" % _n, _f))
    setattr(VxInt, "__r%s__" % _n, _mkarith("__r%s__" % _n, _f))


def _ipow(self, o, m=None):
    if not _intish(o):
        return NotImplemented
    if tag(self) is None and tag(o) is None and not is_sym(m):
        return _int.__pow__(iconc(self), _c(o)) if m is None else _int.__pow__(iconc(self), _c(o), m)
    return _pow(self, o, m)


VxInt.__pow__ = _ipow
VxInt.__rpow__ = lambda self, o: _pow(o, self) if _intish(o) else NotImplemented


def _mkcmp(name, f):
    native = getattr(_int, name)

    def op(self, o):
        if not _intish(o):
            if _isinstance(o, _float) and (tag(self) is not None or tag(o) is not None):
                return getattr(VxInt.__float__(self), name)(o)
            return NotImplemented
        if tag(self) is None and tag(o) is None:
            return native(self, o)
        return mkbool(f(iexpr(self), iexpr(o)), f(_c(self), _c(o)))

    op.__name__ = name
    return op


for _n, _f in dict(
    __lt__=lambda a, b: a < b, __le__=lambda a, b: a <= b, __gt__=lambda a, b: a > b, __ge__=lambda a, b: a >= b,
    __eq__=lambda a, b: a == b, __ne__=lambda a, b: a != b,
).items():
    setattr(VxInt, _n, _mkcmp(_n, _f))


def from_digits_le(cs, base):
    """Integer value of little-endian digit elements."""
    # provenance: the digits of one value, untouched
    first = cs[0] if cs else None
    p = getattr(first, "_prov", None) if _type(first) is VxInt else None
    if p is not None and p[1] == base and p[2] == _len(cs):
        if all(_type(c) is VxInt and getattr(c, "_prov", None) is not None and c._prov[0] is p[0] and c._prov[3] == i and c._prov[1] == base
               for i, c in enumerate(cs)):
            return mkint(tag(p[0]), iconc(p[0]))
    if base == 16 and _len(cs) % 2 == 0 and cs:
        # nibble pairs of whole bytes: compose the bytes
        whole = []
        for i in range(0, _len(cs), 2):
            p, q = getattr(cs[i], "_prov", None), getattr(cs[i + 1], "_prov", None)
            if p and q and p[0] is q[0] and p[1] == q[1] == 16 and p[2] == q[2] == 2 and p[3] == 0 and q[3] == 1:
                whole.append(p[0])
            elif not is_sym(cs[i]) and not is_sym(cs[i + 1]):
                whole.append(cs[i] + 16 * cs[i + 1])
            else:
                whole = None
                break
        if whole is not None:
            return from_digits_le(whole, 256)
    cv = 0
    es = []
    for i, c in enumerate(cs):
        cv += _c(c) * base**i
        es.append(iexpr(c) * (base**i))
    r = mkint(z3.simplify(z3.Sum(es)) if es else z3.IntVal(0), cv)
    if base in (16, 256) and is_sym(r):
        # (the expression is kept alive by the cache, so its id stays unique)
        ctx().strcache[("comp", tag(r).get_id())] = (r, _list(cs), base)
    return r


def int_to_bytes(v, length, byteorder, signed=False):
    c = _c(v)
    lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
    e = iexpr(v)
    if not mkbool(z3.And(e >= lo, e <= hi), lo <= c <= hi):
        raise OverflowError("int too big to convert" if c > hi else "can't convert negative int to unsigned")
    if signed:
        if mkbool(e < 0, c < 0):
            v = mkint(e + (1 << (8 * length)), c + (1 << (8 * length)))
            e, c = iexpr(v), _c(v)
    ds = digits_le(v, 256, length)
    if byteorder == "big":
        ds = ds[::-1]
    return mkbytes(ds)


def digits_le(v, base, n):
    """little-endian digits of a value known to be in [0, base**n)"""
    e, c = iexpr(v), _c(v)
    if z3.is_int_value(e):
        return [(c // base**i) % base for i in range(n)]
    comp = ctx().strcache.get(("comp", e.get_id())) if base in (16, 256) else None
    if comp is not None and comp[2] == 256:
        cs = comp[1]
        if base == 256 and n >= _len(cs):
            return _list(cs) + [0] * (n - _len(cs))
        if base == 16 and n >= 2 * _len(cs):
            out = []
            for b in cs:
                out += digits_le(b, 16, 2)
            return out + [0] * (n - 2 * _len(cs))
    src = mkint(e, c)
    ds = ctx().digits(e, base, n)
    out = []
    for i, d in enumerate(ds):
        o = mkint(d, (c // base**i) % base)
        o.__dict__["_prov"] = (src, base, n, i)
        out.append(o)
    key = ("provsrc", e.get_id(), base, n)
    prev = ctx().strcache.get(key)
    if prev is not None:
        return prev
    ctx().strcache[key] = out
    return out


_WS = " \t\n\r\x0b\x0c"


def vx_parse_int(*args, **kw):
    """(concrete, expr|None) of int(*args)."""
    if "x" in kw:
        args = (kw.pop("x"),) + args
    if not any(is_sym(a) for a in args) and not any(is_sym(v) for v in kw.values()):
        return _int(*[plain(a) for a in args], **kw), None
    v = args[0]
    base = args[1] if _len(args) > 1 else kw.get("base", 10)
    base = realise(base)
    if _isinstance(v, _int):
        return iconc(v), tag(v)
    if _type(v) is VxBool:
        i = v._asint()
        return iconc(i), tag(i)
    if _isinstance(v, _float):
        i = VxFloat.__trunc__(v)
        return iconc(i), tag(i)
    if _isinstance(v, (_str, _bytes, _bytearray)):
        t = tag(v)
        if t.src is not None and t.src[0] == "int" and base == 10:
            return iconc(t.src[1]), tag(t.src[1])
        if t.src is not None and t.src[0] == "hex" and base == 16:
            return iconc(t.src[1]), tag(t.src[1])
        r = parse_int_chars(elems(v), base, v)
        return _c(r), tag(r)
    if _issubclass(_type(v), SymEnum):
        return vx_parse_int(realise(v))
    raise TypeError("int() argument: %r" % _type(v))


def hexval(c):
    """Value of a character already known to be a hex digit."""
    e, cc = iexpr(c), _c(c)
    return mkint(z3.If(e <= 57, e - 48, z3.If(e <= 70, e - 55, e - 87)), cc - 48 if cc <= 57 else cc - 55 if cc <= 70 else cc - 87)


def parse_int_chars(cs, base, original):
    cs = _list(cs)

    def isin(c, lo, hi):
        return mkbool(z3.And(iexpr(c) >= lo, iexpr(c) <= hi), lo <= _c(c) <= hi) if is_sym(c) else lo <= c <= hi

    def digit(c):
        if is_sym(c) and base == 16:
            hd = getattr(c, "_hexd", None)
            if hd is not None:
                return hd
            if not vx_any([isin(c, 48, 57), isin(c, 97, 102), isin(c, 65, 70)]):
                return None
            return hexval(c)
        if isin(c, 48, min(57, 48 + base - 1)):
            return c - 48
        if base > 10:
            if isin(c, 97, 97 + base - 11):
                return c - 87
            if isin(c, 65, 65 + base - 11):
                return c - 55
        return None

    vals = []
    i = 0
    neg = False
    if cs and not is_sym(cs[0]) and cs[0] in (43, 45):
        neg = cs[0] == 45
        i = 1
    elif cs and is_sym(cs[0]):
        if digit(cs[0]) is None:
            if (cs[0] == 45):
                neg = True
                i = 1
            elif (cs[0] == 43):
                i = 1
    odd = i >= _len(cs)
    for c in cs[i:]:
        d = digit(c)
        if d is None:
            odd = True
            break
        vals.append(d)
    if odd:
        # whitespace, underscores, other digit systems or an error: let Python decide on this value
        return _int(realise(original), base)
    r = 0
    n = _len(vals)
    if base == 16 and not neg:
        return from_digits_le(vals[::-1], 16)
    es = [iexpr(d) * base ** (n - 1 - k) for k, d in enumerate(vals)]
    cv = sum(_c(d) * base ** (n - 1 - k) for k, d in enumerate(vals))
    r = mkint(z3.simplify(z3.Sum(es)), cv)
    return -r if neg else r


# ------------------------------------------------------------------ sequences
class Tag:
    __slots__ = ("cs", "thunk", "src", "aux")

    def __init__(self, cs=None, thunk=None, src=None, aux=None):
        self.cs = cs
        self.thunk = thunk
        self.src = src
        self.aux = aux


def elems(x):
    """Element list (ints / VxInts) of a str, bytes or bytearray; forces lazy values."""
    t = tag(x)
    if t is None:
        if _isinstance(x, _str):
            return [ord(c) for c in sconc(x)]
        return _list(bconc(x))
    if t.cs is None:
        t.cs = _list(t.thunk())
        n = _len(sconc(x)) if _isinstance(x, _str) else _len(bconc(x))
        if _len(t.cs) != n:
            raise core.Divergence("lazy value has %d elements, concrete has %d (%s)" % (_len(t.cs), n, t.src and t.src[0]))
    return t.cs


def mkstr(cs):
    if not any(is_sym(c) for c in cs):
        return "".join([chr(_c(c)) for c in cs])
    o = _str.__new__(VxStr, "".join([chr(_c(c)) for c in cs]))
    o.__dict__["_vx"] = Tag(_list(cs))
    return o


def mkbytes(cs):
    if not any(is_sym(c) for c in cs):
        return _bytes([_c(c) for c in cs])
    o = _bytes.__new__(VxBytes, _bytes([_c(c) for c in cs]))
    o.__dict__["_vx"] = Tag(_list(cs))
    return o


def lazystr(conc, thunk, src=None, aux=None):
    o = _str.__new__(VxStr, conc)
    o.__dict__["_vx"] = Tag(None, thunk, src, aux)
    return o


def lazybytes(conc, thunk, src=None, aux=None):
    o = _bytes.__new__(VxBytes, conc)
    o.__dict__["_vx"] = Tag(None, thunk, src, aux)
    return o


def eqel(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    return mkbool(iexpr(a) == iexpr(b), _c(a) == _c(b))


def inset(c, lo, hi):
    if not is_sym(c):
        return lo <= c <= hi
    return mkbool(z3.And(iexpr(c) >= lo, iexpr(c) <= hi), lo <= _c(c) <= hi)


def match_at(cs, i, sub):
    if i + _len(sub) > _len(cs):
        return False
    return vx_all([eqel(a, b) for a, b in zip(cs[i : i + _len(sub)], sub)])


def str_of_int(v):
    v = mkint(tag(v), iconc(v))
    key = ("str", tag(v).get_id())
    hit = ctx().strcache.get(key)
    if hit is not None:
        return hit
    s = lazystr(_int.__repr__(iconc(v)), lambda: dec_digits(v), ("int", v))
    ctx().strcache[key] = s
    return s


def dec_digits(v, minlen=1):
    """Decimal characters of v (forks on sign and on the number of digits)."""
    out = []
    if mkbool(iexpr(v) < 0, _c(v) < 0):
        out.append(45)
        v = -v
    n = minlen
    while not mkbool(iexpr(v) < 10**n, _c(v) < 10**n):
        n += 1
    return out + [48 + d for d in digits_le(v, 10, n)[::-1]]


def hexchar(d, upper=False):
    if not is_sym(d):
        return ord(("%X" if upper else "%x") % d)
    c = _c(d)
    r = mkint(z3.If(iexpr(d) < 10, iexpr(d) + 48, iexpr(d) + (55 if upper else 87)), ord(("%X" if upper else "%x") % c))
    r.__dict__["_hexd"] = d
    return r


def hex_digits(v, minlen=1, upper=False):
    n = minlen
    if mkbool(iexpr(v) < 0, _c(v) < 0):
        return [45] + hex_digits(-v, max(1, minlen - 1), upper)
    while not mkbool(iexpr(v) < 16**n, _c(v) < 16**n):
        n += 1
    return [hexchar(d, upper) for d in digits_le(v, 16, n)[::-1]]


def format_int(v, spec):
    """format(v, spec) for a symbolic int."""
    import re as _re

    spec = realise(spec) if is_sym(spec) else spec
    m = _re.fullmatch(r"(?:(.)?([<>=^]))?([+ -])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?", spec)
    if not m:
        return _int.__format__(iconc(realise(v)), spec)
    fill, align, sign, alt, zero, width, grp, prec, ty = m.groups()
    if ty in ("f", "F") and not grp and not alt:
        return format_float(VxInt.__float__(v), spec)
    if sign or alt or grp or prec or ty not in (None, "d", "x", "X"):
        return _int.__format__(iconc(realise(v)), spec)
    width = _int(width) if width else 0
    if ty in ("x", "X"):
        key = "hex"
        f = lambda n: hex_digits(v, n, ty == "X")
    else:
        key = "int"
        f = lambda n: dec_digits(v, n)
    vv = mkint(tag(v), iconc(v))
    conc = _int.__format__(iconc(v), spec)
    if not width:
        if key == "int":
            return str_of_int(v)
        return lazystr(conc, lambda: f(1), ("hex", vv))
    if zero and not align:

        def thunk():
            if mkbool(iexpr(v) < 0, _c(v) < 0):
                r = dec_digits(-v, max(1, width - 1)) if key == "int" else hex_digits(-v, max(1, width - 1), ty == "X")
                return [45] + r
            return f(width)

        return lazystr(conc, thunk, (key, vv))
    align = align or ">"
    fill = ord(fill or ("0" if zero else " "))

    def thunk2():
        r = f(1)
        pad = [fill] * max(0, width - _len(r))
        if align == "<":
            return r + pad
        if align == ">":
            return pad + r
        raise NotImplementedError

    if align in "<>":
        return lazystr(conc, thunk2, None)
    return _int.__format__(iconc(realise(v)), spec)


def lift(x):
    """A VxStr/VxBytes view of a (plain or subclassed) string, keeping its tag."""
    if _isinstance(x, _str):
        if _type(x) is VxStr:
            return x
        o = _str.__new__(VxStr, sconc(x))
    elif _isinstance(x, (_bytes, _bytearray)):
        if _type(x) is VxBytes:
            return x
        o = _bytes.__new__(VxBytes, bconc(x))
    else:
        return x
    t = tag(x)
    if t is not None:
        o.__dict__["_vx"] = t
    return o


def unlift(x):
    """Drop the wrapper class when there is no tag."""
    if _type(x) is VxStr and tag(x) is None:
        return sconc(x)
    if _type(x) is VxBytes and tag(x) is None:
        return bconc(x)
    return x


# ------------------------------------------------------------------ byte strings of symbolic length
# A rope is a list of pieces (base, lo, hi): base[lo:hi] of a fixed byte string (plain bytes, or a list of
# elements) with symbolic bounds.  Anything that needs the elements themselves forces the bounds (case split).
def rope_of(x):
    """The pieces of x when it can be handled as a rope without forcing anything, else None."""
    t = tag(x)
    if t is None:
        b = bconc(x)
        return [(b, 0, _len(b))] if b else []
    if t.src is not None and t.src[0] == "rope" and t.cs is None:
        return _list(t.src[1])
    if t.cs is not None:
        return [(t.cs, 0, _len(t.cs))] if t.cs else []
    if t.src is not None and t.src[0] == "cat":
        out = []
        for p in t.src[1]:
            r = rope_of(p)
            if r is None:
                return None
            out += r
        return out
    cs = elems(x)
    return [(cs, 0, _len(cs))] if cs else []


def is_rope(x):
    t = tag(x)
    return t is not None and t.cs is None and t.src is not None and t.src[0] == "rope"


def _same_int(a, b):
    if not is_sym(a) and not is_sym(b):
        return a == b
    d = a - b
    if not is_sym(d):
        return d == 0
    return _entails(iexpr(d) == 0)


def _same_base(a, b):
    if a is b:
        return True
    return _type(a) is _bytes and _type(b) is _bytes and a == b


def mkrope(pieces):
    out = []
    for base, lo, hi in pieces:
        if not is_sym(lo) and not is_sym(hi) and lo >= hi:
            continue
        if out:
            b0, l0, h0 = out[-1]
            if _same_base(b0, base) and _same_int(h0, lo):
                out[-1] = (b0, l0, hi)
                continue
            if not any(is_sym(k) for k in (l0, h0, lo, hi)):
                x, y = b0[l0:h0], base[lo:hi]
                if _type(x) is not _type(y):
                    x, y = _list(x), _list(y)
                x = x + y
                out[-1] = (x, 0, _len(x))
                continue
        out.append((base, lo, hi))
    if not any(is_sym(lo) or is_sym(hi) for _, lo, hi in out):
        cs = []
        for base, lo, hi in out:
            cs += _list(base[lo:hi])
        return mkbytes(cs)
    conc = b"".join([_bytes([_c(c) for c in base[_c(lo) : _c(hi)]]) for base, lo, hi in out])

    def thunk():
        cs = []
        for base, lo, hi in out:
            a = iconc(realise(lo)) if is_sym(lo) else lo
            b = iconc(realise(hi)) if is_sym(hi) else hi
            cs += _list(base[a:b])
        return cs

    return lazybytes(conc, thunk, ("rope", out))


def _pieces_len(pieces):
    es, k, c = [], 0, 0
    for _, lo, hi in pieces:
        if is_sym(lo) or is_sym(hi):
            es.append(iexpr(hi) - iexpr(lo))
        else:
            k += hi - lo
        c += _c(hi) - _c(lo)
    if not es:
        return k
    return mkint(z3.simplify(z3.Sum(es + [z3.IntVal(k)])), c)


def rope_len(x):
    t = tag(x)
    if t.aux is None:
        t.aux = _pieces_len(t.src[1])
    return t.aux


def rope_slice(x, start, stop):
    pieces = rope_of(x)
    if pieces is None:
        return None
    if start is None:
        start = 0
    elif start < 0:
        start = start + _pieces_len(pieces)
        if start < 0:
            start = 0
    if stop is not None and stop < 0:
        stop = stop + _pieces_len(pieces)
        if stop < 0:
            stop = 0
    out, off = [], 0
    for i, (base, lo, hi) in enumerate(pieces):
        if stop is None and (start is off or start <= off):
            out += pieces[i:]
            break
        if stop is not None and stop <= off:
            break
        end = off + (hi - lo)
        if start >= end:
            off = end
            continue
        a = lo if start <= off else lo + (start - off)
        b = hi if stop is None or stop >= end else lo + (stop - off)
        if a < b:
            out.append((base, a, b))
        off = end
    return mkrope(out)


class _SeqOps:
    """Operations shared by VxStr and VxBytes, on element lists."""

    __slots__ = ()

    def _mk(self, cs):
        return mkstr(cs) if _isinstance(self, _str) else mkbytes(cs)

    def _same(self, o):
        if _isinstance(self, _str):
            return _isinstance(o, _str)
        return _isinstance(o, (_bytes, _bytearray))

    def _native(self):
        return _str if _isinstance(self, _str) else _bytes

    def __len__(self):
        t = tag(self)
        if t is not None and t.cs is None:
            return _len(elems(self))
        return self._native().__len__(self)

    def __bool__(self):
        if is_rope(self):
            return _bool(rope_len(self) > 0)
        return VxStr.__len__(self) > 0

    def __hash__(self):
        if tag(self) is not None:
            h = core.CTX.hashed.get(id(self))
            if h is not None:
                return h[1]
            realise(self)
        return self._native().__hash__(self)

    def __iter__(self):
        if tag(self) is None:
            return self._native().__iter__(self)
        if _isinstance(self, _str):
            return iter([mkstr([c]) for c in elems(self)])
        return iter(_list(elems(self)))

    def __getitem__(self, i):
        if _isinstance(i, slice):
            if _isinstance(self, _bytes) and i.step is None and (is_rope(self) or is_sym(i.start) or is_sym(i.stop)):
                r = rope_slice(self, i.start, i.stop)
                if r is not None:
                    return r
            i = slice(realise(i.start), realise(i.stop), realise(i.step))
        elif is_sym(i):
            i = iconc(realise(i))
        if tag(self) is None:
            return self._native().__getitem__(self, i)
        if _type(i) is _int and is_rope(self):
            j = i + rope_len(self) if i < 0 else i
            r = rope_slice(self, j, j + 1)
            if not r:
                raise IndexError("index out of range")
            return elems(r)[0]
        cs = elems(self)
        if _isinstance(i, slice):
            return self._mk(cs[i])
        if not _isinstance(i, _int):
            return self._native().__getitem__(self, i)
        try:
            c = cs[i]
        except IndexError:
            return self._native().__getitem__(self, i)
        return mkstr([c]) if _isinstance(self, _str) else c

    def _eq(self, o):
        ta, tb = tag(self), tag(o)
        if ta is None and tb is None:
            return self._native().__eq__(self, o)
        if ta is not None and ta is tb:
            return True
        if ta is not None and tb is not None and ta.src and tb.src and ta.src[0] == tb.src[0] == "int" and ta.cs is None:
            return ta.src[1] == tb.src[1]
        a, b = elems(self), elems(o)
        if _len(a) != _len(b):
            return False
        return vx_all([eqel(x, y) for x, y in zip(a, b)])

    def __eq__(self, o):
        if not self._same(o):
            return NotImplemented
        return _SeqOps._eq(self, o)

    def __ne__(self, o):
        if not self._same(o):
            return NotImplemented
        r = _SeqOps._eq(self, o)
        return r if r is NotImplemented else vx_not(r)

    def _cmp(self, o, strict):
        a, b = elems(self), elems(o)
        n = min(_len(a), _len(b))
        tail = _len(a) < _len(b) if strict else _len(a) <= _len(b)
        e, c = z3.BoolVal(tail), tail
        for x, y in reversed(_list(zip(a[:n], b[:n]))):
            ex, ey = iexpr(x), iexpr(y)
            e = z3.Or(ex < ey, z3.And(ex == ey, e))
            c = _c(x) < _c(y) or (_c(x) == _c(y) and c)
        return mkbool(e, c)

    def __lt__(self, o):
        return _SeqOps._cmp(self, o, True) if self._same(o) else NotImplemented

    def __le__(self, o):
        return _SeqOps._cmp(self, o, False) if self._same(o) else NotImplemented

    def __gt__(self, o):
        return _SeqOps._cmp(lift(o), self, True) if self._same(o) else NotImplemented

    def __ge__(self, o):
        return _SeqOps._cmp(lift(o), self, False) if self._same(o) else NotImplemented

    def __add__(self, o):
        if not self._same(o):
            return NotImplemented
        return concat(self._native(), [self, o])

    def __radd__(self, o):
        if not self._same(o) or _isinstance(o, _bytearray):
            return NotImplemented
        return concat(self._native(), [o, self])

    def __mul__(self, n):
        if not _isinstance(n, _int):
            return NotImplemented
        n = iconc(realise(n))
        if tag(self) is None:
            return self._native().__mul__(self, n)
        return self._mk(elems(self) * n)

    __rmul__ = __mul__

    def __contains__(self, o):
        if tag(self) is None and not is_sym(o):
            return self._native().__contains__(self, o)
        if not _isinstance(self, _str) and _isinstance(o, _int):
            return _bool(vx_any([eqel(c, o) for c in elems(self)]))
        sub = elems(o)
        cs = elems(self)
        return _bool(vx_any([match_at(cs, i, sub) for i in range(0, _len(cs) - _len(sub) + 1)]))

    # ---- search
    def _find(self, sub, start, end, rev):
        if not _isinstance(self, _str) and _isinstance(sub, _int):
            sub = [sub]
        else:
            sub = elems(sub)
        cs = elems(self)
        s, e, _ = slice(realise(start), realise(end)).indices(_len(cs))
        rng = range(s, e - _len(sub) + 1)
        for i in reversed(rng) if rev else rng:
            if match_at(cs, i, sub):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return _SeqOps._find(self, sub, start, end, False)

    def rfind(self, sub, start=None, end=None):
        return _SeqOps._find(self, sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = _SeqOps._find(self, sub, start, end, False)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = _SeqOps._find(self, sub, start, end, True)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        n, i = 0, 0 if start is None else start
        subl = max(1, _len(elems(sub)))
        while True:
            i = _SeqOps._find(self, sub, i, end, False)
            if i < 0:
                return n
            n += 1
            i += subl

    def startswith(self, p, start=None, end=None):
        if _isinstance(p, _tuple):
            return vx_any([_SeqOps.startswith(self, q, start, end) for q in p])
        cs = elems(self)[slice(start, end)]
        return match_at(cs, 0, elems(p))

    def endswith(self, p, start=None, end=None):
        if _isinstance(p, _tuple):
            return vx_any([_SeqOps.endswith(self, q, start, end) for q in p])
        cs = elems(self)[slice(start, end)]
        q = elems(p)
        if _len(q) > _len(cs):
            return False
        return match_at(cs, _len(cs) - _len(q), q)

    def removeprefix(self, p):
        if _SeqOps.startswith(self, p):
            return self._mk(elems(self)[_len(elems(p)) :])
        return self._mk(elems(self))

    def removesuffix(self, p):
        q = elems(p)
        if q and _SeqOps.endswith(self, p):
            return self._mk(elems(self)[: -_len(q)])
        return self._mk(elems(self))

    def _stripset(self, chars):
        if chars is None:
            if _isinstance(self, _str):
                rngs = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
            else:
                rngs = [(9, 13), (32, 32)]
            return lambda c: vx_any([inset(c, lo, hi) for lo, hi in rngs])
        es = elems(chars)
        return lambda c: vx_any([eqel(c, e) for e in es])

    def lstrip(self, chars=None):
        f = _SeqOps._stripset(self, chars)
        cs = _list(elems(self))
        while cs and f(cs[0]):
            cs.pop(0)
        return self._mk(cs)

    def rstrip(self, chars=None):
        f = _SeqOps._stripset(self, chars)
        cs = _list(elems(self))
        while cs and f(cs[-1]):
            cs.pop()
        return self._mk(cs)

    def strip(self, chars=None):
        r = lift(_SeqOps.lstrip(self, chars))
        return unlift(_SeqOps.rstrip(r, chars))

    def split(self, sep=None, maxsplit=-1):
        cs = elems(self)
        out = []
        if sep is None:
            f = _SeqOps._stripset(self, None)
            cur = []
            for k, c in enumerate(cs):
                if f(c):
                    if cur:
                        out.append(cur)
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and _len(out) >= maxsplit:
                        rest = lift(self._mk(cs[k:]))
                        out.append(elems(_SeqOps.rstrip(rest)))
                        cur = []
                        break
                    cur.append(c)
            if cur:
                out.append(cur)
            return [self._mk(c) for c in out]
        sub = elems(sep)
        if not sub:
            raise ValueError("empty separator")
        i = st = 0
        while i + _len(sub) <= _len(cs) and (maxsplit < 0 or _len(out) < maxsplit):
            if match_at(cs, i, sub):
                out.append(cs[st:i])
                i += _len(sub)
                st = i
            else:
                i += 1
        out.append(cs[st:])
        return [self._mk(c) for c in out]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return _SeqOps.split(self, sep, maxsplit)
        cs = elems(self)
        sub = elems(sep)
        out = []
        end = _len(cs)
        i = end - _len(sub)
        while i >= 0 and _len(out) < maxsplit:
            if match_at(cs[:end], i, sub):
                out.append(cs[i + _len(sub) : end])
                end = i
                i -= _len(sub)
            else:
                i -= 1
        out.append(cs[:end])
        return [self._mk(c) for c in reversed(out)]

    def partition(self, sep):
        i = _SeqOps._find(self, sep, None, None, False)
        cs = elems(self)
        if i < 0:
            return self._mk(cs), self._mk([]), self._mk([])
        n = _len(elems(sep))
        return self._mk(cs[:i]), self._mk(elems(sep)), self._mk(cs[i + n :])

    def rpartition(self, sep):
        i = _SeqOps._find(self, sep, None, None, True)
        cs = elems(self)
        if i < 0:
            return self._mk([]), self._mk([]), self._mk(cs)
        n = _len(elems(sep))
        return self._mk(cs[:i]), self._mk(elems(sep)), self._mk(cs[i + n :])

    def replace(self, old, new, count=-1):
        sub, nw = elems(old), elems(new)
        cs = elems(self)
        out = []
        if not sub:
            for k, c in enumerate(cs):
                out += nw + [c]
            return self._mk(out + nw)
        i = n = 0
        while i < _len(cs):
            if (count < 0 or n < count) and match_at(cs, i, sub):
                out += nw
                i += _len(sub)
                n += 1
            else:
                out.append(cs[i])
                i += 1
        return self._mk(out)

    def join(self, parts):
        parts = _list(parts)
        out = []
        for k, p in enumerate(parts):
            if not self._same(p):
                raise TypeError("sequence item %d: expected %s instance, %s found" % (k, self._native().__name__, _type(p).__name__))
            if k and (_len(sconc(self)) if _isinstance(self, _str) else _len(bconc(self))):
                out.append(self)
            out.append(p)
        return concat(self._native(), out)

    def _case(self, lo1, hi1, delta, name):
        t = tag(self)
        if t.src and t.src[0] == "int" and t.cs is None:
            return self
        out = []
        for c in elems(self):
            if not is_sym(c):
                s = getattr(chr(c), name)() if _isinstance(self, _str) else chr(getattr(_bytes([c]), name)()[0])
                out += [ord(x) for x in s]
            elif not _isinstance(self, _str) or inset(c, 0, 127):
                hd = getattr(c, "_hexd", None)
                if hd is not None:
                    out.append(hexchar(hd, lo1 == 97))
                    continue
                e, cc = iexpr(c), _c(c)
                out.append(mkint(z3.If(z3.And(e >= lo1, e <= hi1), e + delta, e), cc + delta if lo1 <= cc <= hi1 else cc))
            elif vx_any([inset(c, lo, hi) for lo, hi in _class_ranges(True, name)[1]]):
                out.append(c)
            else:
                out += [ord(x) for x in getattr(chr(iconc(realise(c))), name)()]
        return self._mk(out)

    def lower(self):
        return _SeqOps._case(self, 65, 90, 32, "lower")

    def upper(self):
        return _SeqOps._case(self, 97, 122, -32, "upper")

    def casefold(self):
        return _SeqOps._case(self, 65, 90, 32, "casefold")

    def ljust(self, w, fill=None):
        f = elems(fill)[0] if fill is not None else 32
        cs = elems(self)
        return self._mk(_list(cs) + [f] * max(0, realise(w) - _len(cs)))

    def rjust(self, w, fill=None):
        f = elems(fill)[0] if fill is not None else 32
        cs = elems(self)
        return self._mk([f] * max(0, realise(w) - _len(cs)) + _list(cs))

    def zfill(self, w):
        cs = _list(elems(self))
        pad = [48] * max(0, realise(w) - _len(cs))
        if pad and cs and (vx_any([eqel(cs[0], 43), eqel(cs[0], 45)])):
            return self._mk([cs[0]] + pad + cs[1:])
        return self._mk(pad + cs)

    def _every(self, f):
        cs = elems(self)
        return vx_all([f(c) for c in cs]) if cs else False

    def _class(self, name):
        """Whether all elements, and at least one, are in the character class of that method."""
        f = getattr(_str if _isinstance(self, _str) else _bytes, name)
        low, high = _class_ranges(_isinstance(self, _str), name)
        cs = elems(self)
        if not cs:
            return False
        for c in cs:
            if not is_sym(c):
                if not f(chr(c) if _isinstance(self, _str) else _bytes([c])):
                    return False
                continue
            if inset(c, 0, 127):
                if not vx_any([inset(c, lo, hi) for lo, hi in low]):
                    return False
            elif not vx_any([inset(c, lo, hi) for lo, hi in high]):
                return False
        return True

    def isdigit(self):
        return _SeqOps._class(self, "isdigit")

    def isdecimal(self):
        return _SeqOps._class(self, "isdecimal")

    def isnumeric(self):
        return _SeqOps._class(self, "isnumeric")

    def isspace(self):
        return _SeqOps._class(self, "isspace")

    def isalpha(self):
        return _SeqOps._class(self, "isalpha")

    def isalnum(self):
        return _SeqOps._class(self, "isalnum")

    def isprintable(self):
        return not elems(self) or _SeqOps._class(self, "isprintable")

    def isascii(self):
        cs = elems(self)
        return vx_all([inset(c, 0, 127) for c in cs])

    def splitlines(self, keepends=False):
        ends = [(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)] if _isinstance(self, _str) else [(10, 10), (13, 13)]
        cs = elems(self)
        out, st, i = [], 0, 0
        while i < _len(cs):
            if vx_any([inset(cs[i], lo, hi) for lo, hi in ends]):
                n = 2 if i + 1 < _len(cs) and eqel(cs[i], 13) and eqel(cs[i + 1], 10) else 1
                out.append(cs[st : i + n if keepends else i])
                i += n
                st = i
            else:
                i += 1
        if st < _len(cs):
            out.append(cs[st:])
        return [self._mk(c) for c in out]

    def translate(self, table, *a, **k):
        if a or k or not _isinstance(table, dict) or not _isinstance(self, _str):
            return self._native().translate(realise(self), realise(table), *a, **k)
        out = []
        for c in elems(self):
            for key, to in table.items():
                if eqel(c, key):
                    out += [] if to is None else elems(to) if _isinstance(to, _str) else [to]
                    break
            else:
                out.append(c)
        return self._mk(out)

    def hex(self, *a):
        out = []
        for c in elems(self):
            if is_sym(c):
                out += [hexchar(d) for d in digits_le(c, 16, 2)[::-1]]
            else:
                out += [ord(x) for x in "%02x" % c]
        return mkstr(out)


_CLASS_RANGES = {}


def _class_ranges(is_str, name):
    """(ranges below 128, ranges from 128 on) of what str.<name> accepts, or of what str.<name> (lower and the like) leaves alone."""
    key = (is_str, name)
    if key not in _CLASS_RANGES:
        f = getattr(_str if is_str else _bytes, name)
        same = not name.startswith("is")
        low, high = [], []
        for c in range(0x110000 if is_str else 256):
            x = chr(c) if is_str else _bytes([c])
            if (f(x) == x) if same else f(x):
                r = low if c < 128 else high
                if r and r[-1][1] == c - 1:
                    r[-1] = (r[-1][0], c)
                else:
                    r.append((c, c))
        _CLASS_RANGES[key] = (low, high)
    return _CLASS_RANGES[key]


def concat(native, parts):
    parts = [p for p in parts]
    if not any(is_sym(p) for p in parts):
        if native is _str:
            return "".join([sconc(p) for p in parts])
        return b"".join([bconc(p) for p in parts])
    parts = [p for p in parts if is_sym(p) or _len(p)]
    if _len(parts) == 1:
        p = lift(parts[0])
        return p
    lazy = any((tag(p) is not None and tag(p).cs is None) for p in parts)
    if not lazy:
        out = []
        for p in parts:
            out += elems(p)
        return mkstr(out) if native is _str else mkbytes(out)

    if native is _bytes and any(is_rope(p) for p in parts):
        rs = [rope_of(p) for p in parts]
        if all(r is not None for r in rs):
            return mkrope([x for r in rs for x in r])

    def thunk():
        out = []
        for p in parts:
            out += elems(p)
        return out

    parts = [lift(p) for p in parts]  # bytearrays may be mutated later
    if native is _str:
        return lazystr("".join([sconc(p) for p in parts]), thunk, ("cat", parts))
    return lazybytes(b"".join([bconc(p) for p in parts]), thunk, ("cat", parts))


def _repr_elems(x):
    """repr() of a symbolic string: itself in quotes while all of it is plain ASCII, else concretised."""
    cs = elems(x)
    if vx_all([vx_all([inset(c, 32, 126), vx_not(eqel(c, 39)), vx_not(eqel(c, 92))]) for c in cs]):
        return ([98] if _isinstance(x, _bytes) else []) + [39] + _list(cs) + [39]
    x = realise(x)
    return elems(_str.__repr__(sconc(x)) if _isinstance(x, _str) else _bytes.__repr__(bconc(x)))


class VxStr(_str):
    def __new__(cls, *args, **kw):
        if not args and not kw:
            return "" if cls is VxStr else _str.__new__(cls)
        v = args[0] if args else kw.get("object")
        if _len(args) > 1 or "encoding" in kw or "errors" in kw:
            enc = args[1] if _len(args) > 1 else kw.get("encoding", "utf-8")
            err = args[2] if _len(args) > 2 else kw.get("errors", "strict")
            r = lift(v).decode(enc, err)
        else:
            r = vx_str(v)
        if cls is VxStr:
            return r
        o = _str.__new__(cls, sconc(r))
        if tag(r) is not None:
            _settag(o, tag(r))
        return o

    def __str__(self):
        return unlift(lift(self))

    def __repr__(self):
        if tag(self) is None:
            return _str.__repr__(self)
        return lazystr(_str.__repr__(sconc(self)), lambda: _repr_elems(self))

    def __format__(self, spec):
        r = format_any(self, spec)
        return realise(r) if is_sym(r) else r

    def __mod__(self, o):
        return percent(self, o)

    def encode(self, encoding="utf-8", errors="strict"):
        if tag(self) is None:
            return _str.encode(self, encoding, errors)
        return encode(self, realise(encoding), realise(errors))

    def format(self, *a, **k):
        if tag(self) is not None:
            return _str.format(realise(self), *[realise(x) for x in a], **k)
        return _str.format(sconc(self), *[realise(x) for x in a], **{n: realise(x) for n, x in k.items()})


class VxBytes(_bytes):
    def __new__(cls, *args, **kw):
        r = vx_bytes(*args, **kw)
        if cls is VxBytes:
            return r
        o = _bytes.__new__(cls, bconc(r))
        if tag(r) is not None:
            _settag(o, tag(r))
        return o

    @classmethod
    def fromhex(cls, s):
        if is_sym(s):
            from . import shims

            return shims.unhexlify(s)
        return _bytes.fromhex(s)

    def __str__(self):
        return _bytes.__str__(self)

    def __repr__(self):
        if tag(self) is None:
            return _bytes.__repr__(self)
        return lazystr(_bytes.__repr__(bconc(self)), lambda: _repr_elems(self))

    def __bytes__(self):
        return unlift(lift(self))

    def decode(self, encoding="utf-8", errors="strict"):
        if tag(self) is None:
            return _bytes.decode(self, encoding, errors)
        return decode(self, realise(encoding), realise(errors))

    def __mod__(self, o):
        return _bytes.__mod__(realise(self), realise(o))


VxStr.__name__ = VxStr.__qualname__ = "str"
VxBytes.__name__ = VxBytes.__qualname__ = "bytes"
VxStr.__module__ = VxBytes.__module__ = "builtins"


def _copy_ops():
    for cls, native in ((VxStr, _str), (VxBytes, _bytes)):
        for n, f in vars(_SeqOps).items():
            if n in ("__slots__", "__module__", "__doc__", "__dict__", "__weakref__", "__qualname__"):
                continue
            if n in vars(cls) and n != "__hash__":
                continue
            if n == "hex" and cls is VxStr:
                continue
            if not n.startswith("_") and n not in dir(native):
                continue
            if not n.startswith("_"):
                f = _guarded(f, native, n)
            setattr(cls, n, f)
        for n in dir(native):
            if n.startswith("__") or n in vars(cls) or not callable(getattr(native, n)) or n in ("maketrans",):
                continue
            setattr(cls, n, _fallback(native, n))


def _guarded(f, native, name):
    nat = getattr(native, name)

    def g(self, *a, **k):
        if tag(self) is None and not any(is_symdeep(x) for x in a):
            if name == "join" and a and not _isinstance(a[0], (_list, _tuple)):
                a = (_list(a[0]),)
                if any(is_sym(x) for x in a[0]):
                    return f(self, *a)
            return nat(native.__str__(self) if native is _str else bconc(self), *a, **k)
        return f(self, *a, **k)

    g.__name__ = name
    return g


def _fallback(native, name):
    nat = getattr(native, name)

    def g(self, *a, **k):
        r = nat(realise(self), *[realise(x) for x in a], **{n: realise(x) for n, x in k.items()})
        return r

    g.__name__ = name
    return g


# ------------------------------------------------------------------ bytearray
class VxByteArray(_bytearray):
    def __init__(self, *args, **kw):
        r = vx_bytes(*args, **kw)
        self._set(None, bconc(r), tag(r))

    def _set(self, cs, conc=None, t=None):
        if conc is None:
            conc = _bytes([_c(c) for c in cs])
        _bytearray.__setitem__(self, slice(None), conc)
        if t is not None:
            self.__dict__["_vx"] = t
        elif cs is not None and any(is_sym(c) for c in cs):
            self.__dict__["_vx"] = Tag(_list(cs))
        else:
            self.__dict__.pop("_vx", None)

    def _els(self):
        return _list(elems(self))

    def __getitem__(self, i):
        if tag(self) is None and not is_sym(i) and not _isinstance(i, slice):
            return _bytearray.__getitem__(self, i)
        r = lift(self)[i]
        if _isinstance(i, slice):
            return VxByteArray(r)
        return r

    def __setitem__(self, i, v):
        cs = self._els()
        if _isinstance(i, slice):
            i = slice(realise(i.start), realise(i.stop), realise(i.step))
            cs[i] = elems(v) if _isinstance(v, (_bytes, _bytearray)) else _list(v)
        else:
            i = iconc(realise(i))
            if not inset(v, 0, 255):
                raise ValueError("byte must be in range(0, 256)")
            cs[i] = v
        self._set(cs)

    def __delitem__(self, i):
        cs = self._els()
        if _isinstance(i, slice):
            i = slice(realise(i.start), realise(i.stop), realise(i.step))
        else:
            i = iconc(realise(i))
        del cs[i]
        self._set(cs)

    def __len__(self):
        return _len(lift(self)) if tag(self) is not None else _bytearray.__len__(self)

    def __iter__(self):
        return iter(self._els())

    def __iadd__(self, o):
        if not _isinstance(o, (_bytes, _bytearray)):
            o = _bytes(o)
        if tag(self) is None and not is_sym(o):
            _bytearray.extend(self, bconc(o))
            return self
        r = concat(_bytes, [lift(self), lift(o)])
        self._set(None, bconc(r), tag(r))
        return self

    def __add__(self, o):
        if not _isinstance(o, (_bytes, _bytearray)):
            return NotImplemented
        r = VxByteArray(self)
        r += o
        return r

    def __radd__(self, o):
        if not _isinstance(o, (_bytes, _bytearray)):
            return NotImplemented
        return concat(_bytes, [lift(o), lift(self)])

    def extend(self, o):
        if not _isinstance(o, (_bytes, _bytearray)):
            o = mkbytes(_list(o))
        self.__iadd__(o)

    def append(self, v):
        if not inset(v, 0, 255):
            raise ValueError("byte must be in range(0, 256)")
        self._set(self._els() + [v])

    def insert(self, i, v):
        cs = self._els()
        cs.insert(realise(i), v)
        self._set(cs)

    def pop(self, i=-1):
        cs = self._els()
        r = cs.pop(realise(i))
        self._set(cs)
        return r

    def reverse(self):
        self._set(self._els()[::-1])

    def clear(self):
        self._set([])

    def copy(self):
        return VxByteArray(self)

    def __eq__(self, o):
        if not _isinstance(o, (_bytes, _bytearray)):
            return NotImplemented
        return lift(self) == lift(o)

    def __ne__(self, o):
        if not _isinstance(o, (_bytes, _bytearray)):
            return NotImplemented
        return lift(self) != lift(o)

    def __lt__(self, o):
        return lift(self) < lift(o)

    def __le__(self, o):
        return lift(self) <= lift(o)

    def __gt__(self, o):
        return lift(self) > lift(o)

    def __ge__(self, o):
        return lift(self) >= lift(o)

    __hash__ = None

    def __contains__(self, o):
        return o in lift(self)

    def __bool__(self):
        if is_rope(self):
            return _bool(rope_len(self) > 0)
        return VxByteArray.__len__(self) > 0

    def __repr__(self):
        return _bytearray.__repr__(self)

    def __str__(self):
        return _bytearray.__str__(self)


VxByteArray.__name__ = VxByteArray.__qualname__ = "bytearray"
VxByteArray.__module__ = "builtins"


def _mk_ba_methods():
    for n in ("find", "rfind", "index", "rindex", "count", "startswith", "endswith", "decode", "hex"):
        def m(self, *a, _n=n, **k):
            return getattr(lift(self), _n)(*a, **k)
        setattr(VxByteArray, n, m)
    for n in ("strip", "lstrip", "rstrip", "replace", "lower", "upper", "ljust", "rjust", "zfill", "removeprefix", "removesuffix"):
        def m2(self, *a, _n=n, **k):
            return VxByteArray(getattr(lift(self), _n)(*a, **k))
        setattr(VxByteArray, n, m2)
    for n in ("split", "rsplit", "partition", "rpartition"):
        def m3(self, *a, _n=n, **k):
            r = getattr(lift(self), _n)(*a, **k)
            return _type(r)(VxByteArray(x) for x in r)
        setattr(VxByteArray, n, m3)


def vx_bytes(*args, **kw):
    if not args and not kw:
        return b""
    v = args[0] if args else kw.get("source")
    if _isinstance(v, _str):
        if not is_sym(v):
            return _bytes(*args, **kw)
        enc = args[1] if _len(args) > 1 else kw["encoding"]
        err = args[2] if _len(args) > 2 else kw.get("errors", "strict")
        return encode(v, enc, err)
    if _isinstance(v, (_bytes, _bytearray)):
        return unlift(lift(v)) if is_sym(v) else bconc(v)
    if _isinstance(v, _int):
        return _bytes(iconc(realise(v)))
    if _isinstance(v, memoryview):
        return _bytes(v)
    bm = getattr(_type(v), "__bytes__", None)
    if bm is not None:
        return bm(v)
    vs = _list(v)
    for x in vs:
        if is_sym(x) and not inset(x, 0, 255):
            raise ValueError("bytes must be in range(0, 256)")
    if any(is_sym(x) for x in vs):
        return mkbytes(vs)
    return _bytes([x.__index__() for x in vs])


# ------------------------------------------------------------------ codecs
def _norm(enc):
    import codecs

    return codecs.lookup(enc).name


def encode(s, enc, errors="strict"):
    enc = _norm(enc)
    t = tag(s)
    if t.src and t.src[0] == "dec" and t.src[1] == enc and t.src[3] == errors:
        return t.src[2]
    if enc not in ("utf-8", "utf-16-le", "utf-16-be", "ascii", "iso8859-1"):
        return _str.encode(realise(s), enc, errors)
    lazy_int = t.src and t.src[0] in ("int", "hex") and t.cs is None
    if not lazy_int and not (t.aux or {}).get("wellformed"):
        for c in elems(s):
            if not is_sym(c):
                continue
            if enc == "ascii":
                bad = vx_not(inset(c, 0, 127))
            elif enc == "iso8859-1":
                bad = vx_not(inset(c, 0, 255))
            elif errors == "surrogatepass":
                bad = False
            else:
                bad = inset(c, 0xD800, 0xDFFF)
            if bad:
                return _str.encode(sconc(realise(s)) if errors != "strict" else sconc(s), enc, errors)
    s2 = lift(s)
    conc = _str.encode(sconc(s), enc, errors)
    return lazybytes(conc, lambda: _enc_elems(s2, enc, errors), ("enc", enc, s2, errors))


def _enc_elems(s, enc, errors):
    out = []
    for c in elems(s):
        if not is_sym(c):
            out += _list(chr(c).encode(enc, errors))
            continue
        if enc in ("ascii", "iso8859-1"):
            out.append(c)
        elif enc == "utf-8":
            if inset(c, 0, 0x7F):
                out.append(c)
            elif inset(c, 0, 0x7FF):
                a = digits_le(c, 64, 2)
                out += [a[1] + 0xC0, a[0] + 0x80]
            elif inset(c, 0, 0xFFFF):
                a = digits_le(c, 64, 3)
                out += [a[2] + 0xE0, a[1] + 0x80, a[0] + 0x80]
            else:
                a = digits_le(c, 64, 4)
                out += [a[3] + 0xF0, a[2] + 0x80, a[1] + 0x80, a[0] + 0x80]
        else:
            if inset(c, 0, 0xFFFF):
                units = [c]
            else:
                v = c - 0x10000
                hi, lo = divmod(v, 0x400)
                units = [hi + 0xD800, lo + 0xDC00]
            for u in units:
                d = digits_le(u, 256, 2)
                out += d if enc == "utf-16-le" else d[::-1]
    return out


def decode(b, enc, errors="strict"):
    enc = _norm(enc)
    t = tag(b)
    if t.src and t.src[0] == "enc" and t.src[1] == enc and (t.src[3] == errors or errors == "strict" or True):
        if t.src[3] == "strict" or (t.src[3] == errors and enc == "utf-8"):
            return t.src[2]
    if t.src and t.src[0] == "b64":
        b2 = b
        return lazystr(bconc(b).decode("ascii"), lambda: elems(b2), ("dec", enc, b2, errors))
    if t.src and t.src[0] == "xml" and enc == t.src[2]:
        b2 = b
        return lazystr(bconc(b).decode(enc), lambda: _dec_elems(elems(b2), enc, errors, b2), ("xml", t.src[1], None))
    if enc not in ("utf-8", "utf-16-le", "utf-16-be", "ascii", "iso8859-1"):
        return _bytes.decode(bconc(realise(b)), enc, errors)
    return mkstr(_dec_elems(elems(b), enc, errors, b))


def _dec_elems(cs, enc, errors, orig):
    out = []
    i, n = 0, _len(cs)
    bail = lambda: [ord(x) for x in _bytes.decode(bconc(realise(orig)), enc, errors)]
    if enc == "iso8859-1":
        return _list(cs)
    if enc == "ascii":
        for c in cs:
            if not inset(c, 0, 127):
                return bail()
            out.append(c)
        return out
    if enc == "utf-8":
        while i < n:
            c = cs[i]
            if inset(c, 0, 0x7F):
                out.append(c)
                i += 1
                continue
            if inset(c, 0xC2, 0xDF):
                k, v = 1, c - 0xC0
            elif inset(c, 0xE0, 0xEF):
                k, v = 2, c - 0xE0
            elif inset(c, 0xF0, 0xF4):
                k, v = 3, c - 0xF0
            else:
                return bail()
            if i + k >= n + 0 and i + k > n - 1:
                return bail()
            for d in cs[i + 1 : i + 1 + k]:
                if not inset(d, 0x80, 0xBF):
                    return bail()
                v = v * 64 + (d - 0x80)
            lo, hi = {1: (0x80, 0x7FF), 2: (0x800, 0xFFFF), 3: (0x10000, 0x10FFFF)}[k]
            if not inset(v, lo, hi) or (errors != "surrogatepass" and inset(v, 0xD800, 0xDFFF)):
                return bail()
            out.append(v)
            i += 1 + k
        return out
    # utf-16
    if n % 2:
        return bail()
    be = enc == "utf-16-be"

    def unit(k):
        p = cs[k : k + 2]
        return from_digits_le(p[::-1] if be else p, 256)

    while i < n:
        u = unit(i)
        i += 2
        if not inset(u, 0xD800, 0xDFFF):
            out.append(u)
            continue
        if inset(u, 0xD800, 0xDBFF) and i < n:
            w = unit(i)
            if inset(w, 0xDC00, 0xDFFF):
                out.append((u - 0xD800) * 0x400 + (w - 0xDC00) + 0x10000)
                i += 2
                continue
        if errors == "surrogatepass":
            out.append(u)
            continue
        return bail()
    return out


# ------------------------------------------------------------------ float (idealised as a rational)
class VxFloat(_float):
    def __new__(cls, *args, **kw):
        v = args[0] if args else 0.0
        c, t = vx_parse_float(v)
        if cls is VxFloat:
            return c if t is None else mkfloat(*t)
        o = _float.__new__(cls, c)
        if t is not None:
            _settag(o, t)
        return o

    def __hash__(self):
        if tag(self) is not None:
            realise(self)
        return _float.__hash__(self)

    def __trunc__(self):
        t = tag(self)
        if t is None:
            return _float.__trunc__(self)
        n, d, c = t
        if mkbool(n < 0, c < 0):
            q, r = ctx().divmod_const(-n, d)
            return mkint(-q, -((-c) // d))
        q, r = ctx().divmod_const(n, d)
        return mkint(q, c // d)

    def __int__(self):
        return VxFloat.__trunc__(self)

    def __floor__(self):
        t = tag(self)
        if t is None:
            return _float.__floor__(self)
        q, r = ctx().divmod_const(t[0], t[1])
        return mkint(q, t[2] // t[1])

    def __float__(self):
        return self if tag(self) is not None else _float.__float__(self)

    def __bool__(self):
        t = tag(self)
        if t is None:
            return _float.__bool__(self)
        return _bool(mkbool(t[0] != 0, t[2] != 0))

    def __neg__(self):
        t = tag(self)
        return _float.__neg__(self) if t is None else mkfloat(-t[0], t[1], -t[2])

    def __abs__(self):
        t = tag(self)
        if t is None:
            return _float.__abs__(self)
        return -self if self < 0 else mkfloat(*t)

    def __str__(self):
        if tag(self) is None:
            return _float.__repr__(self)
        return lazystr(_float.__repr__(self), lambda: elems(_float.__repr__(realise(self))), ("float", self))

    __repr__ = __str__

    def __format__(self, spec):
        r = format_any(self, spec)
        return realise(r) if is_sym(r) else r

    def is_integer(self):
        t = tag(self)
        if t is None:
            return _float.is_integer(self)
        q, r = ctx().divmod_const(t[0], t[1])
        return mkbool(r == 0, t[2] % t[1] == 0)

    def __round__(self, n=None):
        t = tag(self)
        if t is None:
            return _float.__round__(self, n) if n is not None else _float.__round__(self)
        k = 10 ** (n or 0)
        v = round_half_even(t[0] * k, t[1], t[2] * k)
        return v if n is None else mkfloat(iexpr(v), k, _c(v))


VxFloat.__name__ = VxFloat.__qualname__ = "float"
VxFloat.__module__ = "builtins"


def round53(n, d, c):
    """n/d rounded to the nearest double, ties to even (case split on sign and binade; no subnormals or overflow here)."""
    if z3.is_int_value(n):
        f = Fraction(n.as_long() / d)
        return z3.IntVal(f.numerator), f.denominator, f.numerator
    if d & (d - 1) == 0 and mkbool(z3.And(n > -(2**53), n < 2**53), -(2**53) < c < 2**53):
        return n, d, c
    if mkbool(n == 0, c == 0):
        return z3.IntVal(0), 1, 0
    neg = True if mkbool(n < 0, c < 0) else False
    if neg:
        n, c = -n, -c
    lo, hi = -80, 120  # 2**lo <= n/d < 2**hi; the other binades are other paths
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if mkbool(n * 2 ** max(0, -mid) >= d * 2 ** max(0, mid), c * 2 ** max(0, -mid) >= d * 2 ** max(0, mid)):
            lo = mid
        else:
            hi = mid
    E = lo
    k = 52 - E
    m = round_half_even(n * 2**k if k > 0 else n, d if k > 0 else d * 2**-k, c * 2**k if k > 0 else c)
    e, cm = iexpr(m), _c(m)
    if neg:
        e, cm = -e, -cm
    return (z3.simplify(e), 2**k, cm) if k > 0 else (z3.simplify(e * 2**-k), 1, cm * 2**-k)


def mkfloat(n, d, c):
    """n/d rounded, with n a z3 Int, d a positive int; c the concrete numerator."""
    if z3.is_int_value(n):
        return n.as_long() / d
    n, d, c = round53(n, d, c)
    if z3.is_int_value(n):
        return n.as_long() / d
    o = _float.__new__(VxFloat, c / d)
    o.__dict__["_vx"] = (n, d, c)
    return o


def round_half_even(n, d, c):
    q, r = ctx().divmod_const(n, d)
    cq, cr = c // d, c % d
    if mkbool(2 * r > d, 2 * cr > d):
        return mkint(q + 1, cq + 1)
    if mkbool(2 * r == d, 2 * cr == d):
        _, p = ctx().divmod_const(q, 2)
        if mkbool(p == 1, cq % 2 == 1):
            return mkint(q + 1, cq + 1)
    return mkint(q, cq)


def frat(x):
    """(num expr, den, conc num) of a number"""
    t = tag(x)
    if _isinstance(x, _float) and t is not None:
        return t
    if _isinstance(x, _int) or _type(x) is VxBool:
        return iexpr(x), 1, _c(x)
    f = Fraction(_float.__float__(x))
    return z3.IntVal(f.numerator), f.denominator, f.numerator


def _finite(o):
    return _isinstance(o, _int) or (_isinstance(o, _float) and (tag(o) is not None or _float.__float__(o) - _float.__float__(o) == 0))


def _mkf(name, f):
    native = getattr(_float, name)

    def op(self, o):
        if not _isinstance(o, (_int, _float)):
            return NotImplemented
        if (tag(self) is None and not is_sym(o)) or not _finite(o) or not _finite(self):
            return native(_float.__float__(self), o)
        return f(frat(self), frat(o), self, o)

    return op


def _fadd(a, b, x, y):
    return mkfloat(z3.simplify(a[0] * b[1] + b[0] * a[1]), a[1] * b[1], a[2] * b[1] + b[2] * a[1])


def _fsub(a, b, x, y):
    return mkfloat(z3.simplify(a[0] * b[1] - b[0] * a[1]), a[1] * b[1], a[2] * b[1] - b[2] * a[1])


def _fmul(a, b, x, y):
    if not z3.is_int_value(a[0]) and not z3.is_int_value(b[0]):
        return _float(realise(x)) * _float(realise(y))
    return mkfloat(z3.simplify(a[0] * b[0]), a[1] * b[1], a[2] * b[2])


def _fdiv(a, b, x, y):
    if not z3.is_int_value(b[0]):
        return _float(realise(x)) / _float(realise(y))
    bn = b[2]
    if bn == 0:
        raise ZeroDivisionError("float division by zero")
    s = -1 if bn < 0 else 1
    return mkfloat(z3.simplify(a[0] * (b[1] * s)), a[1] * abs(bn), a[2] * b[1] * s)


def _ffloordiv(a, b, x, y):
    return VxFloat.__floor__(_fdiv(a, b, x, y)) * 1.0


def _fmod(a, b, x, y):
    return x - _ffloordiv(a, b, x, y) * y


for _n, _f in dict(add=_fadd, sub=_fsub, mul=_fmul, truediv=_fdiv, floordiv=_ffloordiv, mod=_fmod).items():
    setattr(VxFloat, "__%s__" % _n, _mkf("__%s__" % _n, _f))
    setattr(VxFloat, "__r%s__" % _n, _mkf("__r%s__" % _n, (lambda f: lambda a, b, x, y: f(b, a, y, x))(_f)))
for _n, _f in dict(
    __lt__=lambda a, b: a < b, __le__=lambda a, b: a <= b, __gt__=lambda a, b: a > b, __ge__=lambda a, b: a >= b,
    __eq__=lambda a, b: a == b, __ne__=lambda a, b: a != b,
).items():
    setattr(VxFloat, _n, _mkf(_n, (lambda f: lambda a, b, x, y: mkbool(f(a[0] * b[1], b[0] * a[1]), f(a[2] * b[1], b[2] * a[1])))(_f)))


def vx_parse_float(v):
    if not is_sym(v):
        return _float(plain(v)), None
    if _isinstance(v, _float):
        return _float.__float__(v), tag(v)
    if _isinstance(v, _int) or _type(v) is VxBool:
        t = round53(iexpr(v), 1, _c(v))
        return t[2] / t[1], (None if z3.is_int_value(t[0]) else t)
    if _isinstance(v, (_str, _bytes)):
        t = tag(v)
        if t.src and t.src[0] == "int":
            return vx_parse_float(t.src[1])
        cs = _list(elems(v))
        ip, fp, seen = [], [], False
        for c in cs:
            if inset(c, 48, 57):
                (fp if seen else ip).append(c - 48)
            elif not seen and eqel(c, 46):
                seen = True
            else:
                return _float(realise(v)), None
        if not ip and not fp:
            return _float(realise(v)), None
        ds = ip + fp
        n = _len(ds)
        e = z3.Sum([iexpr(d) * 10 ** (n - 1 - k) for k, d in enumerate(ds)])
        c = sum(_c(d) * 10 ** (n - 1 - k) for k, d in enumerate(ds))
        t = round53(z3.simplify(e), 10 ** _len(fp), c)
        return t[2] / t[1], (None if z3.is_int_value(t[0]) else t)
    return _float(realise(v)), None


def format_float(v, spec):
    import re as _re

    t = tag(v)
    m = _re.fullmatch(r"(0)?(\d+)?\.(\d+)f", spec)
    if not m or t is None:
        return _float.__format__(_float.__float__(realise(v)), spec)
    prec = _int(m.group(3))
    width = _int(m.group(2) or 0)
    conc = _float.__format__(_float.__float__(v), spec)

    def thunk():
        n, d, c = t
        out = []
        if mkbool(n < 0, c < 0):
            out.append(45)
            n, c = -n, -c
        k = 10**prec
        r = round_half_even(n * k, d, c * k)
        ip, fp = divmod(r, k) if prec else (r, 0)
        ds = dec_digits(ip) if is_sym(ip) else [ord(x) for x in _str(ip)]
        out += ds
        if prec:
            out.append(46)
            out += [48 + x for x in digits_le(fp, 10, prec)[::-1]] if is_sym(fp) else [ord(x) for x in "%0*d" % (prec, fp)]
        pad = max(0, width - _len(out))
        if pad:
            out = [48 if m.group(1) else 32] * pad + out
        return out

    return lazystr(conc, thunk, None)


# ------------------------------------------------------------------ enums
class SymEnum:
    """An enum value chosen by the solver among `members`."""

    def __init__(self, e, idx, members):
        self.e = e
        self.idx = idx
        self.members = members

    @property
    def member(self):
        return self.members[self.idx]

    def realise(self, where=None):
        ctx().concretise(self.e, self.idx, where or site())
        return self.member

    def _cond(self, o):
        if _type(o) is SymEnum:
            if o.members == self.members:
                return mkbool(self.e == o.e, self.idx == o.idx)
            return self.realise() == o.realise()
        hits = [i for i, m in enumerate(self.members) if m is o or m == o]
        return mkbool(z3.Or([self.e == i for i in hits]) if hits else z3.BoolVal(False), self.idx in hits)

    def __eq__(self, o):
        return self._cond(o)

    def __ne__(self, o):
        return vx_not(self._cond(o))

    def __hash__(self):
        return hash(self.realise())

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.realise(), n)

    def __str__(self):
        return _str(self.member)

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.member, spec)

    def _op(name):  # noqa
        def f(self, *a):
            return getattr(self.realise(), name)(*a)

        return f

    for _n in ("__or__", "__and__", "__lt__", "__le__", "__gt__", "__ge__", "__add__", "__sub__", "__int__", "__index__", "__invert__", "__contains__"):
        locals()[_n] = _op(_n)


# ------------------------------------------------------------------ str() / format
def vx_str(v):
    t = _type(v)
    if t is _str:
        return v
    if _isinstance(v, _str):
        m = t.__str__
        if m is not VxStr.__str__ and m is not _str.__str__:
            return m(v)
        return unlift(lift(v))
    if t is VxBool or t is SymEnum:
        return _str(realise(v))
    m = t.__str__
    r = m(v)
    return r


def format_any(v, spec):
    if spec == "" or spec is None:
        t = _type(v)
        if is_sym(v):
            if t in (VxInt, VxStr, VxFloat):
                return vx_str(v)
            if t is VxBool:
                return _str(realise(v))
            if t is VxBytes:
                return vx_str(v)
        if _isinstance(v, _str):
            return unlift(lift(v)) if t.__format__ in (VxStr.__format__, _str.__format__) else t.__format__(v, "")
        if t.__format__ is object.__format__:
            return vx_str(v)
        if _isinstance(v, _int) and is_sym(v):
            return str_of_int(v)
        return format(v, "")
    if is_sym(spec):
        spec = realise(spec)
    if not is_sym(v):
        return format(v, spec)
    if _isinstance(v, _int):
        return format_int(v, spec)
    if _isinstance(v, _float):
        return format_float(v, spec)
    if _isinstance(v, _str):
        import re as _re

        m = _re.fullmatch(r"(?:(.)?([<>]))?(\d+)?s?", spec)
        if m and m.group(3):
            w = _int(m.group(3))
            f = m.group(1) or " "
            return VxStr.rjust(lift(v), w, f) if m.group(2) == ">" else VxStr.ljust(lift(v), w, f)
    return format(realise(v), spec)


def percent(fmt, args):
    if is_sym(fmt):
        return _str.__mod__(realise(fmt), realise(args))
    fmt = sconc(fmt)
    if not is_symdeep(args) and not _isinstance(args, dict):
        return _str.__mod__(fmt, args)
    if _isinstance(args, dict):
        return _str.__mod__(fmt, {k: realise(v) for k, v in args.items()})
    import re as _re

    al = _list(args) if _isinstance(args, _tuple) else [args]
    out = []
    pos = k = 0
    for m in _re.finditer(r"%(%|(0?)(\d*)([dsxXir]))", fmt):
        if "%" in fmt[pos : m.start()]:
            return _str.__mod__(fmt, realise(args))
        out.append(fmt[pos : m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out.append("%")
            continue
        v = al[k]
        k += 1
        if m.group(4) in "sr":
            r = vx_str(v) if m.group(4) == "s" else vx_repr(v)
            if m.group(3):
                r = VxStr.rjust(lift(r), _int(m.group(3)))
            out.append(r)
        else:
            ty = "d" if m.group(4) in "di" else m.group(4)
            spec = m.group(2) + m.group(3) + ty
            out.append(format_int(v, spec) if is_sym(v) else format(v, spec))
    if "%" in fmt[pos:]:
        return _str.__mod__(fmt, realise(args))
    out.append(fmt[pos:])
    return concat(_str, out)


_copy_ops()
_mk_ba_methods()

# ------------------------------------------------------------------ builtins seen by instrumented modules
TYPEMAP = {_int: VxInt, _str: VxStr, _bytes: VxBytes, _bytearray: VxByteArray, _float: VxFloat, _bool: VxBool}
REVMAP = {VxInt: _int, VxStr: _str, VxBytes: _bytes, VxByteArray: _bytearray, VxFloat: _float}


def _mapcls(c):
    if _type(c) is _tuple:
        out = []
        for x in c:
            m = _mapcls(x)
            if _type(m) is _tuple:
                out.extend(m)
            else:
                out.append(m)
        return _tuple(out)
    if c is VxBool:
        return (_bool, VxBool)
    try:
        return REVMAP.get(c, c)
    except TypeError:
        return c


def vx_isinstance(o, c):
    if _type(c) is _tuple or c in REVMAP or c is VxBool:
        c = _mapcls(c)
    if _isinstance(o, SymEnum):
        return _isinstance(o.member, c)
    if _type(o) is VxBool:
        return _issubclass(_bool, c) or (_type(c) is _tuple and VxBool in c)
    return _isinstance(o, c)


def vx_issubclass(k, c):
    c = _mapcls(c)
    if k in REVMAP:
        k = REVMAP[k]
    elif k is VxBool:
        k = _bool
    return _issubclass(k, c)


class _VxTypeMeta(_type):
    def __instancecheck__(cls, o):
        return _isinstance(o, _type)

    def __subclasscheck__(cls, o):
        return _issubclass(o, _type)


def vx_type(*a, **k):
    if _len(a) == 1 and not k:
        t = _type(a[0])
        if _issubclass(t, SymEnum):
            return _type(a[0].member)
        return TYPEMAP.get(t, t)
    return _type(*a, **k)


def vx_len(x):
    if is_sym(x):
        if is_rope(x):
            return rope_len(x)
        return _type(x).__len__(x)
    t = _type(x)
    if t not in _NATIVE_LEN:
        f = getattr(t, "__len__", None)
        if _type(f) is _types.FunctionType and not _issubclass(t, (_str, _bytes, _bytearray)):
            n = f(x)  # may be symbolic, which the builtin would drop
            return n if is_sym(n) else _len(x)
    return _len(x)


_NATIVE_LEN = frozenset((_list, _dict, _tuple, _set, _str, _bytes))


def vx_ord(c):
    if is_sym(c):
        cs = elems(c)
        if _len(cs) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % _len(cs))
        return cs[0]
    return ord(c)


def vx_chr(i):
    if is_sym(i):
        if not inset(i, 0, 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([mkint(iexpr(i), _c(i))])
    return chr(i)


def vx_range(*a):
    return range(*[iconc(realise(x)) if is_sym(x) else x for x in a])


def vx_hex(i):
    if is_sym(i):
        return concat(_str, ["0x", format_int(i, "x")])
    return hex(i)


def vx_format(v, spec=""):
    return format_any(v, spec)


def vx_repr(v):
    return repr(v) if not is_sym(v) else _type(v).__repr__(v)


def vx_hash(v):
    """Any function of the value will do; the type decides whether there is one."""
    if is_sym(v) and _type(v).__hash__ is not None and _isinstance(v, (_str, _bytes, _int, _float)):
        return 0
    if _isinstance(v, tuple) and _type(v).__hash__ is tuple.__hash__:
        return hash(tuple([vx_hash(x) for x in v]))
    return hash(v)


def vx_divmod(a, b):
    return divmod(a, b)


def vx_getattr(o, n, *d):
    if is_sym(n):
        n = realise(n)
    return getattr(o, n, *d)


def vx_round(x, *a):
    return round(x, *a)


def vx_min(*a, **k):
    return min(*a, **k)


# ------------------------------------------------------------------ sets with symbolic members
def _set_same(a, b):
    """Equality of two possible members, as an expression where it is symbolic."""
    if a is b:
        return True
    if not (is_sym(a) or is_sym(b)):
        return a == b
    ok = _type(a) is _type(b) or (_isinstance(a, _str) and _isinstance(b, _str)) or (_isinstance(a, _int) and _isinstance(b, _int)) or (_isinstance(a, _bytes) and _isinstance(b, _bytes))
    return (a == b) if ok else False


class VxSet(_set):
    """A set some of whose members are symbolic: candidate members, each with the condition under which it is one.
    Equal candidates may stand in it twice; only what counts or lists members decides which are equal."""

    def __init__(self, items=(), conds=None):
        _set.__init__(self)
        self.items = list(items)
        self.conds = list(conds) if conds is not None else [True] * len(self.items)

    def _has(self, x):
        return vx_any([vx_all([c, _set_same(x, y)]) for y, c in zip(self.items, self.conds)])

    def _settle(self):
        """Decide which candidates are members and which of them are the same."""
        items = []
        for y, c in zip(self.items, self.conds):
            if c and not vx_any([_set_same(x, y) for x in items]):
                items.append(y)
        self.items, self.conds = items, [True] * len(items)
        return items

    def __contains__(self, x):
        return _bool(self._has(x))

    def __bool__(self):
        return _bool(vx_any(self.conds))

    def __len__(self):
        return len(self._settle())

    def __iter__(self):
        return iter(list(self._settle()))

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    @staticmethod
    def _of(o):
        return o if _isinstance(o, VxSet) else VxSet(o)

    def intersection(self, *others):
        r = self
        for o in others:
            o = VxSet._of(o)
            r = VxSet(r.items, [vx_all([c, o._has(x)]) for x, c in zip(r.items, r.conds)])
        return VxSet(r.items, r.conds)

    def difference(self, *others):
        r = self
        for o in others:
            o = VxSet._of(o)
            r = VxSet(r.items, [vx_all([c, vx_not(o._has(x))]) for x, c in zip(r.items, r.conds)])
        return VxSet(r.items, r.conds)

    def union(self, *others):
        items, conds = list(self.items), list(self.conds)
        for o in others:
            o = VxSet._of(o)
            items += o.items
            conds += o.conds
        return VxSet(items, conds)

    def isdisjoint(self, o):
        return vx_not(vx_any(self.intersection(o).conds))

    def issubset(self, o):
        return vx_not(vx_any(self.difference(o).conds))

    def issuperset(self, o):
        return VxSet._of(o).issubset(self)

    def __and__(self, o):
        return self.intersection(o)

    def __rand__(self, o):
        return self.intersection(o)

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return VxSet._of(o).difference(self)

    def __xor__(self, o):
        return self.union(o).difference(self.intersection(o))

    __rxor__ = __xor__

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __eq__(self, o):
        return vx_all([self.issubset(o), self.issuperset(o)]) if _isinstance(o, (_set, frozenset)) else False

    def __ne__(self, o):
        return vx_not(self == o)

    def add(self, x):
        self.items.append(x)
        self.conds.append(True)

    def discard(self, x):
        self.conds = [vx_all([c, vx_not(_set_same(x, y))]) for y, c in zip(self.items, self.conds)]

    def remove(self, x):
        if x not in self:
            raise KeyError(plain(x))
        self.discard(x)

    def update(self, *others):
        u = self.union(*others)
        self.items, self.conds = u.items, u.conds

    def copy(self):
        return VxSet(self.items, self.conds)


def vx_set(items=()):
    """set(items), or a set literal or comprehension."""
    if _isinstance(items, VxSet):
        return items.copy()
    items = list(items)
    if any(is_sym(x) and not _isinstance(x, SymEnum) for x in items):
        return VxSet(items)
    return _set(items)
