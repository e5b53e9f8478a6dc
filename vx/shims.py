"""Symbolic models of the C-implemented library functions psrpcore calls."""
from __future__ import annotations

import base64 as _base64
import binascii as _binascii
import copy
import io
import re
import struct as _struct
import time as _time
import types
import xml.etree.ElementTree as _ET

import z3

from . import core
from . import values as V
from .values import elems, eqel, inset, is_sym, is_symdeep, mkbool, mkbytes, mkstr, realise, vx_any


def module_like(real, **over):
    m = types.ModuleType(real.__name__)
    m.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__") or k in ("__all__",)})
    m.__dict__.update(over)
    return m


# ------------------------------------------------------------------ struct
_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "x": 1, "?": 1}


def _parse_fmt(fmt):
    if isinstance(fmt, (bytes, bytearray)):
        fmt = bytes(fmt).decode()
    fmt = V.plain(fmt)
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    if order in "@":
        order = "<" if len([c for c in fmt if c.isalpha()]) <= 1 else "@"
    items = []
    num = ""
    for ch in fmt:
        if ch.isdigit():
            num += ch
        elif ch.isspace():
            continue
        else:
            if ch == "s":
                items.append(("s", int(num or 1)))
            else:
                if ch not in _SIZES:
                    return None
                items += [(ch, _SIZES[ch])] * int(num or 1)
            num = ""
    if order == "@":
        return None
    return ("big" if order in ">!" else "little"), items


def pack(fmt, *args):
    fmt = realise(fmt)
    if not any(is_sym(a) for a in args):
        return _struct.pack(fmt, *[V.plain(a) for a in args])
    p = _parse_fmt(fmt)
    if p is None:
        return _struct.pack(fmt, *[realise(a) for a in args])
    order, items = p
    out = []
    args = list(args)
    for ch, n in items:
        if ch == "x":
            out.append(b"\x00")
            continue
        if not args:
            raise _struct.error("pack expected more items for packing")
        v = args.pop(0)
        if ch == "s":
            e = elems(v)[:n]
            out.append(mkbytes(list(e) + [0] * (n - len(e))))
            continue
        if not is_sym(v):
            out.append(_struct.pack((">" if order == "big" else "<") + ch, V.plain(v)))
            continue
        if ch == "?":
            out.append(b"\x01" if v else b"\x00")
            continue
        if not isinstance(v, int):
            raise _struct.error("required argument is not an integer")
        try:
            out.append(V.int_to_bytes(v, n, order, ch.islower()))
        except OverflowError:
            raise _struct.error("argument out of range") from None
    if args:
        raise _struct.error("pack expected fewer items for packing")
    return V.concat(bytes, out)


def unpack(fmt, data):
    fmt = realise(fmt)
    if not is_sym(data):
        return _struct.unpack(fmt, data)
    p = _parse_fmt(fmt)
    if p is None:
        return _struct.unpack(fmt, realise(data))
    order, items = p
    cs = elems(data)
    total = sum(n for _, n in items)
    if total != len(cs):
        raise _struct.error("unpack requires a buffer of %d bytes" % total)
    out = []
    i = 0
    for ch, n in items:
        part = cs[i : i + n]
        i += n
        if ch == "x":
            continue
        if ch == "s":
            out.append(mkbytes(part))
            continue
        le = part if order == "little" else part[::-1]
        v = V.from_digits_le(le, 256)
        if ch == "?":
            v = v != 0
        elif ch.islower() and is_sym(v):
            if mkbool(V.iexpr(v) >= (1 << (8 * n - 1)), V._c(v) >= (1 << (8 * n - 1))):
                v = v - (1 << (8 * n))
        elif ch.islower() and v >= (1 << (8 * n - 1)):
            v = v - (1 << (8 * n))
        out.append(v)
    return tuple(out)


def unpack_from(fmt, data, offset=0):
    offset = realise(offset)
    n = _struct.calcsize(realise(fmt))
    if not is_sym(data):
        return _struct.unpack_from(fmt, data, offset)
    part = elems(data)[offset : offset + n]
    if len(part) < n:
        raise _struct.error("unpack_from requires a buffer of at least %d bytes" % (offset + n))
    return unpack(fmt, mkbytes(part))


class VxStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, d):
        return unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return unpack_from(self.format, d, offset)


# ------------------------------------------------------------------ binascii / base64
def hexlify(b, *a):
    if not is_sym(b):
        return _binascii.hexlify(b, *a)
    out = []
    for c in elems(b):
        if is_sym(c):
            out += [V.hexchar(d) for d in V.digits_le(c, 16, 2)[::-1]]
        else:
            out += list(b"%02x" % c)
    return mkbytes(out)


def _hexval(c):
    if is_sym(c):
        if not vx_any([inset(c, 48, 57), inset(c, 97, 102), inset(c, 65, 70)]):
            raise _binascii.Error("Non-hexadecimal digit found")
        return V.hexval(c)
    if inset(c, 48, 57):
        return c - 48
    if inset(c, 97, 102):
        return c - 87
    if inset(c, 65, 70):
        return c - 55
    raise _binascii.Error("Non-hexadecimal digit found")


def unhexlify(s):
    if not is_sym(s):
        return _binascii.unhexlify(V.plain(s))
    cs = elems(s)
    if len(cs) % 2:
        raise _binascii.Error("Odd-length string")
    out = []
    for i in range(0, len(cs), 2):
        out.append(_hexval(cs[i]) * 16 + _hexval(cs[i + 1]))
    return mkbytes(out)


def b16encode(s):
    if not is_sym(s):
        return _base64.b16encode(V.plain(s))
    out = []
    for c in elems(s):
        ds = V.digits_le(c, 16, 2)[::-1] if is_sym(c) else [c >> 4, c & 15]
        out += [_b16char(d) for d in ds]
    return mkbytes(out)


def _b16char(d):
    if not is_sym(d):
        return b"0123456789ABCDEF"[d]
    e = V.iexpr(d)
    return V.mkint(z3.If(e < 10, e + 48, e + 55), b"0123456789ABCDEF"[V._c(d)])


def b16decode(s, casefold=False):
    if not is_sym(s):
        return _base64.b16decode(V.plain(s), casefold)
    for c in elems(s):
        ok = [inset(c, 48, 57), inset(c, 65, 70)] + ([inset(c, 97, 102)] if casefold else [])
        if not vx_any(ok):
            raise _binascii.Error("Non-base16 digit found")
    return unhexlify(s)


def _b64char(d):
    if not is_sym(d):
        return b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[d]
    e = V.iexpr(d)
    c = V._c(d)
    return V.mkint(
        z3.If(e < 26, e + 65, z3.If(e < 52, e + 71, z3.If(e < 62, e - 4, z3.If(e == 62, z3.IntVal(43), z3.IntVal(47))))),
        b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[c],
    )


def _b64_elems(b):
    cs = elems(b)
    out = []
    for i in range(0, len(cs), 3):
        g = cs[i : i + 3]
        pad = 3 - len(g)
        v = V.from_digits_le((list(g) + [0] * pad)[::-1], 256)
        ds = V.digits_le(v, 64, 4)[::-1] if is_sym(v) else [(v >> s) & 63 for s in (18, 12, 6, 0)]
        ch = [_b64char(d) for d in ds]
        ch = ch[: 4 - pad] + [61] * pad
        if is_sym(v):
            # the inverse is looked up by the identity of the character terms (kept alive by the entry)
            core.CTX.inverse[tuple(_termid(c) for c in ch)] = (g, [V.iexpr(c) for c in ch if is_sym(c)])
        out += ch
    return out





def _termid(c):
    return ("t", V.iexpr(c).get_id()) if is_sym(c) else c


def b64encode(s, altchars=None):
    if not is_sym(s) or altchars is not None:
        return _base64.b64encode(realise(s), altchars)
    b = V.lift(s)
    return V.lazybytes(_base64.b64encode(V.bconc(b)), lambda: _b64_elems(b), ("b64", b))


def b64decode(s, altchars=None, validate=False):
    if not is_sym(s):
        return _base64.b64decode(V.plain(s), altchars, validate)
    t = V.tag(s)
    for _ in range(4):
        if t is not None and t.src:
            if t.src[0] == "b64":
                return t.src[1]
            if t.src[0] in ("dec", "enc"):
                t = V.tag(t.src[2])
                continue
        break
    cs = elems(s)
    out = []
    if len(cs) % 4 == 0 and altchars is None:
        for i in range(0, len(cs), 4):
            g = cs[i : i + 4]
            if any(is_sym(c) for c in g):
                found = core.CTX.inverse.get(tuple(_termid(c) for c in g))
                if found is None:
                    break
                out += found[0]
            else:
                x = bytes(int(c) for c in g)
                if (b"=" in x and i + 4 != len(cs)) or not _B64_GROUP(x):
                    break
                out += _base64.b64decode(x)
        else:
            return mkbytes(out)
    return _base64.b64decode(realise(s), altchars, validate)


_B64_GROUP = re.compile(rb"[A-Za-z0-9+/]{2}([A-Za-z0-9+/]{2}|[A-Za-z0-9+/]=|==)").fullmatch


# ------------------------------------------------------------------ XML
def has_sym(el):
    for e in el.iter():
        if is_sym(e.text) or is_sym(e.tail) or is_sym(e.tag):
            return True
        for k, v in e.attrib.items():
            if is_sym(v) or is_sym(k):
                return True
    return False


def copy_tree(el, f):
    """Copy of el with every text/attribute value passed through f(value, is_attr)."""
    n = _ET.Element(el.tag, {k: f(v, True) for k, v in el.attrib.items()})
    n.text = f(el.text, False) if el.text is not None else None
    n.tail = f(el.tail, False) if el.tail is not None else None
    for c in el:
        n.append(copy_tree(c, f))
    return n


def _plain_tree(el):
    def f(v, a):
        if isinstance(v, str):
            return V.sconc(v)
        return v

    return copy_tree(el, f)


def _real_tree(el):
    return copy_tree(el, lambda v, a: V.sconc(realise(v)) if isinstance(v, str) else v)


_XML_OK = [(0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)]


def tostring(element, encoding=None, method=None, **kw):
    if not has_sym(element):
        return _ET.tostring(_plain_tree(element), encoding=encoding, method=method, **kw)
    # an encoder error is a property of the characters: decide it here
    enc = "unicode" if encoding is None else str(encoding).lower()
    saved = copy_tree(element, lambda v, a: V.lift(v) if isinstance(v, str) else v)
    if enc != "unicode" and encoding is not None:
        for e in saved.iter():
            for v in [e.text, e.tail] + list(e.attrib.values()):
                if is_sym(v) and _needs_chars(v):
                    for c in elems(v):
                        if is_sym(c) and inset(c, 0xD800, 0xDFFF):
                            return _ET.tostring(_plain_tree(element), encoding=encoding, method=method, **kw)
    conc = _ET.tostring(_plain_tree(element), encoding=encoding, method=method, **kw)

    def thunk():
        # rendered text is inspected: render element by element
        return _render(saved, encoding, conc)

    if isinstance(conc, str):
        return V.lazystr(conc, thunk, ("xml", saved, None))
    return V.lazybytes(conc, thunk, ("xml", saved, V._norm(encoding)))


def _needs_chars(v):
    t = V.tag(v)
    return not (t.src and t.src[0] in ("int", "hex", "b64", "float") and t.cs is None) and not (t.src and t.src[0] == "dec")


def _esc_text(cs):
    out = []
    for c in cs:
        if eqel(c, 38):
            out += list(b"&amp;")
        elif eqel(c, 60):
            out += list(b"&lt;")
        elif eqel(c, 62):
            out += list(b"&gt;")
        else:
            out.append(c)
    return out


def _esc_attr(cs):
    out = []
    for c in cs:
        for k, r in ((38, b"&amp;"), (60, b"&lt;"), (62, b"&gt;"), (34, b"&quot;"), (13, b"&#13;"), (10, b"&#10;"), (9, b"&#09;")):
            if eqel(c, k):
                out += list(r)
                break
        else:
            out.append(c)
    return out


def _render(el, encoding, conc):
    out = []

    def w(e):
        out.extend(map(ord, "<" + e.tag))
        for k, v in e.attrib.items():
            out.extend(map(ord, " " + V.sconc(k) + '="'))
            out.extend(_esc_attr(elems(v)))
            out.append(34)
        if e.text or len(e):
            out.append(62)
            if e.text:
                out.extend(_esc_text(elems(e.text)))
            for c in e:
                w(c)
            out.extend(map(ord, "</" + e.tag + ">"))
        else:
            out.extend(b" />")
        if e.tail:
            out.extend(_esc_text(elems(e.tail)))

    w(el)
    if isinstance(conc, bytes):
        s = mkstr(out)
        b = s.encode(encoding, "xmlcharrefreplace") if not is_sym(s) else V._enc_elems(s, V._norm(encoding), "strict")
        pre = conc[: len(conc) - len(b)] if conc.startswith(b"<?xml") else b""
        return list(pre) + list(b)
    return out


class _Lenient:
    pass


def fromstring(text, parser=None):
    if not is_sym(text):
        return _ET.fromstring(V.plain(text))
    t = V.tag(text)
    for _ in range(6):
        if t is not None and t.src:
            if t.src[0] == "xml":
                return _reparse(t.src[1], text)
            if t.src[0] in ("dec", "enc"):
                t = V.tag(t.src[2])
                continue
        break
    from . import symxml

    return symxml.parse(text)


def check_chars(v, text, attr):
    """What an XML parser makes of the characters of v (already rendered by ElementTree)."""
    if not is_sym(v):
        return v
    if not _needs_chars(v):
        return v
    out = []
    changed = False
    for c in elems(v):
        if not is_sym(c):
            if not any(lo <= c <= hi for lo, hi in _XML_OK):
                raise _ET.ParseError("not well-formed (invalid token)")
        elif not vx_any([inset(c, lo, hi) for lo, hi in _XML_OK]):
            raise _ET.ParseError("not well-formed (invalid token)")
        if not attr and eqel(c, 13):
            out.append(10)
            changed = True
        else:
            out.append(c)
    if changed:
        # CRLF and CR both become LF
        res = []
        orig = elems(v)
        for i, c in enumerate(out):
            if i and V._c(orig[i - 1]) == 13 and eqel(orig[i - 1], 13) and eqel(orig[i], 10):
                continue
            res.append(c)
        return mkstr(res)
    return v


def _reparse(saved, text):
    def f(v, attr):
        if not isinstance(v, str):
            return v
        if is_sym(v):
            r = check_chars(v, text, attr)
            if not attr and len(r) == 0:
                return None
            return r
        if not attr:
            for ch in v:
                o = ord(ch)
                if not any(lo <= o <= hi for lo, hi in _XML_OK):
                    raise _ET.ParseError("not well-formed (invalid token)")
            v = v.replace("\r\n", "\n").replace("\r", "\n")
            return v or None
        return v

    def cp(el):
        n = _ET.Element(el.tag, {k: f(v, True) for k, v in el.attrib.items()})
        n.text = f(el.text, False) if el.text is not None else None
        n.tail = f(el.tail, False) if el.tail is not None else None
        for c in el:
            n.append(cp(c))
        return n

    return cp(saved)


# ------------------------------------------------------------------ time.strftime
class StructTime(tuple):
    """time.struct_time with symbolic fields."""

    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


def strftime(fmt, tt=None):
    vals = list(tt) if tt is not None else None
    if vals is None or (not is_sym(fmt) and not any(is_sym(v) for v in vals)):
        return _time.strftime(V.plain(fmt), *([] if tt is None else [tuple(vals)]))
    if is_sym(fmt):
        # literal text may be symbolic (already expanded fractions / offsets)
        cs = list(elems(fmt))
    else:
        cs = [ord(c) for c in V.sconc(fmt)]
    Y, M, D, h, m, s = vals[:6]
    out = []
    i = 0

    def dig(v, n):
        return V.elems(V.format_int(v, "0%dd" % n)) if is_sym(v) else [ord(c) for c in "%0*d" % (n, v)]

    while i < len(cs):
        c = cs[i]
        if is_sym(c):
            if eqel(c, 37):
                return _time.strftime(realise(fmt), tuple(realise(v) for v in vals))
            out.append(c)
            i += 1
            continue
        if c != 37 or i + 1 >= len(cs):
            out.append(c)
            i += 1
            continue
        d = chr(V._c(cs[i + 1]))
        i += 2
        if d == "Y":
            out += V.elems(V.str_of_int(Y)) if is_sym(Y) else [ord(x) for x in str(Y)]  # glibc: no padding
        elif d == "%":
            out.append(37)
        elif d in "mdHMS":
            out += dig({"m": M, "d": D, "H": h, "M": m, "S": s}[d], 2)
        elif d == "z" or d == "Z":
            pass
        else:
            return _time.strftime(realise(fmt), tuple(realise(v) for v in vals))
    return mkstr(out)
