"""Versions, GUIDs, booleans and byte arrays keep their value, and versions order as in .NET."""
import base64
import uuid

from vx.api import harness

from plib import deserialize, from_xml, raises, rt, serialize
from psrpcore.types import PSByteArray, PSGuid, PSVersion

M = 2**31 - 1


def version(v, name, n, hi=M, wide=None):
    parts = [v.int("%s_%d" % (name, i), 0, M if i == wide else hi) for i in range(n)]
    return PSVersion(**dict(zip(["major", "minor", "build", "revision"], parts))), parts


@harness(
    quick=[dict(n=n, wide=w) for n in (2, 3, 4) for w in range(n)],
    thorough=[dict(n=n, wide=w, hi=M if n == 2 else 999) for n in (2, 3, 4) for w in range(n)],
    bounds="every version of 2 to 4 components, one of them in [0, 2^31), the others in [0, 9] (thorough: [0, 999], with 2 components any)",
)
def version_text(v, n, wide, hi=9):
    x, parts = version(v, "p", n, hi, wide)
    text = ".".join([str(p) for p in parts])
    v.check(str(x) == text, "a version is written as its components joined by dots")
    y = PSVersion(text)
    v.check(v.all([a == b for a, b in zip([y.major, y.minor, y.build, y.revision], parts)]), "the text is read as the same components")
    v.check([z is None for z in (y.major, y.minor, y.build, y.revision)] == [i >= n for i in range(4)], "absent components stay absent")
    e = serialize(x)
    v.check(e.tag == "Version", "a version is a Version element")
    z = rt(x)
    v.check(type(z) is PSVersion, "the type survives")
    v.check(v.all([a == b for a, b in zip([z.major, z.minor, z.build, z.revision], parts)]), "a version survives the wire")
    v.check([q is None for q in (z.major, z.minor, z.build, z.revision)] == [i >= n for i in range(4)], "absent components stay absent on the wire")


def key(parts):
    return list(parts) + [-1] * (4 - len(parts))


def lt(a, b):
    r = False
    for x, y in reversed(list(zip(key(a), key(b)))):
        r = (x < y) | ((x == y) & r)
    return r


@harness(
    quick=[dict(n=n, m=m, text=t) for n in (2, 3, 4) for m in (2, 3, 4) for t in (False, True)],
    bounds="every pair of versions of 2 to 4 components in [0, 2^31), and every version compared to the text of one with components in [0, 9]",
)
def version_order(v, n, m, text):
    x, a = version(v, "a", n)
    y, b = version(v, "b", m, 9 if text else M)
    eq = v.all([p == q for p, q in zip(key(a), key(b))])
    less = lt(a, b)
    for o in [str(y) if text else y]:
        v.check((x == o) == eq, "== is equality of the components")
        v.check((x != o) == (eq == False), "!= is its negation")
        v.check((x < o) == less, "< orders by component, an absent one before 0")
        v.check((x <= o) == (less | eq), "<= agrees")
        v.check((x > o) == ((less | eq) == False), "> agrees")
        v.check((x >= o) == (less == False), ">= agrees")


@harness(
    quick=[dict(n=n) for n in range(1, 7)],
    thorough=[dict(n=n) for n in range(1, 9)],
    bounds="every text of 1 to 6 (thorough: 8) characters out of digits, dot, sign and letters",
)
def version_parse(v, n):
    text = v.str("s", n, ((43, 43), (45, 46), (48, 57), (97, 98)))
    groups, ok, cur = [], True, []
    for c in text:
        if c == ".":
            groups.append(cur)
            cur = []
        else:
            cur.append(c)
    groups.append(cur)
    vals = []
    for g in groups:
        t = 0
        if len(g) == 0 or (len(g) > 1 and g[0] == "0"):
            ok = False
        for c in g:
            d = ord(c) - 48
            if d < 0 or d > 9:
                ok = False
                break
            t = t * 10 + d
        vals.append(t)
    ok = ok and 2 <= len(groups) <= 4
    if not ok:
        v.check(raises(lambda: PSVersion(text), ValueError), "a text that is no version is refused")
        v.check(raises(lambda: deserialize(from_xml(("<Version>" + text + "</Version>").encode("utf-8"))), ValueError), "a wire text that is no version is refused")
    else:
        x = PSVersion(text)
        v.check(v.all([a == b for a, b in zip([x.major, x.minor, x.build, x.revision], vals)]), "a version text is read as its components")


@harness(bounds="components given by keyword: every combination of present and absent")
def version_parts(v):
    kw = {}
    for k in ("major", "minor", "build", "revision"):
        if v.choice("has_" + k, [False, True]):
            kw[k] = v.int(k, 0, M)
    ok = "major" in kw and "minor" in kw and ("revision" not in kw or "build" in kw)
    if not ok:
        v.check(raises(lambda: PSVersion(**kw), ValueError), "a version needs major and minor, and build when it has revision")
    else:
        x = PSVersion(**kw)
        v.check(v.all([getattr(x, k) == n for k, n in kw.items()]), "the components are those given")


@harness(quick=[dict(kind=k) for k in ("uuid", "psguid")], bounds="all 2^128 GUIDs, as uuid.UUID and PSGuid")
def guid(v, kind):
    n = v.bytes("n", 16)
    x = uuid.UUID(bytes=n) if kind == "uuid" else PSGuid(bytes=n)
    e = serialize(x)
    v.check(e.tag == "G", "a GUID is a G element")
    v.check(e.text == str(uuid.UUID(bytes=n)), "a GUID is written in the 8-4-4-4-12 form")
    y = rt(x)
    v.check(type(y) is PSGuid, "the type survives")
    v.check(v.eqbytes(y.bytes, n), "a GUID survives the wire")


@harness(bounds="all 2^128 GUIDs as upper case text or in braces")
def guid_text(v):
    n = v.bytes("n", 16)
    t = str(uuid.UUID(bytes=n))
    t = v.choice("form", [t.upper(), "{" + t + "}"])
    v.check(v.eqbytes(deserialize(from_xml(("<G>" + t + "</G>").encode("utf-8"))).bytes, n), "a GUID text is read in any of its forms")


@harness(bounds="both booleans; every casing of their wire text")
def booleans(v):
    b = v.choice("b", [False, True])
    e = serialize(b)
    v.check(e.tag == "B" and e.text == ("true" if b else "false"), "a bool is written as true or false")
    v.check(rt(b) is b, "a bool survives")
    t = "true" if b else "false"
    cs = []
    for i, c in enumerate(t):
        cs.append(c.upper() if v.choice("up%d" % i, [False, True]) else c)
    v.check(deserialize(from_xml(("<B>" + "".join(cs) + "</B>").encode("utf-8"))) is b, "any casing is read")


@harness(
    quick=[dict(n=n, kind=k) for n in range(0, 8) for k in ("bytes", "ps")],
    thorough=[dict(n=n, kind=k) for n in range(0, 65) for k in ("bytes", "ps")],
    bounds="every byte string of 0 to 7 (thorough: 64) bytes",
)
def byte_array(v, n, kind):
    data = v.bytes("d", n)
    x = PSByteArray(data) if kind == "ps" else data
    e = serialize(x)
    v.check(e.tag == "BA", "bytes are a BA element")
    v.check((e.text or "") == base64.b64encode(data).decode(), "bytes are written in base64")
    y = rt(x)
    v.check(type(y) is PSByteArray, "the type survives")
    v.check(v.eqbytes(bytes(y), data), "bytes survive the wire")


@harness(quick=[dict(n=n) for n in (1, 3)], bounds="every byte string of 1 and 3 bytes, every index, every slice")
def byte_array_items(v, n):
    data = v.bytes("d", n)
    x = PSByteArray(data)
    i = v.choice("i", list(range(-n, n)))
    v.check(x[i] == data[i], "an item is the byte at that index")
    a, b = v.choice("a", list(range(-n, n + 1))), v.choice("b", list(range(-n, n + 1)))
    s = x[a:b]
    v.check(type(s) is PSByteArray, "a slice is a PSByteArray")
    v.check(v.eqbytes(bytes(s), data[a:b]), "a slice holds the bytes of the slice")
    v.check(v.all([p == q for p, q in zip(list(x), list(data))]), "iteration yields the bytes")
