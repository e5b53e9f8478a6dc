"""Text survives the wire: every string, wherever it is carried, comes back unchanged and never breaks the XML."""
from vx.api import SCALAR, UNICODE, harness

from plib import deserialize, from_xml, rt, serialize, to_xml
from psrpcore.types import (
    PSCustomObject,
    PSDict,
    PSObject,
    PSScriptBlock,
    PSString,
    PSUri,
    PSXml,
    add_note_property,
)

XML_OK = ((0x9, 0xA), (0xD, 0xD), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))


def xml_safe(v, text):
    """No character an XML parser refuses or rewrites."""
    conds = []
    for c in text or "":
        o = ord(c)
        ok = False
        for lo, hi in ((0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)):
            ok = ok | ((o >= lo) & (o <= hi))
        conds.append(ok)
    return v.all(conds)


CLASSES = {"PSString": PSString, "PSScriptBlock": PSScriptBlock, "PSUri": PSUri, "PSXml": PSXml}


@harness(
    quick=[dict(n=n) for n in (0, 1, 2, 3)],
    thorough=[dict(n=n) for n in (0, 1, 2, 3, 4)],
    bounds="every string of 0..3 (thorough 0..4) arbitrary code points, lone surrogates included",
)
def plain_string(v, n):
    s = v.str("s", n, UNICODE)
    # a high surrogate next to a low one is the same UTF-16 text as the one code point: not distinguishable in .NET
    for i in range(n - 1):
        v.assume((((s[i] >= "\ud800") & (s[i] <= "\udbff")) & ((s[i + 1] >= "\udc00") & (s[i + 1] <= "\udfff"))) == False)
    e = serialize(s)
    v.check(e.tag == "S", "a str is a String")
    v.check(xml_safe(v, e.text), "the element text holds only characters XML carries verbatim")
    y = rt(s)
    v.check(type(y) is PSString, "a str comes back as the string type")
    v.check(y == s, "a str comes back unchanged")


@harness(
    quick=[dict(cls=c, n=2) for c in CLASSES],
    thorough=[dict(cls=c, n=3) for c in CLASSES],
    bounds="every string of 2 (thorough 3) Unicode scalar values, each string-like type",
)
def string_types(v, cls, n):
    s = v.str("s", n, SCALAR)
    x = CLASSES[cls](s)
    y = rt(x)
    v.check(type(y) is CLASSES[cls], "the string type survives")
    v.check(y == s, "the text survives")


NAMES = ((0x0, 0x1F), (0x5F, 0x5F), (0x78, 0x78), (0x85, 0x85), (0xFFFD, 0xFFFF), (0x1F600, 0x1F600))


@harness(
    quick=[dict(place=p, n=2) for p in ("name", "value", "key", "entry", "tostring", "typename")],
    thorough=[dict(place=p, n=3) for p in ("name", "value", "key", "entry", "tostring", "typename")],
    bounds="every string of 2 (thorough 3) Unicode scalar values as property value, list entry, string form or type name; property names and dictionary keys: an underscore plus each control character and one character of every other escape class",
)
def carried_text(v, place, n):
    # names and keys are hashed, which splits them by value: one character of every escape class behind an underscore
    s = "_" + v.str("s", 1, NAMES) if place in ("name", "key") else v.str("s", n, SCALAR)
    if place in ("name", "value"):
        o = PSObject()
        o.PSObject.type_names = []
        add_note_property(o, s if place == "name" else "p", "val" if place == "name" else s)
        y = rt(o)
        v.check(len(y.PSObject.extended_properties) == 1, "one property comes back")
        p = y.PSObject.extended_properties[0]
        v.check(p.name == (s if place == "name" else "p"), "the property name survives")
        v.check(p.get_value(y) == ("val" if place == "name" else s), "the property value survives")
    elif place == "key":
        y = rt(PSDict({s: 1}))
        ks = list(y.keys())
        v.check(len(ks) == 1, "one key comes back")
        v.check(ks[0] == s, "the dictionary key survives")
    elif place == "entry":
        y = rt([s, 5])
        v.check(len(y) == 2, "both entries come back")
        v.check(y[0] == s, "the list entry survives")
    elif place == "tostring":
        o = PSObject()
        o.PSObject.type_names = []
        o.PSObject.to_string = s
        y = rt(o)
        v.check(y.PSObject.to_string == s, "the string form survives")
    else:
        o = PSObject()
        o.PSObject.type_names = [s + "q"]
        y = rt(o)
        v.check(y.PSObject.type_names[0] == "Deserialized." + s + "q", "the type name survives")


HEX = ((0x30, 0x39), (0x41, 0x46), (0x61, 0x66))


@harness(
    quick=[dict(pre=p, n=n) for p in ("", "_", "a") for n in (1, 2)] ,
    thorough=[dict(pre=p, n=n) for p in ("", "_", "a", "_x", "_x00") for n in (1, 2, 3)],
    bounds="text shaped like an escape: prefix + 4 hex digits + any 1..2 (thorough 1..3) code points, underscores and both cases of x",
)
def escape_lookalikes(v, pre, n):
    x = v.choice("x", ["x", "X"])
    h = v.str("h", 4, HEX)
    t = v.str("t", n, SCALAR)
    s = pre + "_" + x + h + "_" + t
    v.check(rt(s) == s, "text that looks like an escape comes back unchanged")


@harness(
    quick=[dict(n=8)], thorough=[dict(n=8), dict(n=9)],
    bounds="every string of 8 (thorough 9) characters in U+2000..U+7FFF",
)
def wide_text(v, n):
    s = v.str("s", n, ((0x2000, 0x7FFF),))
    v.check(rt(s) == s, "text outside the escape alphabet comes back unchanged")


@harness(bounds="every escape _xHHHH_ of upper or lower case hex digits, alone or as a surrogate pair")
def reads_peer_escapes(v):
    u = v.int("u", 0, 0xFFFF)
    v.assume(((u < 0xD800) | (u > 0xDFFF)))
    lower = v.flag("lower")
    txt = "_x" + (("%04x" % u) if lower else ("%04X" % u)) + "_"
    e = serialize("q")
    e.text = txt
    y = deserialize(e)
    v.check(y == chr(u), "an escape of the peer decodes to its UTF-16 code unit")
