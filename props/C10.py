"""Object graphs: what is one object stays one, what are two stay two, each with its own properties and type names."""
import datetime

import psrpcore
from psrpcore.types import (
    PSByteArray,
    PSChar,
    PSCustomObject,
    PSDateTime,
    PSDecimal,
    PSDict,
    PSDouble,
    PSDuration,
    PSGuid,
    PSIEnumerable,
    PSInt,
    PSInt64,
    PSInvocationState,
    PSList,
    PSObject,
    PSQueue,
    PSScriptBlock,
    PSStack,
    PSString,
    PSUri,
    PSXml,
    add_note_property,
)

from vx.api import PRINTABLE, UNICODE, harness

from plib import PID, events, from_xml, deserialize, opened_pair, rt, send, serialize, to_xml

LETTER = ((0x61, 0x7A),)
DIGITS2 = (10, 99)


def make(v, kind, name):
    if kind in (PSString, PSUri, PSXml, PSScriptBlock):
        return kind(v.str(name, 1, LETTER))
    if kind is PSChar:
        return PSChar(v.int(name, 100, 999))
    if kind is PSByteArray:
        return PSByteArray(v.bytes(name, 2))
    if kind is PSGuid:
        return PSGuid(bytes=b"\x01" * 15 + v.bytes(name, 1))
    if kind is PSDateTime:
        return PSDateTime(2020, 1, 2, 3, 4, 5, nanosecond=v.int(name, 1, 9) * 100)
    if kind is PSDuration:
        return PSDuration(seconds=v.int(name, 10, 59))
    return kind(v.int(name, 10, 99))


KINDS = (PSString, PSUri, PSXml, PSScriptBlock, PSChar, PSByteArray, PSGuid, PSDateTime, PSDuration, PSInt, PSInt64)


def plain(x):
    if type(x) is PSDateTime:
        return x.nanosecond
    if type(x) is PSByteArray:
        return bytes(x)
    if type(x) is PSGuid:
        return x.bytes
    return x


@harness(
    quick=[dict(kind=k.__name__, same=s) for k in KINDS for s in (False, True)] + [dict(kind="PSDouble", same=True), dict(kind="PSDecimal", same=True)],
    bounds="two values of each extendable primitive type, arbitrary (texts of one letter, two digits, one varying byte) or equal, each with a note property of any two digit value, sent as x, y, x",
)
def equal_values(v, kind, same):
    T = {k.__name__: k for k in KINDS + (PSDouble, PSDecimal)}[kind]
    if kind in ("PSDouble", "PSDecimal"):
        x, y = T("1.5"), T("1.5")
    else:
        x = make(v, T, "x")
        y = T(x) if same and T not in (PSGuid, PSDateTime, PSDuration) else make(v, T, "y")
        if same and T is PSGuid:
            y = PSGuid(bytes=x.bytes)
        if same and T is PSDateTime:
            y = PSDateTime(2020, 1, 2, 3, 4, 5, nanosecond=x.nanosecond)
    a, b = v.int("a", *DIGITS2), v.int("b", *DIGITS2)
    add_note_property(x, "Note", a)
    add_note_property(y, "Note", b)
    add_note_property(y, "Only", True)
    got = rt([x, y, x])
    v.check([type(g) for g in got] == [T, T, T], "each arrives with its type")
    v.check((plain(got[0]) == plain(x)) & (plain(got[1]) == plain(y)) & (plain(got[2]) == plain(x)), "and its value")
    v.check((got[0].Note == a) & (got[1].Note == b) & (got[2].Note == a), "and its own properties")
    v.check([len(g.PSObject.extended_properties) for g in got] == [1, 2, 1], "and no others")
    v.check((x.Note == a) & (y.Note == b), "the values sent keep theirs")


def check_graph(v, objs, names, got):
    """got is the copy of objs; every property leads from the copy of an object to the copy of the same target."""
    image = dict((id(o), g) for o, g in zip(objs, got))
    v.check(len(set(id(g) for g in got)) == len(got), "distinct objects stay distinct")
    for o, g in zip(objs, got):
        v.check(type(g) is PSCustomObject, "an object arrives as an object")
        v.check([p.name for p in g.PSObject.extended_properties] == [p.name for p in o.PSObject.extended_properties], "with its properties in order")
        v.check(g.Id == o.Id, "with its own values")
        for n in names:
            t = getattr(o, n)
            if id(t) in image:
                v.check(getattr(g, n) is image[id(t)], "a shared object stays shared")
            else:
                v.check(getattr(g, n) == t, "a value arrives unchanged")


@harness(
    quick=[dict(k=2, edges=2), dict(k=3, edges=1)],
    thorough=[dict(k=2, edges=2), dict(k=3, edges=1), dict(k=3, edges=2)],
    bounds="every graph of 2 objects with 2 (3 objects with 1, thorough 2) links to any of them, itself or a value; any two digit values",
)
def graph(v, k, edges):
    objs = []
    names = ["P%d" % i for i in range(edges)]
    for i in range(k):
        objs.append(PSCustomObject(Id=v.int("id%d" % i, *DIGITS2)))
    for i, o in enumerate(objs):
        for n in names:
            add_note_property(o, n, v.choice("%s%d" % (n, i), objs + [7]))
    got = rt(objs)
    v.check(type(got) is PSList and len(got) == k, "every object arrives")
    check_graph(v, objs, names, list(got))


def hold(kind, items):
    if kind == "dict":
        d = {}
        for i, x in enumerate(items):
            d["k%d" % i] = x
        return d
    if kind == "list":
        return list(items)
    if kind == "PSDict":
        d = PSDict()
        for i, x in enumerate(items):
            d["k%d" % i] = x
        return d
    if kind == "PSQueue":
        q = PSQueue()
        for x in items:
            q.put(x)
        return q
    return {"PSList": PSList, "PSStack": PSStack, "PSIEnumerable": PSIEnumerable}[kind](items)


def held(kind, c):
    if kind in ("dict", "PSDict"):
        return [c["k%d" % i] for i in range(len(c))]
    if kind == "PSQueue":
        out = []
        while not c.empty():
            out.append(c.get())
        return out
    return list(c)


HOLDERS = ("dict", "list", "PSDict", "PSList", "PSStack", "PSQueue", "PSIEnumerable")


@harness(
    quick=[dict(kind=k) for k in HOLDERS],
    bounds="every container holding two objects and a value in every arrangement of sharing, linked to each other and, if it can be, with note properties holding the objects or more",
)
def containers(v, kind):
    a = PSCustomObject(Id=v.int("a", *DIGITS2))
    b = PSCustomObject(Id=v.int("b", *DIGITS2))
    add_note_property(a, "Link", v.choice("link", [a, b, None]))
    add_note_property(b, "Link", a)
    n = v.int("n", *DIGITS2)
    items = [v.choice("i0", [a, b]), n, v.choice("i1", [a, b])]
    c = hold(kind, items)
    noted = kind.startswith("PS")
    if noted:
        p = v.choice("note", [a, b, 5])
        add_note_property(c, "Note", p)
        add_note_property(c, "Other", PSCustomObject(Id=3))
    outer = PSCustomObject(Box=c, A=a, B=b)
    got = rt(outer)
    ga, gb = got.A, got.B
    image = {id(a): ga, id(b): gb}
    v.check(ga is not gb, "distinct objects stay distinct")
    v.check((ga.Id == a.Id) & (gb.Id == b.Id), "with their own values")
    v.check(gb.Link is ga, "a shared object stays shared")
    v.check((ga.Link is None) if a.Link is None else (ga.Link is image[id(a.Link)]), "a shared object stays shared, or nothing")
    if noted:
        v.check((got.Box.Note == 5) if p == 5 else (got.Box.Note is image[id(p)]), "a property of the container shares what it should")
        v.check(got.Box.Other.Id == 3, "and keeps what is its own")
    h = held(kind, got.Box)
    v.check(len(h) == 3 and h[0] is image[id(items[0])] and h[2] is image[id(items[2])], "the entries share what they should")
    v.check(h[1] == n, "and keep their values")


@harness(
    quick=[dict(n=1, m=1), dict(n=2, m=2), dict(n=1, m=2)],
    thorough=[dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2, 3)],
    bounds="three objects with 1 or 2 (thorough: 3) type names of one letter each, arbitrary and so in part or fully the same, any string form",
)
def type_names(v, n, m):
    def obj(i, k):
        o = PSObject()
        o.PSObject.type_names = [v.str("t%d%d" % (i, j), 1, ((0x41, 0x43),)) for j in range(k)]
        o.PSObject.to_string = v.str("s%d" % i, 1, LETTER)
        add_note_property(o, "Id", v.int("id%d" % i, *DIGITS2))
        return o

    objs = [obj(0, n), obj(1, m), obj(2, n)]
    got = rt(objs)
    for o, g in zip(objs, got):
        want = o.PSObject.type_names
        have = g.PSTypeNames
        v.check(len(have) == len(want), "an object has as many type names as it was sent with")
        v.check(v.all([h == "Deserialized." + w for h, w in zip(have, want)]), "and those, marked as deserialized")
        v.check((g.Id == o.Id) & (str(g) == o.PSObject.to_string), "with its own values and string form")


@harness(
    quick=[dict(n=1), dict(n=2)],
    bounds="an object whose type name, string form and property name are any text of 1 or 2 code points",
)
def names(v, n):
    t, s = v.str("t", n), v.str("s", n)
    o = PSObject()
    o.PSObject.type_names = [t, "System.Object"]
    o.PSObject.to_string = s
    add_note_property(o, "Id", 1)
    g = rt([o, o])
    v.check(g[0] is g[1], "one object")

    def same(a, b):
        return v.eqbytes(a.encode("utf-16-le", "surrogatepass"), b.encode("utf-16-le", "surrogatepass"))

    v.check(same(g[0].PSTypeNames[0], "Deserialized." + t), "any type name arrives")
    v.check(g[0].PSTypeNames[1:] == ["Deserialized.System.Object"], "with the others")
    v.check(same(str(g[0]), s), "any string form arrives")


@harness(
    quick=[dict(n=1)],
    thorough=[dict(n=1), dict(n=2)],
    bounds="a property name of any 1 (thorough: 2) code points, on an object and on an integer",
)
def property_names(v, n):
    name = v.str("name", n)
    o = PSCustomObject()
    add_note_property(o, name, "x")
    i = PSInt(4)
    add_note_property(i, name, "y")
    g = rt([o, i])
    for x, val in ((g[0], "x"), (g[1], "y")):
        ps = x.PSObject.extended_properties
        v.check(len(ps) == 1, "one property")
        v.check(v.eqbytes(ps[0].name.encode("utf-16-le", "surrogatepass"), name.encode("utf-16-le", "surrogatepass")), "any property name arrives")
        v.check(ps[0].get_value(x) == val, "with its value")


@harness(
    bounds="a document whose object and type name identifiers are any distinct two digit numbers, with references forward within it and back to the outermost object",
)
def any_ids(v):
    a, b, c = v.int("a", 10, 99), v.int("b", 10, 99), v.int("c", 10, 99)
    v.assume((a != b) & (a != c) & (b != c))
    t, u = v.int("t", 10, 99), v.int("u", 10, 99)
    v.assume(t != u)
    n = v.int("n", *DIGITS2)
    text = (
        '<Obj RefId="%d"><TN RefId="%d"><T>A</T><T>B</T></TN><MS>'
        '<Obj N="x" RefId="%d"><TN RefId="%d"><T>C</T></TN><MS><I32 N="Id">%d</I32><Ref N="up" RefId="%d" /></MS></Obj>'
        '<Obj N="y" RefId="%d"><TNRef RefId="%d" /><LST><Ref RefId="%d" /><Obj RefId="%d"><TNRef RefId="%d" /></Obj></LST></Obj>'
        '<Ref N="z" RefId="%d" /></MS></Obj>'
    )
    d = v.int("d", 100, 999)
    got = deserialize(from_xml((text % (a, t, b, u, n, a, c, t, b, d, u, b)).encode("utf-8")))
    v.check(got.x.Id == n, "the object has its value")
    v.check(got.z is got.x and got.y[0] is got.x and got.x.up is got, "a reference is to the object of that id")
    v.check(got.PSTypeNames == ["Deserialized.A", "Deserialized.B"] and got.y.PSTypeNames == got.PSTypeNames, "type names are those of that id")
    v.check(got.x.PSTypeNames == ["Deserialized.C"] and got.y[1].PSTypeNames == ["Deserialized.C"], "for each of them")
    v.check(got.y[1] is not got.x, "an object without reference is its own")


@harness(bounds="an object of any two digit value sent in two messages, changed or not in between, one or two pipelines")
def messages(v):
    client, server = opened_pair()
    a = psrpcore.ClientPowerShell(client, pipeline_id=PID)
    b = psrpcore.ServerPipeline(server, PID)
    a.state = b.state = PSInvocationState.Running
    o = PSCustomObject(Id=v.int("id", *DIGITS2))
    add_note_property(o, "Self", o)
    first = to_xml(serialize(o))
    a.send(o)
    before = o.Id
    if v.flag("change"):
        o.Id = v.int("other", *DIGITS2)
    a.send(o)
    got = [e.data for e in send(client, server)]
    v.check(len(got) == 2 and got[0] is not got[1], "each message has its own object")
    v.check((got[0].Id == before) & (got[1].Id == o.Id), "with the value at the time")
    v.check(got[0].Self is got[0] and got[1].Self is got[1], "and no reference into another message")
    o.Id = before
    v.check(v.eqbytes(first, to_xml(serialize(o))), "serializing again gives the same document")


LOOPS = (
    ("PSList", "LST", "<TN RefId=\"%d\"><T>System.Collections.ArrayList</T><T>System.Object</T></TN>"),
    ("PSStack", "STK", "<TN RefId=\"%d\"><T>System.Collections.Stack</T><T>System.Object</T></TN>"),
    ("PSQueue", "QUE", "<TN RefId=\"%d\"><T>System.Collections.Queue</T><T>System.Object</T></TN>"),
    ("PSIEnumerable", "IE", "<TN RefId=\"%d\"><T>A</T></TN>"),
    ("PSList", "LST", "<TN RefId=\"%d\"><T>A</T></TN>"),
    ("PSQueue", "QUE", "<TN RefId=\"%d\"><T>A</T></TN>"),
    ("PSDict", "DCT", "<TN RefId=\"%d\"><T>System.Collections.Hashtable</T><T>System.Object</T></TN>"),
    ("PSDict", "DCT", "<TN RefId=\"%d\"><T>A</T></TN>"),
)


@harness(
    quick=[dict(i=i) for i in range(len(LOOPS))],
    bounds="a received container of each kind whose three entries are, in any arrangement, itself, an object inside it that refers back to it, that object again, null or a number, under any two digit identifiers, inside another object that refers to it before or after",
)
def loops(v, i):
    kind, tag, tn = LOOPS[i]
    c, t, o = v.int("c", 10, 99), 5, v.int("o", 10, 99)
    v.assume(c != o)
    n = v.int("n", *DIGITS2)
    parts, want, made = [], [], False
    for j in range(3):
        options = ["self", "nil", "number"] + (["object"] if not made else ["again"])
        w = v.choice("e%d" % j, options)
        key = ' N="Value"' if tag == "DCT" else ""
        if w == "self":
            x = '<Ref%s RefId="%d" />' % (key, c)
        elif w == "nil":
            x = "<Nil%s />" % key
        elif w == "number":
            x = "<I32%s>%d</I32>" % (key, n)
        elif w == "object":
            made = True
            x = '<Obj%s RefId="%d"><MS><Ref N="up" RefId="%d" /><I32 N="Id">%d</I32></MS></Obj>' % (key, o, c, n)
        else:
            x = '<Ref%s RefId="%d" />' % (key, o)
        if tag == "DCT":
            x = '<En><S N="Key">k%d</S>%s</En>' % (j, x)
        parts.append(x)
        want.append(w)
    body = '<Obj N="box" RefId="%d">%s<%s>%s</%s></Obj>' % (c, tn % t, tag, "".join(parts), tag)
    text = '<Obj RefId="9"><MS>%s<Ref N="same" RefId="%d" /></MS></Obj>' % (body, c)
    got = deserialize(from_xml(text.encode("utf-8")))
    box = got.box
    v.check(type(box).__name__ == kind, "the container arrives as the kind it is")
    v.check(got.same is box, "a reference to it is to it")
    h = held(kind, box)
    v.check(len(h) == 3, "with as many entries as sent")
    inner = None
    for w, x in zip(want, h):
        if w == "self":
            v.check(x is box, "an entry that is the container itself is the container")
        elif w == "nil":
            v.check(x is None, "null stays null")
        elif w == "number":
            v.check(x == n, "a number is the number")
        elif w == "object":
            inner = x
            v.check(x.up is box and x.Id == n, "an object in it refers back to it")
        else:
            v.check(x is inner, "an object twice in it is one object")


@harness(bounds="a queue holding itself and an object that refers back to it, in any order, with any two digit number, sent and received")
def queue_loop(v):
    q = PSQueue()
    n = v.int("n", *DIGITS2)
    o = PSCustomObject(Id=n, Up=q)
    first = v.flag("first")
    items = [q, o, None] if first else [o, None, q]
    for x in items:
        q.put(x)
    add_note_property(q, "Me", v.choice("note", [q, o]))
    note = q.Me
    g = rt(q)
    me = g.Me
    h = held("PSQueue", g)
    go = h[1] if first else h[0]
    gq = h[0] if first else h[2]
    v.check(len(h) == 3 and gq is g and go.Up is g and go.Id == n, "the queue arrives holding itself")
    v.check((me is g) if note is q else (me is go), "and its property")
    v.check((h[2] if first else h[1]) is None, "null stays null")


@harness(
    quick=[dict(held=h) for h in ("object", "list", "dict")],
    bounds="dictionaries of two entries under each of two objects (of one type or two, linked to each other or not), in either order, whose values are either of the objects, by itself or in a list or dictionary, or a value",
)
def entries(v, held):
    a = PSCustomObject(Id=v.int("a", *DIGITS2))
    b = PSCustomObject(Id=8)
    if v.flag("typed"):
        b.PSObject.type_names = ["Verif.Other"]
    if v.flag("linked"):
        add_note_property(a, "Link", b)
    x, y = v.choice("order", [(a, b), (b, a)])
    wrap = {"object": lambda o: o, "list": lambda o: [o, b], "dict": lambda o: {"k": o, o: b}}[held]
    vx = v.choice("x", [a, b, None])
    vy = v.choice("y", [a, b])
    got = rt({x: wrap(vx) if vx is not None else "text", y: wrap(vy)})
    v.check(type(got) is PSDict and len(got) == 2, "every entry arrives")
    ks = list(got.keys())
    image = {id(x): ks[0], id(y): ks[1]}
    want = ["Deserialized." + t if t == "Verif.Other" else t for o in (x, y) for t in o.PSTypeNames]
    v.check([t for k in ks for t in k.PSTypeNames] == want, "each key with its type names")
    v.check((image[id(a)].Id == a.Id) & (image[id(b)].Id == 8), "each entry under the copy of its key")
    for k, (o, w) in zip(ks, ((x, vx), (y, vy))):
        g = got[k]
        if w is None:
            v.check(g == "text", "a value arrives unchanged")
        elif held == "object":
            v.check(g is image[id(w)], "an object that is a key and a value stays one")
        elif held == "list":
            v.check(len(g) == 2 and g[0] is image[id(w)] and g[1] is image[id(b)], "an object that is a key and in a value stays one")
        else:
            v.check(len(g) == 2 and g["k"] is image[id(w)] and g[image[id(w)]] is image[id(b)], "a key of the value stays one with what it was")


@harness(
    quick=[dict(first=f) for f in ("Key", "Value")],
    bounds="a peer's dictionary entry with its key or its value first, each an object of its own, a reference to the other or of the type names of the other, any two digit values",
)
def entry_order(v, first):
    n, m = v.int("n", *DIGITS2), v.int("m", *DIGITS2)
    second = "Value" if first == "Key" else "Key"
    how = v.choice("second", ["ref", "names", "own"])
    one = '<Obj RefId="5" N="%s"><TN RefId="3"><T>Verif.One</T></TN><MS><I32 N="Id">%d</I32></MS></Obj>' % (first, n)
    if how == "ref":
        two = '<Ref RefId="5" N="%s"/>' % second
    else:
        tn = '<TNRef RefId="3"/>' if how == "names" else '<TN RefId="4"><T>Verif.Two</T></TN>'
        two = '<Obj RefId="6" N="%s">%s<MS><I32 N="Id">%d</I32></MS></Obj>' % (second, tn, m)
    got = deserialize(from_xml('<Obj RefId="0"><DCT><En>' + one + two + "</En></DCT></Obj>"))
    v.check(len(got) == 1, "the entry arrives")
    k = list(got.keys())[0]
    val = got[k]
    o, t = (k, val) if first == "Key" else (val, k)
    v.check((o.Id == n) & (t.Id == (n if how == "ref" else m)), "the key and the value with what is theirs")
    v.check((o is t) == (how == "ref"), "one object where there is one")
    v.check(o.PSTypeNames == ["Deserialized.Verif.One"], "with its type names")
    v.check(t.PSTypeNames == ["Deserialized.Verif.Two" if how == "own" else "Deserialized.Verif.One"], "as has the other")
