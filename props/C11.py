"""Collections keep their kind, their entries and their order, and sending one leaves it as it was."""
import datetime
import queue
import uuid

from psrpcore.types import (
    PSByteArray,
    PSChar,
    PSCustomObject,
    PSDateTime,
    PSDict,
    PSDictBase,
    PSDuration,
    PSGuid,
    PSIEnumerable,
    PSInt,
    PSInt64,
    PSList,
    PSListBase,
    PSObject,
    PSQueue,
    PSQueueBase,
    PSStack,
    PSStackBase,
    PSString,
    PSType,
    PSVersion,
    add_note_property,
)

from vx.api import SCALAR, harness

from plib import deserialize, from_xml, raises, rt, serialize, to_xml

LETTER = ((0x61, 0x7A),)
TWO = (10, 99)


@PSType(["System.Collections.Generic.List`1[[System.Verif]]"])
class MyList(PSListBase):
    pass


@PSType(["System.Collections.Generic.Stack`1[[System.Verif]]"])
class MyStack(PSStackBase):
    pass


@PSType(["System.Collections.Generic.Dictionary`2[[System.Verif]]"])
class MyDict(PSDictBase):
    pass


@PSType(["System.Collections.Generic.Queue`1[[System.Verif]]"])
class MyQueue(PSQueueBase):
    pass


@PSType(["System.Verif.OwnList"])
class OwnList(PSList):
    pass


@PSType(["System.Verif.OwnStack"])
class OwnStack(PSStack):
    pass


@PSType(["System.Verif.OwnEnumerable"])
class OwnEnumerable(PSIEnumerable):
    pass


@PSType(["System.Verif.OwnDict"])
class OwnDict(PSDict):
    pass


@PSType(["System.Verif.OwnQueue"])
class OwnQueue(PSQueue):
    pass


LISTS = {"list": list, "PSList": PSList, "PSStack": PSStack, "PSIEnumerable": PSIEnumerable, "MyList": MyList, "MyStack": MyStack, "OwnList": OwnList, "OwnStack": OwnStack, "OwnEnumerable": OwnEnumerable}
DICTS = {"dict": dict, "PSDict": PSDict, "MyDict": MyDict, "OwnDict": OwnDict}
QUEUES = {"Queue": queue.Queue, "PSQueue": PSQueue, "MyQueue": MyQueue, "OwnQueue": OwnQueue, "LifoQueue": queue.LifoQueue, "PriorityQueue": queue.PriorityQueue}
BECOMES = {"list": PSList, "dict": PSDict, "Queue": PSQueue, "LifoQueue": PSQueue, "PriorityQueue": PSQueue}
SIZES = (0, 1, 2, 3)


def entry(v, name):
    """An entry: text, a number, nothing, a truth value or a list of one number."""
    k = v.choice(name + ".kind", ["text", "number", "none", "bool", "list"])
    if k == "text":
        return v.str(name + ".s", 1, LETTER)
    if k == "number":
        return v.int(name + ".n", *TWO)
    if k == "none":
        return None
    if k == "bool":
        return v.flag(name + ".b")
    return [v.int(name + ".n", *TWO)]


def same(a, b):
    """a arrived for b"""
    if b is None or b is True or b is False:
        return a is b
    if isinstance(b, list):
        return type(a) is PSList and len(a) == len(b) and a[0] == b[0]
    if isinstance(b, str):
        return type(a) is PSString and a == b
    return type(a) is PSInt and a == b


def put(q, xs):
    for x in xs:
        q.put(x)
    return q


def take(q):
    out = []
    while not q.empty():
        out.append(q.get())
    return out


@harness(
    quick=[dict(kind=k, n=n) for k in LISTS for n in (0, 1, 2)] + [dict(kind="list", n=3)],
    thorough=[dict(kind=k, n=n) for k in LISTS for n in SIZES],
    bounds="every kind of list of 0 to 2 (list, thorough all: 3) entries, each any letter, two digit number, nothing, truth value or nested list; serialized twice",
)
def lists(v, kind, n):
    xs = [entry(v, "e%d" % i) for i in range(n)]
    c = LISTS[kind](xs)
    first = to_xml(serialize(c))
    got = rt(c)
    v.check(type(got) is BECOMES.get(kind, LISTS[kind]), "a list arrives as its kind")
    v.check(len(got) == n, "with as many entries")
    v.check(v.all([same(a, b) for a, b in zip(got, xs)]), "the same and in order")
    v.check(len(c) == n and all([a is b for a, b in zip(c, xs)]), "the list sent is as it was")
    v.check(v.eqbytes(to_xml(serialize(c)), first), "and is the same when sent again")


@harness(
    quick=[dict(kind=k, n=n) for k in QUEUES for n in (0, 1, 2)] + [dict(kind="Queue", n=3)],
    thorough=[dict(kind=k, n=n) for k in QUEUES for n in SIZES],
    bounds="every kind of queue of 0 to 2 (Queue, thorough all: 3) two digit numbers, with and without a maximum size; sent twice",
)
def queues(v, kind, n):
    xs = [v.int("e%d" % i, *TWO) for i in range(n)]
    c = put(QUEUES[kind](n) if v.flag("max") and n else QUEUES[kind](), xs)
    if kind == "PriorityQueue":
        want = sorted(xs)
    elif kind == "LifoQueue":
        want = xs[::-1]
    else:
        want = xs
    first = to_xml(serialize(c))
    got = rt(c)
    v.check(type(got) is BECOMES.get(kind, QUEUES[kind]), "a queue arrives as its kind")
    v.check(got.qsize() == n, "with as many entries")
    h = take(got)
    v.check(v.all([a == b for a, b in zip(h, want)]), "in the order they would be taken")
    v.check(v.eqbytes(to_xml(serialize(c)), first), "it is the same when sent again")
    v.check(c.qsize() == n, "the queue sent has as many entries as before")
    v.check(v.all([a == b for a, b in zip(take(c), want)]), "and the same ones")


@harness(
    quick=[dict(kind=k, n=n) for k in DICTS for n in (0, 1, 2)] + [dict(kind="dict", n=3)],
    thorough=[dict(kind=k, n=n) for k in DICTS for n in SIZES],
    bounds="every kind of dictionary of 0 to 2 (dict, thorough all: 3) entries with any letter as the key, distinct or equal, and any entry as the value; sent twice",
)
def dicts(v, kind, n):
    c, model = DICTS[kind](), []
    for i in range(n):
        k, x = v.str("k%d" % i, 1, LETTER), entry(v, "e%d" % i)
        c[k] = x
        for j, (kk, _) in enumerate(model):
            if kk == k:
                model[j] = (kk, x)
                break
        else:
            model.append((k, x))
    first = to_xml(serialize(c))
    got = rt(c)
    v.check(type(got) is BECOMES.get(kind, DICTS[kind]), "a dictionary arrives as its kind")
    v.check(len(got) == len(model), "with as many entries")
    v.check(v.all([a == k for a, (k, _) in zip(got.keys(), model)]), "the same keys in order")
    v.check(v.all([same(a, x) for a, (_, x) in zip(got.values(), model)]), "the same values")
    v.check(v.all([same(got[k], x) for k, x in model]), "each under its key")
    v.check(len(c) == len(model) and v.eqbytes(to_xml(serialize(c)), first), "the dictionary sent is as it was")


KEYS = ("text", "int", "int64", "char", "guid", "duration", "datetime", "version", "bytes", "object", "bool")


@harness(
    quick=[dict(kind=k) for k in KEYS],
    bounds="a dictionary with two distinct keys of every type that can be one: any two code points, Int32s, two digit Int64s and characters, GUIDs differing in a byte, durations, dates, versions of two digit parts, byte arrays of two bytes, objects, truth values",
)
def keys(v, kind):
    def key(name):
        if kind == "text":
            return PSString(v.str(name, 1, SCALAR))
        if kind == "int":
            return PSInt(v.int(name, 100, 999))
        if kind == "int64":
            return PSInt64(v.int(name, *TWO))
        if kind == "char":
            return PSChar(v.int(name, *TWO))
        if kind == "guid":
            return PSGuid(bytes=b"\x01" * 15 + v.bytes(name, 1))
        if kind == "duration":
            return PSDuration(seconds=v.choice(name, [0, 1, 59]))
        if kind == "datetime":
            return PSDateTime(2020, 1, v.choice(name, [1, 2, 3]))
        if kind == "version":
            return PSVersion(major=v.choice(name + ".0", [0, 1]), minor=v.choice(name + ".1", [0, 2]), build=v.choice(name + ".2", [0, 3]))
        if kind == "bytes":
            return PSByteArray(v.choice(name, [b"ab", b"ac", b""]))
        if kind == "bool":
            return v.flag(name)
        o = PSCustomObject(Id=v.int(name, *TWO))
        return o

    a, b = key("a"), key("b")
    if kind != "object":
        v.assume((a == b) == False)
    d = {a: 1, b: 2}
    got = rt(PSCustomObject(D=d, A=a, B=b))
    ks = list(got.D.keys())
    v.check(len(ks) == 2 and type(ks[0]) is type(a) and type(ks[1]) is type(b), "the keys keep their type")
    if kind == "object":
        v.check(ks[0] is got.A and ks[1] is got.B, "a key can be shared")
        v.check((ks[0].Id == a.Id) & (ks[1].Id == b.Id), "and has its value")
    else:
        v.check((ks[0] == a) & (ks[1] == b), "the keys have their value")
        v.check(got.D[a] == 1 and got.D[b] == 2, "an entry is found under its key")
    v.check(list(got.D.values()) == [1, 2], "each value is that of its key")


FOREIGN = {
    # .NET container types the library has no class for become the general one
    "LST": ("System.Collections.Generic.List`1[[System.Int32]]", PSList),
    "STK": ("System.Collections.Generic.Stack`1[[System.Int32]]", PSStack),
    "IE": ("System.Linq.Enumerable", PSIEnumerable),
    "QUE": ("System.Collections.Generic.Queue`1[[System.Int32]]", PSQueue),
    "DCT": ("System.Collections.Generic.SortedList`2", PSDict),
}


@harness(
    quick=[dict(tag=t) for t in FOREIGN],
    bounds="documents with a container of an unknown, a known or no .NET type, with properties before or after, the key of an entry before or after its value, any two digit numbers",
)
def documents(v, tag):
    name, cls = FOREIGN[tag]
    a, b, n = v.int("a", *TWO), v.int("b", *TWO), v.int("n", *TWO)
    tn = v.choice("tn", [name, "known", None])
    own = cls.PSObject.type_names
    types = [] if tn is None else own if tn == "known" else [name, "System.Object"]
    head = "<TN RefId='0'>" + "".join("<T>%s</T>" % t for t in types) + "</TN>" if types else ""
    if tag == "DCT":
        pair = "<S N='Key'>x</S>", "<I32 N='Value'>%d</I32>"
        body = "<En>" + "".join(pair if v.flag("key first") else pair[::-1]) + "</En><En><S N='Key'>y</S><I32 N='Value'>%d</I32></En>"
    else:
        body = "<I32>%d</I32><I32>%d</I32>"
    body = "<%s>%s</%s>" % (tag, body % (a, b), tag)
    props = "<MS><I32 N='Note'>%d</I32><Ref N='Self' RefId='7' /></MS>" % n
    doc = "<Obj RefId='7'>" + head + (props + body if v.flag("props first") else body + props) + "</Obj>"
    got = deserialize(from_xml(doc.encode("utf-8")))
    v.check(type(got) is cls, "the container's class")
    have = got.PSTypeNames
    want = own if tn == "known" else ["Deserialized." + t for t in types] or own
    v.check(list(have) == list(want), "the type names it came with")
    xs = take(got) if tag == "QUE" else list(got.values()) if tag == "DCT" else list(got)
    v.check(len(xs) == 2 and (xs[0] == a) & (xs[1] == b), "the entries in order")
    if tag == "DCT":
        v.check(list(got.keys()) == ["x", "y"], "under their keys")
    v.check(got.Note == n, "the properties")
    v.check(got.Self is got, "a property can refer to the container")


@harness(
    quick=[dict(kind=k, n=3) for k in ("PSList", "PSStack", "PSIEnumerable", "MyList")],
    bounds="indexing and assigning with any index in [-5, 5] of a list of 3 entries that also has note properties, by name as well",
)
def indexing(v, kind, n):
    xs = [v.int("e%d" % i, *TWO) for i in range(n)]
    c = LISTS[kind](xs)
    add_note_property(c, "Note", "note")
    i = v.choice("i", list(range(-5, 6)))
    if v.flag("set"):
        x = v.int("x", *TWO)
        if raises(lambda: xs.__setitem__(i, x), IndexError):
            v.check(raises(lambda: c.__setitem__(i, x), IndexError), "an index out of range is refused")
        else:
            c[i] = x
            v.check(v.all([a == b for a, b in zip(c, xs)]), "assigning sets that entry only")
    elif raises(lambda: xs[i], IndexError):
        v.check(raises(lambda: c[i], IndexError), "an index out of range is refused")
    else:
        v.check(c[i] == xs[i], "an index is that of the list")
    v.check(len(c[:i]) == len(xs[:i]) and v.all([a == b for a, b in zip(c[:i], xs[:i])]), "slices are those of the list")
    v.check(c["Note"] == "note" and c.Note == "note", "a name is that of a property")
    c["Note"] = "other"
    v.check(c.Note == "other" and len(c) == n, "a property can be assigned by name")


@harness(
    quick=[dict(p=p) for p in ("p", "keys", "PSObject")],
    bounds="a dictionary with any letter, or the name of a property or method, as the key next to a note property, whose entry is a text, null, false, zero or an empty list: an entry is found before a property",
)
def names(v, p):
    value = v.choice("value", ["entry", None, False, 0, []])
    k = v.str("k", 1, LETTER) if p == "p" else p
    for cls in (PSDict, MyDict):
        d = cls()
        add_note_property(d, "p", "prop")
        d[k] = value
        v.check(len(d) == 1 and d[k] is value, "an entry is found under its key")
        if k == "p":
            v.check(d["p"] is value, "before a property of the same name")
        else:
            v.check(d["p"] == "prop", "a property is found by its name")
        v.check(d.p == "prop", "a property is found as an attribute")
        v.check(raises(lambda: d["absent"], KeyError, AttributeError), "what is not there is not found")
        g = rt(d)
        v.check(g[k] == value and isinstance(g[k], bool) == isinstance(value, bool) and g.p == "prop" and len(g) == 1, "both arrive")
        d[k] = "other"
        v.check(d[k] == "other" and len(d) == 1 and d.p == "prop", "assigning an entry leaves the property")


@harness(bounds="the entries and properties of any two digit numbers of two containers of each kind made one after the other")
def apart(v):
    n = v.int("n", *TWO)
    for cls in (PSList, PSStack, PSIEnumerable, MyList):
        a, b = cls(), cls()
        a.append(n)
        add_note_property(a, "Note", n)
        v.check(len(b) == 0 and len(b.PSObject.extended_properties) == 0 and len(cls.PSObject.extended_properties) == 0, "containers do not share entries or properties")
    for cls in (PSDict, MyDict):
        a, b = cls(), cls()
        a["x"] = n
        v.check(len(b) == 0, "containers do not share entries or properties")
    for cls in (PSQueue, MyQueue):
        a, b = cls(), cls()
        a.put(n)
        v.check(b.empty() and a.get() == n, "containers do not share entries or properties")
