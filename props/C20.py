"""Objects read and write the property they should, and share nothing they should not."""
from psrpcore.types import (
    PSAliasProperty,
    PSCustomObject,
    PSInt,
    PSInt64,
    PSNoteProperty,
    PSObject,
    PSScriptProperty,
    PSString,
    PSType,
    add_alias_property,
    add_member,
    add_note_property,
    add_script_property,
    ps_isinstance,
)

from vx.api import harness

from plib import deserialize, from_xml, raises, rt, serialize, to_xml

LETTER = [(0x61, 0x7A)]
TWO = (10, 99)
I32 = (-(2**31), 2**31 - 1)
I64 = (-(2**63), 2**63 - 1)
NAMES = ("A", "B", "C", "D")


def is32(x):
    return (x >= I32[0]) & (x <= I32[1])


# ---- a plain statement of the property rules: what reading and writing a name does


class Model:
    """One object (or class): adapted and extended properties in order, and plain attributes."""

    def __init__(self, adapted, extended):
        self.adapted, self.extended, self.attrs = list(adapted), list(extended), {}

    def copy(self):
        return Model([list(p) for p in self.adapted], [list(p) for p in self.extended])

    def find(self, name):
        for p in self.extended:
            if p[0] == name:
                return p
        for p in self.adapted:
            if p[0] == name:
                return p
        return None

    def names(self):
        return [p[0] for p in self.adapted + self.extended] + list(self.attrs)

    def read(self, name):
        if name in self.attrs:
            return self.attrs[name]
        _, kind, value = self.find(name)
        if kind == "note":
            return value
        return self.read("A") if kind == "alias" else self.read("A") + 1000

    def write(self, name, value):
        """False when it has to be refused"""
        p = self.find(name)
        if name in self.attrs or p is None:
            self.attrs[name] = value
        elif p[1] == "note":
            p[2] = value
        elif p[1] == "alias" or p[1] == "script":
            return False
        else:
            self.write("A", value - 1000)
        return True

    def add(self, name, kind, value, force):
        if self.find(name) and not force:
            return False
        for i, p in enumerate(self.extended):
            if p[0] == name:
                self.extended[i] = [name, kind, value]
                return True
        self.extended.append([name, kind, value])
        return True


def plus(s):
    return s.A + 1000


def minus(s, value):
    s.A = value - 1000


def add(obj, name, kind, value, force):
    if kind == "note":
        add_note_property(obj, name, value, force=force)
    elif kind == "alias":
        add_alias_property(obj, name, "A", force=force)
    elif kind == "script":
        add_script_property(obj, name, plus, force=force)
    else:
        add_script_property(obj, name, plus, minus, force=force)


def agree(v, obj, model, what):
    d = obj.__dict__
    for name in NAMES:
        if name in model.names():
            want = model.read(name)
            v.check(getattr(obj, name) == want, what + ": attribute")
            v.check(obj[name] == want, what + ": index")
            v.check(name in d, what + ": listed")
            v.check(d[name] == want, what + ": __dict__")
        else:
            v.check(not hasattr(obj, name) and name not in d, what + ": no such property")
            v.check(raises(lambda: obj[name], AttributeError), what + ": no such index")
    for got, want in ((obj.PSObject.adapted_properties, model.adapted), (obj.PSObject.extended_properties, model.extended)):
        v.check([p.name for p in got] == [p[0] for p in want], what + ": the properties and their order")


def fresh(v, ps_type=None):
    """A new class with A, B adapted and B, C extended, and its model."""
    vals = [v.int("c%d" % i, *I32) for i in range(4)]

    @PSType(
        ["Verif.Props"],
        adapted_properties=[PSNoteProperty("A", vals[0], ps_type=ps_type), PSNoteProperty("B", vals[1])],
        extended_properties=[PSNoteProperty("B", vals[2]), PSNoteProperty("C", vals[3])],
        rehydrate=False,
    )
    class Props(PSObject):
        pass

    return Props, Model([["A", "note", vals[0]], ["B", "note", vals[1]]], [["B", "note", vals[2]], ["C", "note", vals[3]]])


OPS = ("set", "add", "add class")


@harness(
    quick=[dict(ops=(a, b)) for a in OPS for b in OPS],
    thorough=[dict(ops=(a, b, c)) for a in OPS for b in OPS for c in OPS],
    bounds="every history of 2 (thorough 3) writes and additions of note, alias, script and settable properties, by every name, with and without force, to either of two objects or their class; values any Int32; an object made afterwards",
)
def history(v, ops):
    cls, mc = fresh(v)
    objs = [cls(), cls()]
    models = [mc.copy(), mc.copy()]
    for i, op in enumerate(ops):
        which = v.choice("o%d" % i, [0, 1]) if op != "add class" and i else 0
        obj, model = objs[which], models[which]
        value = v.int("n%d" % i, *I32)
        name = v.choice("name%d" % i, NAMES)
        if op == "set":
            want = model.write(name, value)
            by = v.choice("by%d" % i, ["attribute", "index"])
            if by == "attribute":
                done = not raises(lambda: setattr(obj, name, value), ValueError)
            else:
                done = not raises(lambda: obj.__setitem__(name, value), ValueError)
            v.check(done == want, "only a property without a setter refuses a value")
        else:
            kind = v.choice("kind%d" % i, ["note", "alias", "script", "settable"]) if name != "A" else "note"
            force = v.flag("force%d" % i)
            if op == "add class":
                obj, model = cls, mc
            v.assume(name not in model.attrs)
            want = model.add(name, kind, value, force)
            done = not raises(lambda: add(obj, name, kind, value, force), RuntimeError)
            v.check(done == want, "only force replaces a property")
    for o, m in zip(objs, models):
        agree(v, o, m, "object")
    agree(v, cls(), mc.copy(), "new object")
    agree(v, objs[0], models[0], "looking changes nothing")


@harness(
    quick=[dict(shape=s) for s in ("plain", "overlap", "inherit", "skip")],
    thorough=[dict(shape=s, n=4) for s in ("plain", "overlap", "inherit", "skip")],
    bounds="classes with up to 4 properties, adapted, extended, shadowing or inherited; every split of up to 3 (thorough 4) values over positional and keyword arguments, every set of mandatory properties, unknown, repeated and surplus arguments",
)
def construct(v, shape, n=3):
    must = {k: v.flag("must" + k) for k in "AB"}

    def note(k):
        return PSNoteProperty(k, mandatory=must.get(k, False), ps_type=PSInt64)

    @PSType(["Verif.Base"], adapted_properties=[note("A")], extended_properties=[note("B")], rehydrate=False)
    class Base(PSObject):
        pass

    if shape == "plain":
        cls, order, names = Base, ["A", "B"], ["Verif.Base", "System.Object"]
    elif shape == "overlap":

        @PSType(["Verif.Over"], adapted_properties=[note("A"), note("B")], extended_properties=[PSNoteProperty("A", mandatory=must["A"], ps_type=PSString), note("C")], rehydrate=False)
        class Over(PSObject):
            pass

        cls, order, names = Over, ["A", "B", "C"], ["Verif.Over", "System.Object"]
    else:

        @PSType(["Verif.Sub"], adapted_properties=[note("C")], extended_properties=[note("D")], rehydrate=False, skip_inheritance=shape == "skip")
        class Sub(Base):
            pass

        cls, order, names = (Sub, ["C", "D"], ["Verif.Sub"]) if shape == "skip" else (Sub, ["C", "A", "D", "B"], ["Verif.Sub", "Verif.Base", "System.Object"])
    v.check(Base.PSObject.type_names == ["Verif.Base", "System.Object"], "type names of the base class")
    positional = v.choice("positional", list(range(n + 1)))
    args = [v.int("p%d" % i, *TWO) for i in range(positional)]
    kwargs = {k: v.int("k" + k, *TWO) for k in ("A", "B", "D", "X") if v.flag("key" + k)}
    given = dict(zip(order, args))
    ok = positional <= len(order) and not set(given) & set(kwargs) and set(kwargs) <= set(order)
    given.update(kwargs)
    ok = ok and all(k in given for k in order if must.get(k))
    made = []
    refused = raises(lambda: made.append(cls(*args, **kwargs)), TypeError)
    v.check(refused == (not ok), "exactly the right arguments are accepted")
    if ok:
        obj = made[0]
        for k in order:
            want = given.get(k)
            if want is None:
                v.check(obj[k] is None, "what is not given is null")
            elif shape == "overlap" and k == "A":
                v.check(isinstance(obj[k], PSString) and obj[k] == str(want), "the extended property gets the value, and its type")
            else:
                v.check(isinstance(obj[k], PSInt64) and obj[k] == want, "each value reaches its property, in its type")
        v.check(obj.PSTypeNames == names, "type names, the own one first")


TYPES = {"PSInt": PSInt, "PSInt64": PSInt64, "PSString": PSString}


@harness(
    quick=[dict(ps_type=t) for t in TYPES],
    thorough=[dict(ps_type=t) for t in TYPES],
    bounds="typed note, alias and script properties given any Int64 or text of 2 letters or null, when made, set (over nothing, a default, an inherited or added one) or read",
)
def typed(v, ps_type):
    t = TYPES[ps_type]
    text = ps_type == "PSString"
    how = v.choice("how", ["value", "set", "init", "alias", "script", "setter", "default", "again", "extended", "inherited", "added", "late"])
    if text:
        raw = v.int("n", *TWO) if v.flag("number") else v.str("s", 2, LETTER)
    else:
        raw = v.int("n", *I64)
    kept = []

    @PSType(
        ["Verif.Typed"],
        adapted_properties=[PSNoteProperty("Typed", ps_type=t), PSNoteProperty("Plain"), PSNoteProperty("Default", value="7", ps_type=t)],
        extended_properties=[
            PSNoteProperty("Extended", value="8", ps_type=t),
            PSAliasProperty("Alias", "Plain", ps_type=t),
            PSScriptProperty("Script", lambda s: s.Plain, lambda s, value: kept.append(value), ps_type=t),
        ],
        rehydrate=False,
    )
    class Typed(PSObject):
        pass

    @PSType(["Verif.TypedMore"], rehydrate=False)
    class More(Typed):
        pass

    if how == "added":
        add_member(Typed, PSNoteProperty("Added", value="9", ps_type=t))

    bad = False
    if ps_type == "PSInt":
        bad = not is32(raw)
    got = []

    def act():
        obj = Typed()
        if how == "value":
            obj = PSObject()
            add_note_property(obj, "Typed", raw, ps_type=t)
            got.append(obj.Typed)
        elif how == "set":
            obj.Typed = raw
            got.append(obj.Typed)
        elif how == "init":
            got.append(Typed(Typed=raw)["Typed"])
        elif how in ("default", "again", "extended", "inherited", "added", "late"):
            name = dict(extended="Extended", added="Added", late="Late").get(how, "Default")
            if how == "inherited":
                obj = More()
            if how == "late":
                add_note_property(obj, "Late", "6", ps_type=t)
            old = getattr(obj, name)
            v.check(type(old) is t and str(old) in ("6", "7", "8", "9"), "a default value is of the type")
            if how == "again":
                obj.Default = None
                v.check(obj.Default is None, "a typed property can be null")
            obj[name] = raw
            got.append(getattr(obj, name))
        elif how == "setter":
            obj.Script = raw
            got.append(kept[0])
        else:
            obj.Plain = raw
            v.check(obj.Plain is raw, "a property without a type keeps the object it is given")
            got.append(obj.Alias if how == "alias" else obj.Script)

    failed = raises(act, ValueError, OverflowError)
    if how == "setter":
        v.check(not failed and got[0] is raw, "a setter gets the value as it was given")
        return
    v.check(failed == bad, "only a value the type cannot hold is refused")
    if not failed:
        v.check(type(got[0]) is t, "the value has the type of its property")
        v.check(got[0] == (str(raw) if text else raw), "the value")
    obj = Typed()
    v.check(obj.Typed is None and obj.Alias is None and obj.Script is None, "null has no type")
    obj.Typed = None
    v.check(obj.Typed is None, "null can be set")


@harness(
    quick=[dict(how=h) for h in ("class", "deserialized", "custom")],
    thorough=[dict(how=h) for h in ("class", "deserialized", "custom")],
    bounds="objects with adapted, extended and shadowed properties and an attribute of any Int32 (one at a time; two digits otherwise), registered or not",
)
def wire(v, how):
    big = v.choice("big", [0, 1, 2, 3])
    vals = [v.int("v%d" % i, *(I32 if i == big else TWO)) for i in range(4)]
    if how == "custom":
        obj = PSCustomObject(A=vals[0], B=vals[1])
        adapted, extended = [], [("A", vals[0]), ("B", vals[1])]
    else:
        cls, _ = fresh(v)
        obj = cls()
        obj.A = vals[0]
        obj.B = vals[1]
        obj.PSObject.adapted_properties[1].set_value(vals[2], obj)
        adapted, extended = [("A", vals[0]), ("B", vals[2])], [("B", vals[1])]
    if v.flag("script"):
        add_script_property(obj, "S", lambda s: s.B)
        extended.append(("S", vals[1]))
    if how == "class":
        add_note_property(obj, "C", vals[3], force=True)
        extended.insert(1, ("C", vals[3]))
    elif how == "deserialized":
        obj.PSObject.extended_properties = [p for p in obj.PSObject.extended_properties if p.name != "C"]
    root = serialize(obj)
    for tag, want in (("Props", adapted), ("MS", extended)):
        e = root.find(tag)
        got = [] if e is None else [(c.attrib["N"], c.text) for c in e]
        v.check([g[0] for g in got] == [w[0] for w in want], "each property where it belongs, in order")
        for (_, g), (_, w) in zip(got, want):
            v.check(g == str(w), "each with its value")
    back = deserialize(from_xml(to_xml(root)))
    v.check([p.name for p in back.PSObject.adapted_properties] == [a for a, _ in adapted], "adapted properties arrive as such")
    v.check([p.name for p in back.PSObject.extended_properties] == [a for a, _ in extended], "extended properties arrive as such")
    for name, want in adapted + extended:
        v.check(back[name] == dict(adapted + extended)[name], "an extended property hides the adapted one")


@harness(
    quick=[dict(n=n, m=m) for n in (1, 2) for m in (1, 2)] + [dict(n=2, m=0)],
    thorough=[dict(n=n, m=m) for n in (1, 2, 3) for m in (0, 1, 2, 3)],
    bounds="objects with up to 2 (thorough 3) type names and up to 2 (3) asked for, of 2 letters, each deserialized or not, as text, class, object or tuple of them",
)
def isinstance_(v, n, m):
    def name(k):
        d = v.flag(k + "d")
        text = v.str(k, 2, [(0x61, 0x63)])
        return ("Deserialized." + text if d else text), text, d

    mine = [name("m%d" % i) for i in range(n)]
    asked = [name("a%d" % i) for i in range(m)]
    obj = PSObject()
    obj.PSObject.type_names = [x[0] for x in mine]
    other = []
    for i, a in enumerate(asked):
        form = v.choice("form%d" % i, ["text", "object"])
        if form == "text":
            other.append(a[0])
        else:
            o = PSObject()
            o.PSObject.type_names = [a[0], "zz"]
            other.append(o)
    arg = other[0] if m == 1 and v.flag("alone") else tuple(other)
    ignore = v.flag("ignore")
    want = False
    for x in mine:
        for a in asked:
            want = want | ((x[1] == a[1]) & (ignore or x[2] == a[2]))
    v.check(ps_isinstance(obj, arg, ignore_deserialized=ignore) == want, "an instance when any type name is asked for")
    v.check([str(t) for t in obj.PSTypeNames] == [x[0] for x in mine], "asking changes nothing")


@harness(
    quick=[dict()],
    thorough=[dict()],
    bounds="two classes declared with the same lists of names and properties, then a property of any Int32 added to either or to an object of it",
)
def declared(v):
    names = ["Verif.Shared"]
    adapted = [PSNoteProperty("A", v.int("a", *I32))]
    extended = [PSNoteProperty("B", v.int("b", *I32))]

    @PSType(["Verif.Root"], adapted_properties=[PSNoteProperty("R")], rehydrate=False)
    class Root(PSObject):
        pass

    @PSType(names, adapted, extended, rehydrate=False)
    class First(Root):
        pass

    @PSType(names, adapted, extended, rehydrate=False)
    class Second(PSObject):
        pass

    n = v.int("n", *I32)
    where = v.choice("where", ["class", "object", "set"])
    one, other = v.choice("which", [(First, Second), (Second, First)])
    x = one()
    if where == "set":
        x.A = n
    else:
        add_note_property(one if where == "class" else x, "N", n)
    v.check(len(names) == 1 and len(adapted) == 1 and len(extended) == 1, "the lists a class is declared with stay as they are")
    y = other()
    v.check(not hasattr(y, "N"), "a property added to one class does not appear in another")
    v.check((y.A == adapted[0].get_value(y)) & (y.B == extended[0].get_value(y)), "nor does a value")
    v.check(not hasattr(Second(), "R"), "a class has the properties of its base class only")
    v.check(Second().PSTypeNames == ["Verif.Shared", "System.Object"], "and the type names")
    z = one()
    v.check(hasattr(z, "N") == (where == "class"), "a property added to a class appears in objects made later")
    v.check(getattr(z if where == "class" else x, "A" if where == "set" else "N") == n, "the value added")
    v.check(hasattr(x, "N") == (where == "object"), "and not in those made before")
