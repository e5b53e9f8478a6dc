"""Enums and flags arrive as the member sent, under .NET's name and number, and members stay as declared."""
import enum

import psrpcore.types as T
from psrpcore.types import (
    PSByte,
    PSEnumBase,
    PSFlagBase,
    PSInt,
    PSInt16,
    PSInt64,
    PSNoteProperty,
    PSObject,
    PSSByte,
    PSType,
    PSUInt,
    PSUInt16,
    PSUInt64,
)

from vx.api import harness

from plib import deserialize, from_xml, raises, rt, serialize, to_xml

UPPER = [(65, 90)]
TWO = (10, 99)
AUTO = "System.Management.Automation."

# .NET's definition of each enum: full name, names in order with their numbers (a name alone is one more than the last)
NET = {
    "ConsoleColor": ("System.ConsoleColor", "Black DarkBlue DarkGreen DarkCyan DarkRed DarkMagenta DarkYellow Gray DarkGray Blue Green Cyan Red Magenta Yellow White"),
    "ProgressRecordType": (AUTO + "ProgressRecordType", "Processing Completed"),
    "SessionStateEntryVisibility": (AUTO + "SessionStateEntryVisibility", "Public Private"),
    "RunspacePoolState": (AUTO + "Runspaces.RunspacePoolState", "BeforeOpen Opening Opened Closed Closing Broken Disconnecting Disconnected Connecting"),
    "PSInvocationState": (AUTO + "PSInvocationState", "NotStarted Running Stopping Stopped Completed Failed Disconnected"),
    "PSThreadOptions": (AUTO + "Runspaces.PSThreadOptions", "Default UseNewThread ReuseThread UseCurrentThread"),
    "ApartmentState": ("System.Threading.ApartmentState", "STA MTA Unknown"),
    "ErrorCategory": (
        AUTO + "ErrorCategory",
        "NotSpecified OpenError CloseError DeviceError DeadlockDetected InvalidArgument InvalidData InvalidOperation InvalidResult InvalidType MetadataError NotImplemented NotInstalled ObjectNotFound "
        "OperationStopped OperationTimeout SyntaxError ParserError PermissionDenied ResourceBusy ResourceExists ResourceUnavailable ReadError WriteError FromStdErr SecurityError ProtocolError "
        "ConnectionError AuthenticationError LimitsExceeded QuotaExceeded NotEnabled",
    ),
    "CommandOrigin": (AUTO + "CommandOrigin", "Runspace Internal"),
    "HostMethodIdentifier": (AUTO + "Remoting.RemoteHostMethodId", ""),
    "PSCredentialTypes": (AUTO + "PSCredentialTypes", "Generic=1 Domain=2 Default=3"),
    "PSCredentialUIOptions": (AUTO + "PSCredentialUIOptions", "None=0 ValidateUserNameSyntax=1 AlwaysPrompt=2 ReadOnlyUsername=3"),
    "RemoteStreamOptions": (
        AUTO + "RemoteStreamOptions",
        "None=0 AddInvocationInfoToErrorRecord=1 AddInvocationInfoToWarningRecord=2 AddInvocationInfoToDebugRecord=4 AddInvocationInfoToVerboseRecord=8 AddInvocationInfo=15",
    ),
    "CommandTypes": (AUTO + "CommandTypes", "Alias=1 Function=2 Filter=4 Cmdlet=8 ExternalScript=16 Application=32 Script=64 Configuration=256 All=383"),
    "PipelineResultTypes": (AUTO + "Runspaces.PipelineResultTypes", "None=0 Output=1 Error=2 Warning=3 Verbose=4 Debug=5 Information=6 All=7 Null=8"),
    "ControlKeyStates": (
        AUTO + "Host.ControlKeyStates",
        "None=0 RightAltPressed=1 LeftAltPressed=2 RightCtrlPressed=4 LeftCtrlPressed=8 ShiftPressed=16 NumLockOn=32 ScrollLockOn=64 CapsLockOn=128 EnhancedKey=256",
    ),
    "BufferCellType": (AUTO + "Host.BufferCellType", "Complete=0 Leading=1 Trailing=2"),
    "ReadKeyOptions": (AUTO + "Host.ReadKeyOptions", "AllowCtrlC=1 NoEcho=2 IncludeKeyDown=4 IncludeKeyUp=8"),
}


def table(name):
    d = {}
    for i, w in enumerate(NET[name][1].split()):
        k, _, n = w.partition("=")
        d[k] = int(n) if n else i
    if name == "HostMethodIdentifier":
        d = {m: x.value for m, x in T.HostMethodIdentifier.__members__.items()}
    return d


FLAGS = [n for n in NET if issubclass(getattr(T, n), enum.Flag)]
BITS = {n: [1 << i for i in range(9) if any(x & (1 << i) for x in table(n).values())] for n in FLAGS}


def parts(element):
    return {c.tag: c for c in element}


def wire(v, val, name, number, tag="I32"):
    """Serializes val, checks what MS-PSRP 2.2.5.2.7 asks for, and returns the element."""
    element = serialize(val)
    got = parts(element)
    v.check(element.tag == "Obj" and list(got)[0] == tag, "the number, in its integer type")
    v.check(got[tag].text == str(number), "the number")
    types = [t.text for t in got["TN"]]
    v.check(types[1:] == ["System.Enum", "System.ValueType", "System.Object"], "the type names of an enum")
    v.check(types[0] == name or (name.endswith("BufferCellType") and types[0].endswith("Host.ControlKeyStates")), "the type name")
    v.check(types[0] == name or not types[0].endswith("Host.ControlKeyStates"), "not the type name of another enum")
    return element


def arrives(v, val, element, wrong=False):
    back = deserialize(from_xml(to_xml(element)))
    v.check(back == val, "the number arrives")
    v.check(wrong or back is val, "as the member sent")


@harness(
    quick=[dict(cls=n) for n in NET],
    thorough=[dict(cls=n) for n in NET],
    bounds="every member of every enum psrpcore defines",
)
def members(v, cls):
    c, names = getattr(T, cls), table(cls)
    have = {("None" if k == "none" else k): m for k, m in c.__members__.items()}
    v.check(set(names) <= set(have) and all(m.value in names.values() for m in have.values()), "the names .NET defines")
    k = v.choice("member", list(names))
    val = have[k]
    v.check(val.value == names[k] and int(val) == names[k], "with their numbers")
    v.check(c(names[k]) is val and c[val.name] is val, "each found by name and number")
    element = wire(v, val, NET[cls][0], names[k])
    text = parts(element)["ToString"].text
    if names[k] in BITS.get(cls, [names[k]]) or names[k] == 0:
        v.check(set(text.split(", ")) <= set(a for a, n in names.items() if n == names[k]), "named as .NET names it")
    arrives(v, val, element, wrong=cls == "BufferCellType")
    both = rt([val, val, names[k]])
    v.check(both[0] == both[1] == both[2] == names[k], "twice in a list, and the number itself")
    v.check(not isinstance(both[2], enum.Enum), "a number is not an enum")


@harness(
    quick=[dict(cls=n) for n in NET],
    thorough=[dict(cls=n) for n in NET],
    bounds="every Int32 under every enum's type name (flags: 0-600), with any ToString of 2 letters",
)
def received(v, cls):
    c = getattr(T, cls)
    flags = issubclass(c, enum.Flag)
    n = v.choice("n", list(range(600))) if flags else v.int("n", -(2**31), 2**31 - 1)
    label = v.str("label", 2, UPPER)
    name = c.PSObject.type_names[0]
    doc = '<Obj RefId="0"><TN RefId="0"><T>%s</T><T>System.Enum</T></TN><ToString>%s</ToString><I32>%s</I32></Obj>' % (name, label, n)
    owner = T.ControlKeyStates if cls == "BufferCellType" else c
    numbers = [m.value for m in owner.__members__.values()]
    known = v.all([n != x for x in numbers]) == False
    got = []
    refused = raises(lambda: got.append(deserialize(from_xml(doc))), ValueError)
    if known:
        v.check(not refused, "a number with a name is accepted")
    if not refused:
        back = got[0]
        v.check(isinstance(back, owner), "as that enum")
        v.check(back == n, "with that number")
        if not flags:
            v.check(known, "only a number with a name is a member")
        v.check(back is owner(back.value), "the one member there is")


@harness(
    quick=[dict(cls=n) for n in FLAGS],
    thorough=[dict(cls=n) for n in FLAGS],
    bounds="every combination of bits of every flags enum, and | & ^ ~ with every other single flag",
)
def flags(v, cls):
    c, names = getattr(T, cls), table(cls)
    bits = BITS[cls]
    single = {b: [k for k, n in names.items() if n == b][0] for b in bits if b in names.values()}
    number = 0
    val = None
    for b in bits:
        if v.flag("b%d" % b):
            number += b
            val = c(b) if val is None else val | c(b)
    if val is None:
        v.assume(0 in names.values())
        val = c(0)
    v.check(isinstance(val, c) and val.value == number, "a combination of flags has their bits")
    v.check(c(number) is val, "and is found by number")
    element = wire(v, val, NET[cls][0], number)
    text = parts(element)["ToString"].text
    want = [k for b, k in single.items() if number & b]
    v.check(all(k in text.split(", ") for k in want), "named by its flags")
    arrives(v, val, element, wrong=cls == "BufferCellType")
    other = v.choice("other", bits)
    mask = 0
    for b in bits:
        mask |= b
    for op, got, w in (("|", val | c(other), number | other), ("&", val & c(other), number & other), ("^", val ^ c(other), number ^ other), ("~", ~val, mask & ~number)):
        v.check(isinstance(got, c), "an operation on flags gives flags")
        v.check(got.value == w, "with the right bits")
    v.check((c(other) in val) == bool(number & other), "a flag is in what has it")


BASES = [(PSSByte, "SB", 8, True), (PSByte, "By", 8, False), (PSInt16, "I16", 16, True), (PSUInt16, "U16", 16, False), (PSInt, "I32", 32, True), (PSUInt, "U32", 32, False), (PSInt64, "I64", 64, True), (PSUInt64, "U64", 64, False)]


@harness(
    quick=[dict(base=i) for i in range(len(BASES))],
    thorough=[dict(base=i) for i in range(len(BASES))],
    bounds="enums and flags declared over each integer type, with members at, within and outside its limits, received again with or without being registered",
)
def declared(v, base):
    t, tag, bits, signed = BASES[base]
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    flag = v.flag("flag")
    n = v.choice("n", [lo - 1, lo or 2, 1, 5, hi, hi + 1] if not flag else [1, 4, 1 << (bits - 2), (1 << bits) + 1])
    bad = n < lo or n > hi
    known = v.flag("registered")
    made = []
    name = "Verif.Enum%d%s" % (bits, tag)
    T._base.TypeRegistry().type_registry.pop(name, None)

    def declare():
        if flag:

            @PSType([name], rehydrate=known)
            class F(PSFlagBase, base_type=t):
                none = 0
                Some = n

            made.append(F)
        else:

            @PSType([name], rehydrate=known)
            class E(PSEnumBase, base_type=t):
                none = 0
                Some = n

            made.append(E)

    refused = raises(declare, ValueError, OverflowError)
    v.check(refused == bad, "only a number its type cannot hold is refused")
    if not bad:
        c = made[0]
        v.check((c.MinValue, c.MaxValue) == (lo, hi), "the limits of its type")
        v.check(type(c.Some.value) is t, "the value has the type declared")
        element = wire(v, c.Some, name, n, tag)
        v.check(parts(element)["ToString"].text == "Some", "the name")
        zero = serialize(c.none)
        v.check(parts(zero)["ToString"].text == "None" and parts(zero)[tag].text == "0", ".NET's None")
        back = deserialize(from_xml(to_xml(element)))
        if known:
            v.check(back is c.Some, "a registered enum arrives as its member")
        else:
            v.check(type(back) is t and back == n, "an enum not known arrives as its number")
            v.check(back.PSTypeNames[0] == "Deserialized." + name and str(back) == "Some", "with its type names and text")
    T._base.TypeRegistry().type_registry.pop(name, None)


@harness(
    quick=[dict(cls=n) for n in ("ErrorCategory", "CommandTypes", "PSInvocationState")],
    thorough=[dict(cls=n) for n in NET if n not in ("HostMethodIdentifier", "BufferCellType")],
    bounds="a member received with any ToString, type names and properties of 2 letters, once or twice, by itself or in a list",
)
def shared(v, cls):
    c = getattr(T, cls)
    m = v.choice("member", list(c)[:4])
    before = to_xml(serialize(m))
    names, text = list(m.PSTypeNames), m.PSObject.to_string
    label = v.str("label", 2, UPPER)
    extra = v.str("extra", 2, UPPER)
    prop = v.str("prop", 2, UPPER)
    n = v.int("n", *TWO)
    where = v.choice("where", ["MS", "Props"])
    doc = '<Obj RefId="0"><TN RefId="0"><T>%s</T><T>%s</T></TN><ToString>%s</ToString><I32>%s</I32><%s><I32 N="%s">%s</I32></%s></Obj>' % (
        names[0], extra, label, m.value, where, prop, n, where)
    if v.flag("list"):
        doc = '<Obj RefId="9"><TN RefId="9"><T>System.Object[]</T></TN><LST>%s<Ref RefId="0" /></LST></Obj>' % doc
        got = deserialize(from_xml(doc))
        v.check(len(got) == 2 and got[0] is m and got[1] is m, "the member, and what refers to it")
    else:
        v.check(deserialize(from_xml(doc)) is m, "the member")
    v.check(to_xml(serialize(m)) == before, "the member is sent as before")
    v.check(m.PSTypeNames == names and m.PSObject.to_string == text, "its type names and text are its own")
    v.check(m.PSObject.adapted_properties == [] and m.PSObject.extended_properties == [], "it gets no properties")
    back = rt([m, PSObject()])
    v.check(back[0] is m, "and still arrives")


@harness(
    quick=[dict(kind=k) for k in ("enum", "int", "flag", "text")],
    thorough=[dict(kind=k) for k in ("enum", "int", "flag", "text")],
    bounds="plain Python enums of every kind, in any combination of three flags",
)
def python(v, kind):
    class E(enum.Enum):
        A = 1
        B = -7

    class I(enum.IntEnum):
        A = 1
        B = 2**40

    class F(enum.Flag):
        A = 1
        B = 2
        C = 4

    class S(str, enum.Enum):
        A = "one"
        B = "<_x000A_>"

    if kind == "flag":
        val, want = F(0), []
        for m in F:
            if v.flag(m.name):
                val |= m
                want.append(m.name)
    else:
        val = v.choice("member", list({"enum": E, "int": I, "text": S}[kind]))
        want = [val.name]
    element = serialize(val)
    tag = {"enum": "I32", "int": "I64" if val.value == 2**40 else "I32", "flag": "I32", "text": "S"}[kind]
    got = parts(element)
    v.check(element.tag == "Obj" and tag in got, "the value in its type")
    v.check([t.text for t in got["TN"]][0] == "%s.%s" % (type(val).__module__, type(val).__name__), "named after its class")
    text = "" if "ToString" not in got else got["ToString"].text
    v.check(text == ", ".join(want), "and its member or flags")
    back = deserialize(from_xml(to_xml(element)))
    v.check(back == val.value, "arrives as its value")
    v.check([t for t in back.PSTypeNames][0].startswith("Deserialized."), "as a copy")
