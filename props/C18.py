"""Host calls and their answers arrive with the method, parameters and values they were made with."""
import uuid

import psrpcore
from psrpcore import ClientHostResponder, ClientPowerShell, ServerHostRequestor, ServerPipeline, StreamType
from psrpcore.types import (
    BufferCell,
    BufferCellType,
    ChoiceDescription,
    ConsoleColor,
    ControlKeyStates,
    Coordinates,
    ErrorCategory,
    ErrorCategoryInfo,
    ErrorRecord,
    FieldDescription,
    HostMethodIdentifier,
    KeyInfo,
    NETException,
    ProgressRecord,
    ProgressRecordType,
    PSChar,
    PSCredential,
    PSCredentialTypes,
    PSCredentialUIOptions,
    PSSecureString,
    PSVersion,
    ReadKeyOptions,
    Rectangle,
    Size,
)

from vx.api import PRINTABLE, harness

from plib import PID, deserialize, events, from_xml, opened_pair, raises, send, sent_messages

I32 = (-(2**31), 2**31 - 1)
UPPER = [(65, 90)]
COLOURS = list(ConsoleColor)
VOID = -100

FIELDS = {
    Coordinates: ("X", "Y"),
    Size: ("Width", "Height"),
    Rectangle: ("Left", "Top", "Right", "Bottom"),
    BufferCell: ("Character", "ForegroundColor", "BackgroundColor", "BufferCellType"),
    ChoiceDescription: ("Label", "HelpMessage"),
    FieldDescription: (
        "Name",
        "ParameterTypeName",
        "ParameterTypeFullName",
        "ParameterAssemblyFullName",
        "Label",
        "HelpMessage",
        "IsMandatory",
    ),
    KeyInfo: ("VirtualKeyCode", "Character", "ControlKeyState", "KeyDown"),
    ProgressRecord: (
        "Activity",
        "ActivityId",
        "CurrentOperation",
        "ParentActivityId",
        "PercentComplete",
        "RecordType",
        "SecondsRemaining",
        "StatusDescription",
    ),
}
# how MS-PSRP 2.2.3 spells the encoded forms
WIRE = {
    Coordinates: ("x", "y"),
    Size: ("width", "height"),
    Rectangle: ("left", "top", "right", "bottom"),
    BufferCell: ("character", "foregroundColor", "backgroundColor", "bufferCellType"),
    KeyInfo: ("virtualKeyCode", "character", "controlKeyState", "keyDown"),
}


def same(v, got, want, what):
    if want is None:
        v.check(got is None, what + ": null")
    elif isinstance(want, list):
        v.check(isinstance(got, list), what + ": a list")
        v.check(len(got) == len(want), what + ": every entry, and no other")
        for a, b in zip(got, want):
            same(v, a, b, what)
    elif type(want) in FIELDS:
        v.check(isinstance(got, type(want)), what + ": of its type")
        for f in FIELDS[type(want)]:
            same(v, getattr(got, f), getattr(want, f), what + "." + f)
    else:
        if isinstance(want, (ConsoleColor, PSCredentialTypes, PSCredentialUIOptions, ReadKeyOptions, BufferCellType, ControlKeyStates)):
            v.check(isinstance(got, type(want)), what + ": of its enum")
        v.check(got == want, what)


class Nums:
    """Numbers for a call: one of them any Int32, the others two digits."""

    def __init__(self, v, n):
        self.v, self.n, self.i = v, n, 0
        self.wide = v.length("wide", 0, n - 1) if n > 1 else 0

    def __call__(self):
        i = self.i
        self.i += 1
        return self.v.int("i%d" % i, *(I32 if i == self.wide else (10, 99)))


def colour(v, name):
    return v.enum(name, COLOURS)


def cell(v, name, kind=None):
    kind = kind or v.choice(name + "k", ["str", "int"])
    if kind == "int":
        return v.int(name + "c", 0, 65535), COLOURS[7], COLOURS[2]
    c = v.str(name + "c", 1, UPPER)
    if v.flag(name + "w"):
        return c, v.enum(name + "f", COLOURS), COLOURS[3]
    return c, COLOURS[5], v.enum(name + "b", COLOURS)


def field(v, i, full):
    return FieldDescription(
        Name=v.str("name%d" % i, 1, UPPER),
        ParameterTypeName=v.str("ptn%d" % i, 1, UPPER) if full else None,
        ParameterTypeFullName=v.str("ptf%d" % i, 1, UPPER) if full else None,
        ParameterAssemblyFullName=v.str("paf%d" % i, 1, UPPER) if full else None,
        Label=v.str("label%d" % i, 1, UPPER) if full else "",
        HelpMessage=v.str("help%d" % i, 1, UPPER) if full else "",
        IsMandatory=v.bool("mand%d" % i),
    )


def text(v, name="text"):
    return v.str(name, v.choice("length", [2, 0]) if name == "text" else 2, PRINTABLE if name == "text" else UPPER)


# method -> (number in MS-PSRP 2.2.3.17, void, arguments and expected parameters)
def simple(v):
    return [], {}, []


def one_text(v):
    t = text(v)
    return [t], {}, [t]


def one_int(v):
    n = v.int("n", *I32)
    return [n], {}, [n]


def xy(v):
    n = Nums(v, 2)
    a = [n(), n()]
    return a, {}, [Coordinates(a[0], a[1])]


def wh(v):
    n = Nums(v, 2)
    a = [n(), n()]
    return a, {}, [Size(a[0], a[1])]


def one_colour(v):
    c = v.enum("c", COLOURS)
    return [c], {}, [c]


def write(v):
    how = v.choice("how", ["plain", "fg", "bg", "both"])
    t = text(v) if how == "plain" else text(v, "t")
    if how == "plain":
        return [t], {}, [t]
    f = colour(v, "f") if how in ("fg", "both") else None
    b = (colour(v, "b") if how == "bg" else COLOURS[6]) if how in ("bg", "both") else None
    return [t], dict(foreground_color=f, background_color=b), [f or COLOURS[0], b or COLOURS[0], t]


def write_line(v):
    how = v.choice("how", ["bare", "plain", "fg", "bg", "both", "barecolour"])
    if how == "bare":
        return [], {}, []
    t = text(v, "text" if how == "plain" else "t") if how != "barecolour" else None
    if how == "plain":
        return [t], {}, [t]
    f = (colour(v, "f") if how == "fg" else COLOURS[9]) if how in ("fg", "both", "barecolour") else None
    b = colour(v, "b") if how in ("bg", "both") else None
    return [t], dict(foreground_color=f, background_color=b), [f or COLOURS[0], b or COLOURS[0], t if t is not None else ""]


def progress(v):
    n = Nums(v, 5)
    a = [n(), n(), n(), n(), n()]
    act, desc = text(v, "act"), text(v, "desc")
    kw = {}
    if v.flag("more"):
        kw = dict(
            current_operation=text(v, "op"), parent_activity_id=a[2], percent_complete=a[3], seconds_remaining=a[4], record_type=ProgressRecordType.Completed
        )
    want = ProgressRecord(
        ActivityId=a[1],
        Activity=act,
        StatusDescription=desc,
        CurrentOperation=kw.get("current_operation"),
        ParentActivityId=kw.get("parent_activity_id", -1),
        PercentComplete=kw.get("percent_complete", -1),
        RecordType=kw.get("record_type", ProgressRecordType.Processing),
        SecondsRemaining=kw.get("seconds_remaining", -1),
    )
    return [a[0], a[1], act, desc], kw, [a[0], want]


def prompt(v):
    t, m = text(v, "cap"), text(v, "msg")
    fs = [field(v, i, full=(i != 1)) for i in range(v.length("k", 0, 2))]
    return [t, m, fs], {}, [t, m, fs]


def credential(v):
    t, m = text(v, "cap"), text(v, "msg")
    user = text(v, "user") if v.flag("hasuser") else None
    target = text(v, "target") if v.flag("hastarget") else None
    types = v.choice("types", [None] + [PSCredentialTypes(x) for x in (1, 2, 3)])
    opts = v.choice("opts", [None] + [PSCredentialUIOptions(x) for x in (0, 1, 2, 3)])
    want = [t, m, user, target if target is not None else ""]
    if types is not None or opts is not None:
        want += [PSCredentialTypes(3) if types is None else types, PSCredentialUIOptions(1) if opts is None else opts]
    return [t, m, user, target], dict(allowed_credential_types=types, options=opts), want


def choices(v):
    out = []
    for i in range(v.length("k", 0, 2)):
        help_ = text(v, "h%d" % i) if i == 0 else None
        out.append(ChoiceDescription(text(v, "l%d" % i), help_))
    return out


def choice(v):
    t, m = text(v, "cap"), text(v, "msg")
    cs = choices(v)
    if v.flag("default"):
        n = v.int("n", *I32)
        return [t, m, cs, n], {}, [t, m, cs, n]
    return [t, m, cs], {}, [t, m, cs, -1]


def multiple(v):
    t, m = text(v, "cap"), text(v, "msg")
    cs = choices(v)
    defaults = [v.int("n%d" % i, *(I32 if i == 0 else (10, 99))) for i in range(v.length("d", 0, 2))]
    if defaults:
        return [t, m, cs], dict(default_choices=defaults), [t, m, cs, defaults]
    return [t, m, cs], {}, [t, m, cs, []]


def options(v):
    o = ReadKeyOptions(v.choice("o", list(range(16))))
    return [o], {}, [o]


def cells(v):
    n = Nums(v, 4)
    r = [n() for _ in range(4)]
    c, f, b = (v.str("c", 1, UPPER), COLOURS[1], COLOURS[12]) if n.wide < 3 else cell(v, "x")
    char = PSChar(c) if n.wide == 1 else c
    return r + [char], dict(foreground=f, background=b), [Rectangle(*r), BufferCell(c, f, b, BufferCellType.Complete)]


def rect(v):
    n = Nums(v, 4)
    r = [n() for _ in range(4)]
    return r, {}, [Rectangle(*r)]


def scroll(v):
    n = Nums(v, 10)
    a = [n() for _ in range(10)]
    c, f, b = v.str("c", 1, UPPER), COLOURS[3], COLOURS[4]
    want = [Rectangle(*a[:4]), Coordinates(a[4], a[5]), Rectangle(*a[6:]), BufferCell(c, f, b, BufferCellType.Complete)]
    return a + [c], dict(foreground=f, background=b), want


def grid(v, rows, cols):
    full = v.flag("types")
    at = v.length("at", 0, rows * cols - 1)
    out = []
    for r in range(rows):
        row = []
        for c in range(cols):
            n = "%d_%d" % (r, c)
            kind = BufferCellType(v.choice("t" + n, [0, 1, 2])) if full and r == rows - 1 and c == cols - 1 else BufferCellType.Complete
            row.append(BufferCell(v.str("c" + n, 1, UPPER), v.enum("f" + n, COLOURS) if at == r * cols + c else COLOURS[(7 * r + c) % 16], COLOURS[(r + 3 * c) % 10], kind))
        out.append(row)
    return out


CALLS = dict(
    get_name=(1, False, simple),
    get_version=(2, False, simple),
    get_instance_id=(3, False, simple),
    get_current_culture=(4, False, simple),
    get_current_ui_culture=(5, False, simple),
    set_should_exit=(6, True, one_int),
    enter_nested_prompt=(7, True, simple),
    exit_nested_prompt=(8, True, simple),
    notify_begin_application=(9, True, simple),
    notify_end_application=(10, True, simple),
    read_line=(11, False, simple),
    read_line_as_secure_string=(12, False, simple),
    write=((13, 14), True, write),
    write_line=((15, 16, 17), True, write_line),
    write_error_line=(18, True, one_text),
    write_debug_line=(19, True, one_text),
    write_progress=(20, True, progress),
    write_verbose_line=(21, True, one_text),
    write_warning_line=(22, True, one_text),
    prompt=(23, False, prompt),
    prompt_for_credential=((24, 25), False, credential),
    prompt_for_choice=(26, False, choice),
    get_foreground_color=(27, False, simple),
    set_foreground_color=(28, True, one_colour),
    get_background_color=(29, False, simple),
    set_background_color=(30, True, one_colour),
    get_cursor_position=(31, False, simple),
    set_cursor_position=(32, True, xy),
    get_window_position=(33, False, simple),
    set_window_position=(34, True, xy),
    get_cursor_size=(35, False, simple),
    set_cursor_size=(36, True, one_int),
    get_buffer_size=(37, False, simple),
    set_buffer_size=(38, True, wh),
    get_window_size=(39, False, simple),
    set_window_size=(40, True, wh),
    get_window_title=(41, False, simple),
    set_window_title=(42, True, one_text),
    get_max_window_size=(43, False, simple),
    get_max_physical_window_size=(44, False, simple),
    get_key_available=(45, False, simple),
    read_key=(46, False, options),
    flush_input_buffer=(47, True, simple),
    set_buffer_cells=(48, True, cells),
    get_buffer_contents=(50, False, rect),
    scroll_buffer_contents=(51, True, scroll),
    pop_runspace=(53, True, simple),
    get_is_runspace_pushed=(54, False, simple),
    prompt_for_multiple_choice=(56, False, multiple),
)
SIMPLE = [k for k, (_, _, f) in CALLS.items() if f is simple]
GROUPS = dict(
    simple=SIMPLE,
    text=[k for k, (_, _, f) in CALLS.items() if f is one_text],
    number=[k for k, (_, _, f) in CALLS.items() if f is one_int],
    colour=[k for k, (_, _, f) in CALLS.items() if f is one_colour],
    xy=[k for k, (_, _, f) in CALLS.items() if f in (xy, wh)],
)
for k in CALLS:
    if not any(k in g for g in GROUPS.values()):
        GROUPS[k] = [k]


def ends(v, on_pipeline):
    client, server = opened_pair()
    if not on_pipeline:
        return client, server, client, server
    ps = ClientPowerShell(client, pipeline_id=PID)
    ps.add_command("c")
    there = ServerPipeline(server, PID)
    ps.start()
    send(client, server)
    there.start()
    send(server, client)
    return client, server, ps, there


def delivered(v, src, dst):
    """The payload src has for dst must be a prompt payload; dst's single event."""
    p = src.data_to_send()
    v.check(p is not None and p.stream_type == StreamType.prompt_response, "host messages go out on the prompt stream")
    dst.receive_data(p)
    v.check(src.data_to_send() is None, "nothing else is sent")
    got = events(dst)
    v.check(len(got) == 1, "a host message gives one event")
    return got[0]


@harness(
    quick=[dict(group=g) for g in GROUPS],
    thorough=[dict(group=g) for g in GROUPS],
    bounds="every host method of ServerHostRequestor on a pool or a pipeline; one number at a time any Int32, others 10-99; any colour, options, credential and choice kinds; text 2 characters (alone also empty); up to 2 fields or choices",
)
def calls(v, group):
    on_pipeline = v.flag("pipeline") if group in ("simple", "text", "number", "colour", "xy", "write", "prompt") else False
    name = v.choice("method", GROUPS[group])
    number, void, build = CALLS[name]
    client, server, near, there = ends(v, on_pipeline)
    args, kw, want = build(v)
    ci = getattr(ServerHostRequestor(there), name)(*args, **kw)
    e = delivered(v, server, client)
    v.check(isinstance(e, psrpcore.PipelineHostCallEvent if on_pipeline else psrpcore.RunspacePoolHostCallEvent), "the call is for the pool or the pipeline that made it")
    v.check(e.pipeline_id == (PID if on_pipeline else None), "the call names its pipeline")
    if isinstance(number, tuple):
        if name == "write":
            number = 13 if len(want) == 1 else 14
        elif name == "write_line":
            number = (15, 16, None, 17)[len(want)]
        else:
            number = 24 if len(want) == 4 else 25
    v.check(e.method_identifier == HostMethodIdentifier(number), "the method that was called")
    v.check(e.method_identifier.value == number, "its MS-PSRP number")
    v.check(e.method_identifier.is_void() is void, "void or not as MS-PSRP says")
    same(v, e.method_parameters, want, "parameters")
    if void:
        v.check(e.ci == VOID, "a void call has no answer")
        v.check(raises(lambda: near.host_response(VOID, 1), KeyError), "a void call cannot be answered")
    else:
        v.check(e.ci == ci and ci != VOID, "the call id returned is the one the client gets")
        near.host_response(ci, "x")
        v.check(raises(lambda: near.host_response(ci, "x"), KeyError), "a call is answered once")


def blank_progress(t):
    p = ProgressRecord(ActivityId=2, Activity=t(0), StatusDescription=t(1), CurrentOperation=t(2))
    return "write_progress", [1, 2, t(0), t(1)], dict(current_operation=t(2)), [1, p]


def blank_choice(t):
    cs = [ChoiceDescription(t(2), t(3)), ChoiceDescription(t(4), None)]
    return "prompt_for_choice", [t(0), t(1), cs], {}, [t(0), t(1), cs, -1]


def blank_multiple(t):
    cs = [ChoiceDescription(t(2), t(3)), ChoiceDescription(t(4), None)]
    return "prompt_for_multiple_choice", [t(0), t(1), cs, [0, 1]], {}, [t(0), t(1), cs, [0, 1]]


def blank_prompt(t):
    fs = [FieldDescription(Name=t(2), ParameterTypeName=t(3), ParameterTypeFullName=t(4), Label=t(5), HelpMessage=t(6))]
    return "prompt", [t(0), t(1), fs], {}, [t(0), t(1), fs]


BLANKS = dict(
    write=(2, lambda t: ("write", [t(0)], dict(foreground_color=ConsoleColor.Red), [ConsoleColor.Red, COLOURS[0], t(0)])),
    write_line=(2, lambda t: ("write_line", [t(0)], dict(background_color=ConsoleColor.Red), [COLOURS[0], ConsoleColor.Red, t(0)])),
    progress=(3, blank_progress),
    choice=(5, blank_choice),
    multiple=(5, blank_multiple),
    prompt=(7, blank_prompt),
    credential=(4, lambda t: ("prompt_for_credential", [t(0), t(1), t(2), t(3)], {}, [t(0), t(1), t(2), t(3)])),
    allowed=(
        4,
        lambda t: (
            "prompt_for_credential",
            [t(0), t(1), t(2), t(3)],
            dict(allowed_credential_types=PSCredentialTypes.Generic, options=PSCredentialUIOptions.none),
            [t(0), t(1), t(2), t(3), PSCredentialTypes.Generic, PSCredentialUIOptions.none],
        ),
    ),
)


@harness(
    quick=[dict(what=w) for w in BLANKS],
    bounds="the host methods taking more than one text: one of them any 2 characters, any one of them empty, or all",
)
def blanks(v, what):
    n, build = BLANKS[what]
    free = v.length("free", 0, n - 1)
    empty = v.choice("empty", list(range(n)) + [None, "all"])
    texts = []
    for i in range(n):
        texts.append("" if empty == i or empty == "all" else (v.str("t", 2, UPPER) if i == free else "text %d" % i))
    name, args, kw, want = build(lambda i: texts[i])
    client, server, near, there = ends(v, False)
    getattr(ServerHostRequestor(there), name)(*args, **kw)
    e = delivered(v, server, client)
    same(v, e.method_parameters, want, "parameters")


@harness(
    quick=[dict(rows=r, cols=c) for r in (1, 2, 3) for c in (1, 2, 3) if r * c < 9],
    thorough=[dict(rows=r, cols=c) for r in (1, 2, 3, 4) for c in (1, 2, 3, 4)],
    bounds="buffers of every shape up to 3x3 less the largest (thorough 4x4) cells of any character A-Z, one of them of any colour and type, written and read back",
)
def buffers(v, rows, cols):
    client, server, near, there = ends(v, False)
    want = grid(v, rows, cols)
    if v.flag("set"):
        x, y = v.int("x", 10, 99), v.int("y", 10, 99)
        ServerHostRequestor(there).set_buffer_contents(x, y, want)
        e = delivered(v, server, client)
        v.check(e.ci == VOID and e.method_identifier.value == 49, "a void call")
        same(v, e.method_parameters, [Coordinates(x, y), want], "buffer parameters")
    else:
        ci = ServerHostRequestor(there).get_buffer_contents(1, 2, 3, 4)
        delivered(v, server, client)
        ClientHostResponder(near).get_buffer_contents(ci, want)
        e = delivered(v, client, server)
        v.check(e.ci == ci, "the answered call")
        same(v, e.result, want, "buffer result")


def r_int(v):
    n = v.int("n", *I32)
    return [n], n


def r_text(v):
    t = text(v)
    return [t], t


def r_bool(v):
    b = v.bool("b")
    return [b], b


def r_colour(v):
    c = v.enum("c", COLOURS)
    return [c], c


def r_xy(v):
    n = Nums(v, 2)
    a = [n(), n()]
    return a, Coordinates(*a)


def r_wh(v):
    n = Nums(v, 2)
    a = [n(), n()]
    return a, Size(*a)


def r_guid(v):
    g = uuid.UUID(bytes=v.bytes("g", 4) + b"\x00\x11\x22\x33\x44\x55\x66\x77\x88\x99\xaa\xbb")
    return [g], g


def r_version(v):
    a, b = v.int("a", 0, 9), v.int("b", 10, 99)
    ver = PSVersion(major=a, minor=b) if v.flag("obj") else "%d.%d" % (a, b)
    return [ver], PSVersion(major=a, minor=b)


def r_choices(v):
    n = [v.int("n%d" % i, *(I32 if i == 0 else (10, 99))) for i in range(v.length("k", 0, 3))]
    if len(n) == 1 and v.flag("single"):
        return [n[0]], n
    return [n], n


def r_key(v):
    kind = v.choice("kind", ["str", "int", "psch"])
    c = v.int("c", 0, 65535) if kind == "int" else v.str("c", 1, UPPER)
    code = v.int("code", *(I32 if kind == "str" else (10, 99)))
    state = ControlKeyStates(v.choice("state", [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 3, 260, 511])) if kind == "psch" else ControlKeyStates(24)
    down = v.bool("down")
    want = KeyInfo(code, PSChar(c), state, down)
    return [PSChar(c) if kind == "psch" else c, down, state, code], want


def r_prompt(v):
    d = {}
    for i in range(v.length("k", 0, 2)):
        d["F%d" % i] = text(v, "t%d" % i) if i == 0 else v.int("n", 10, 99)
    return [d], d


ANSWERS = dict(
    get_name=r_text,
    get_version=r_version,
    get_instance_id=r_guid,
    get_current_culture=r_text,
    get_current_ui_culture=r_text,
    get_is_runspace_pushed=r_bool,
    read_line=r_text,
    prompt=r_prompt,
    prompt_for_choice=r_int,
    prompt_for_multiple_choice=r_choices,
    get_foreground_color=r_colour,
    get_background_color=r_colour,
    get_cursor_position=r_xy,
    get_window_position=r_xy,
    get_cursor_size=r_int,
    get_buffer_size=r_wh,
    get_window_size=r_wh,
    get_window_title=r_text,
    get_max_window_size=r_wh,
    get_max_physical_window_size=r_wh,
    get_key_available=r_bool,
    read_key=r_key,
)
QUESTION = dict(
    prompt=["c", "m", []], prompt_for_choice=["c", "m", []], prompt_for_multiple_choice=["c", "m", []]
)


@harness(
    quick=[dict(method=m) for m in ANSWERS],
    bounds="every answering method of ClientHostResponder on a pool and a pipeline, with any value of its type (Int32, text of 2 characters or none, GUIDs with any first 4 bytes, up to 3 choices, every colour)",
)
def answers(v, method):
    on_pipeline = v.flag("pipeline") if method in ("get_name", "get_key_available", "get_cursor_size", "get_foreground_color") else method.endswith("position")
    client, server, near, there = ends(v, on_pipeline)
    ci = getattr(ServerHostRequestor(there), method)(*QUESTION.get(method, []))
    asked = delivered(v, server, client)
    args, want = ANSWERS[method](v)
    getattr(ClientHostResponder(near), method)(ci, *args)
    e = delivered(v, client, server)
    v.check(isinstance(e, psrpcore.PipelineHostResponseEvent if on_pipeline else psrpcore.RunspacePoolHostResponseEvent), "the answer goes where the call came from")
    v.check(e.pipeline_id == (PID if on_pipeline else None), "the answer names its pipeline")
    v.check(e.ci == ci, "the answer names its call")
    v.check(e.method_identifier == asked.method_identifier, "the answer names its method")
    v.check(e.error is None, "an answer is not an error")
    if isinstance(want, dict):
        v.check(list(e.result) == list(want), "result keys")
        v.check(v.all([e.result[k] == want[k] for k in want]), "result entries")
    else:
        same(v, e.result, want, "result")


@harness(
    quick=[dict(kind=k) for k in ("error", "both", "nothing", "foreign")],
    bounds="an error, an error with a value, or no value as answer on pool and pipeline; any category and text; a call id never asked",
)
def failures(v, kind):
    on_pipeline = v.flag("pipeline")
    client, server, near, there = ends(v, on_pipeline)
    ci = there.host_call(HostMethodIdentifier.ReadLine)
    delivered(v, server, client)
    if kind == "foreign":
        other = v.int("ci", *I32)
        v.assume(other != ci)
        v.check(raises(lambda: near.host_response(other, "x"), KeyError), "only a call that was made can be answered")
        v.check(client.data_to_send() is None, "a refused answer sends nothing")
        near.host_response(ci, "y")
        v.check(delivered(v, client, server).result == "y", "the real answer still arrives")
        return
    err = None
    if kind != "nothing":
        err = ErrorRecord(
            Exception=NETException(Message=text(v, "msg")),
            CategoryInfo=ErrorCategoryInfo(Category=v.enum("cat", list(ErrorCategory)), Reason=text(v, "why")),
            FullyQualifiedErrorId=text(v, "fq"),
        )
    near.host_response(ci, return_value="val" if kind == "both" else None, error_record=err)
    e = delivered(v, client, server)
    v.check(e.ci == ci, "the answer names its call")
    if kind == "both":
        v.check(e.result == "val", "the value next to the error")
    else:
        v.check(e.result is None, "no value")
    if err is None:
        v.check(e.error is None, "no error")
    else:
        v.check(isinstance(e.error, ErrorRecord), "the error is an error record")
        v.check(e.error.Exception.Message == err.Exception.Message, "error message")
        v.check(e.error.CategoryInfo.Category == err.CategoryInfo.Category, "error category")
        v.check(e.error.CategoryInfo.Reason == err.CategoryInfo.Reason, "error reason")
        v.check(e.error.FullyQualifiedErrorId == err.FullyQualifiedErrorId, "error id")


@harness(
    quick=[dict(kind=k) for k in ("line", "credential")],
    bounds="a secure line or a credential with a user name and password of 2 characters, after the key exchange (ideal cryptography)",
)
def secrets(v, kind):
    client, server, near, there = ends(v, False)
    client.exchange_key()
    send(client, server)
    send(server, client)
    secret = v.str("secret", 2, UPPER)
    if kind == "line":
        ci = ServerHostRequestor(there).read_line_as_secure_string()
        delivered(v, server, client)
        ClientHostResponder(near).read_line_as_secure_string(ci, PSSecureString(secret))
        e = delivered(v, client, server)
        v.check(e.result.decrypt() == secret, "the secure line")
    else:
        user = text(v, "user")
        ci = ServerHostRequestor(there).prompt_for_credential()
        delivered(v, server, client)
        ClientHostResponder(near).prompt_for_credential(ci, PSCredential(UserName=user, Password=PSSecureString(secret)))
        e = delivered(v, client, server)
        v.check(e.result.UserName == user, "the user name")
        v.check(e.result.Password.decrypt() == secret, "the password")


@harness(
    quick=[dict(kind=k) for k in ("xy", "wh", "rect", "cell", "key", "array")],
    bounds="the encoded form of each host structure, any 10-99 numbers: property names, integer enums and no type name, as MS-PSRP 2.2.3 and 2.2.6 give them",
)
def layout(v, kind):
    client, server, near, there = ends(v, False)
    a, b, c, d = [v.int(x, 10, 99) for x in "abcd"]
    req = ServerHostRequestor(there)
    if kind == "key":
        ci = req.read_key()
        delivered(v, server, client)
        ClientHostResponder(near).read_key(ci, v.int("ch", 10, 99), True, ControlKeyStates(17), a)
        ((_, mtype, _, _, xml),) = sent_messages(client)
        raw = deserialize(from_xml(xml)).mr
        values = WIRE[KeyInfo]
        v.check(raw.virtualKeyCode == a, "the key code")
        v.check(raw.controlKeyState == 17, "an enum is its number")
        v.check(raw.keyDown is True, "the key state")
    else:
        fg, bg = v.enum("fg", COLOURS) if kind == "cell" else COLOURS[8], COLOURS[13]
        ch = v.str("ch", 1, UPPER)
        if kind == "xy":
            req.set_cursor_position(a, b)
        elif kind == "wh":
            req.set_window_size(a, b)
        elif kind in ("rect", "cell"):
            req.set_buffer_cells(a, b, c, d, ch, fg, bg)
        else:
            req.set_buffer_contents(a, b, [[BufferCell(ch, fg, bg, BufferCellType.Complete)] * 3] * 2)
        ((_, mtype, _, _, xml),) = sent_messages(server)
        mp = deserialize(from_xml(xml)).mp
        raw = mp[1] if kind in ("cell", "array") else mp[0]
        if kind == "array":
            v.check(sorted(p.name for p in raw.PSObject.extended_properties) == ["mae", "mal"], "the names of an encoded array")
            v.check(list(raw.mal) == [2, 3], "its lengths, outermost first")
            v.check(len(raw.mae) == 6, "its elements, row by row")
            raw = raw.mae[0]
            kind = "cell"
        values = WIRE[dict(xy=Coordinates, wh=Size, rect=Rectangle, cell=BufferCell)[kind]]
        want = dict(xy=[a, b], wh=[a, b], rect=[a, b, c, d], cell=[None, fg.value, bg.value, 0])[kind]
        for n, w in zip(values, want):
            if w is not None:
                v.check(getattr(raw, n) == w, "an encoded structure has its numbers in place")
    v.check(sorted(p.name for p in raw.PSObject.extended_properties) == sorted(values), "the names of an encoded structure")
    v.check(raw.PSObject.type_names == ["System.Object"] or raw.PSObject.type_names == [], "an encoded structure has no type name")


ANSWER_LAYOUTS = dict(
    get_cursor_position=("x", "y"),
    get_window_position=("x", "y"),
    get_buffer_size=("width", "height"),
    get_window_size=("width", "height"),
    get_max_window_size=("width", "height"),
    get_max_physical_window_size=("width", "height"),
)
FIELD_NAMES = ["name", "label", "parameterTypeName", "parameterTypeFullName", "parameterAssemblyFullName", "helpMessage", "isMandatory", "metadata", "modifiedByRemotingProtocol", "isFromRemoteHost"]


def bare(v, raw, names, what):
    v.check(sorted(p.name for p in raw.PSObject.extended_properties) == sorted(names), "the names of " + what)
    v.check(raw.PSObject.type_names in (["System.Object"], []), what + " has no type name")


@harness(
    quick=[dict(kind=k) for k in ANSWER_LAYOUTS] + [dict(kind=k) for k in ("fields", "choices", "answers")],
    bounds="the encoded form of every position and size a client answers with, any 10-99 numbers; of 2 prompt fields and 2 choices with any text of 2 characters: names, and no type name (MS-PSRP 2.2.3 and 2.2.6); of prompt answers: a dictionary",
)
def answer_layout(v, kind):
    client, server, near, there = ends(v, False)
    req = ServerHostRequestor(there)
    if kind in ANSWER_LAYOUTS:
        a, b = v.int("a", 10, 99), v.int("b", 10, 99)
        ci = getattr(req, kind)()
        delivered(v, server, client)
        getattr(ClientHostResponder(near), kind)(ci, a, b)
        ((_, _, _, _, xml),) = sent_messages(client)
        msg = deserialize(from_xml(xml))
        v.check(sorted(p.name for p in msg.PSObject.extended_properties) == ["ci", "mi", "mr"], "an answer is a call id, a method and a value")
        names = ANSWER_LAYOUTS[kind]
        bare(v, msg.mr, names, "an encoded answer")
        v.check(getattr(msg.mr, names[0]) == a, "the first number of an encoded answer")
        v.check(getattr(msg.mr, names[1]) == b, "the second number of an encoded answer")
    elif kind == "fields":
        name, label, tn, helps, need = text(v, "name"), text(v, "label"), text(v, "tn"), text(v, "help"), v.bool("need")
        req.prompt("c", "m", [
            FieldDescription(Name=name, Label=label, ParameterTypeName=tn, ParameterTypeFullName="full." + tn, ParameterAssemblyFullName="asm", HelpMessage=helps, IsMandatory=need),
            FieldDescription(Name="second"),
        ])
        ((_, _, _, _, xml),) = sent_messages(server)
        one, two = deserialize(from_xml(xml)).mp[2]
        for raw in (one, two):
            bare(v, raw, FIELD_NAMES, "an encoded field")
            v.check(list(raw.metadata) == [], "no metadata")
            v.check(raw.modifiedByRemotingProtocol is False, "not changed by the protocol")
            v.check(raw.isFromRemoteHost is False, "not marked by the server: the client does that")
        for f, w in (("name", name), ("label", label), ("parameterTypeName", tn), ("parameterTypeFullName", "full." + tn), ("parameterAssemblyFullName", "asm"), ("helpMessage", helps)):
            v.check(getattr(one, f) == w, "the encoded " + f)
        v.check(one.isMandatory == need, "the encoded isMandatory")
        v.check(two.name == "second", "the second field in its place")
    elif kind == "choices":
        l0, h0 = text(v, "l0"), text(v, "h0")
        req.prompt_for_choice("c", "m", [ChoiceDescription(Label=l0, HelpMessage=h0), ChoiceDescription(Label="second")])
        ((_, _, _, _, xml),) = sent_messages(server)
        one, two = deserialize(from_xml(xml)).mp[2]
        for raw in (one, two):
            bare(v, raw, ["label", "helpMessage"], "an encoded choice")
        v.check(one.label == l0, "the encoded label")
        v.check(one.helpMessage == h0, "the encoded help")
        v.check(two.label == "second", "the second choice in its place")
    else:
        t = text(v, "t")
        ci = req.prompt("c", "m", [])
        delivered(v, server, client)
        ClientHostResponder(near).prompt(ci, {"F": t})
        ((_, _, _, _, xml),) = sent_messages(client)
        raw = deserialize(from_xml(xml)).mr
        v.check(isinstance(raw, dict), "prompt answers are a dictionary")
        v.check(list(raw) == ["F"], "one entry per answer")
        v.check(raw["F"] == t, "the answer under its name")
