"""What a client asks to be run is what the server is told to run, in terms a peer of that version knows."""
import psrpcore
from psrpcore import ClientGetCommandMetadata, ClientPowerShell, Command
from psrpcore.types import (
    ApartmentState,
    CommandTypes,
    ConsoleColor,
    Coordinates,
    HostDefaultData,
    HostInfo,
    PipelineResultTypes,
    PSInvocationState,
    PSVersion,
    RemoteStreamOptions,
    Size,
)

from vx.api import PRINTABLE, harness

from plib import PID, deserialize, from_xml, opened_pair, raises, send, sent_messages

R = PipelineResultTypes
I32 = (-(2**31), 2**31 - 1)
UPPER = [(65, 90)]
STREAMS = ("error", "warning", "verbose", "debug", "information")


def value(v, kind, name):
    if kind == "wide":
        return v.int(name, *I32)
    if kind == "int":
        return v.int(name, 10, 99)
    if kind == "str":
        return v.str(name, 2, UPPER)
    if kind == "bool":
        return v.bool(name)
    if kind == "none":
        return None
    if kind == "list":
        return [v.int(name, 10, 99), v.str(name + "s", 1, UPPER)]
    return {"k": v.int(name, 10, 99)}


def received(v, client, server, pipeline):
    there = psrpcore.ServerPipeline(server, pipeline.pipeline_id)
    pipeline.start()
    got = send(client, server)
    v.check(len(got) == 1, "starting a pipeline gives one event")
    e = got[0]
    v.check(e.pipeline_id == pipeline.pipeline_id, "the event carries the pipeline's id")
    v.check(list(server.pipeline_table) == [pipeline.pipeline_id], "the server has the pipeline")
    v.check(server.pipeline_table[pipeline.pipeline_id] is there, "the server's own pipeline object")
    v.check(there.metadata is not None, "the server pipeline has the details")
    v.check(pipeline.state == PSInvocationState.Running, "a started pipeline is running")
    return e, there.metadata


def same_command(v, got, want):
    name, script, scope, params = want
    v.check(got.command_text == name, "the command text")
    v.check(got.is_script is script, "script or command")
    v.check(got.use_local_scope is scope if scope is None else got.use_local_scope == scope, "the local scope choice")
    v.check(len(got.parameters) == len(params), "every parameter arrives, and no other")
    for (gn, gv), (wn, wv) in zip(got.parameters, params):
        v.check(gn is None if wn is None else gn == wn, "a parameter's name, or its absence")
        if wv is None:
            v.check(gv is None, "a null parameter value")
        elif isinstance(wv, dict):
            v.check(isinstance(gv, dict) and list(gv) == list(wv), "a dictionary parameter's keys")
            v.check(v.all([gv[k] == wv[k] for k in wv]), "a dictionary parameter's entries")
        elif isinstance(wv, list):
            v.check(isinstance(gv, list) and len(gv) == len(wv), "a list parameter's length")
            v.check(v.all([a == b for a, b in zip(gv, wv)]), "a list parameter's entries")
        else:
            v.check(gv == wv, "a parameter's value")


@harness(
    quick=[dict(kinds=k) for k in (("wide",), ("str", "none"), ("bool", "list", "dict"), ())],
    thorough=[dict(kinds=k) for k in ((), ("wide",), ("str", "none"), ("bool", "list", "dict"), ("dict", "str", "int", "none"), ("list", "list", "bool"))],
    bounds="one command or script, texts of 2 capital letters (C04 covers text); local scope null, false or true; up to 4 parameters, each named or positional, of any Int32 (alone; else 10-99), text, boolean, null, list or dictionary; added on the Command or through the pipeline",
)
def command(v, kinds):
    client, server = opened_pair()
    text = v.str("text", 2, UPPER)
    script = v.flag("script")
    scope = v.choice("scope", [None, False, True])
    through = v.choice("through", ["command", "pipeline", "kwargs"])
    params, direct = [], Command(text, is_script=script, use_local_scope=scope)
    ps = ClientPowerShell(client, pipeline_id=PID)
    if through == "command":
        ps.add_command(direct)
    elif script:
        ps.add_script(text, use_local_scope=scope)
    else:
        ps.add_command(text, use_local_scope=scope)
    target = direct if through == "command" else ps
    for i, kind in enumerate(kinds):
        x = value(v, kind, "p%d" % i)
        named = through == "kwargs" or v.flag("named%d" % i)
        if through == "kwargs":
            ps.add_parameters(**{"P%d" % i: x})
            params.append(("P%d" % i, x))
        elif named:
            n = v.str("n%d" % i, 1, UPPER)
            target.add_parameter(n, x)
            params.append((n, x))
        else:
            target.add_argument(x)
            params.append((None, x))
    e, got = received(v, client, server, ps)
    v.check(len(got.commands) == 1, "one command")
    same_command(v, got.commands[0], (text, script, scope, params))
    v.check(got.commands[0].end_of_statement, "the last command ends its statement")
    v.check(len(e.pipeline.commands) == 1 and e.pipeline.commands[0].command_text == text, "the event and the server pipeline agree")


@harness(
    quick=[dict(n=1), dict(n=2), dict(n=3)],
    thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)],
    bounds="pipelines of up to 3 (thorough 5) commands, a statement break after any of them (once or twice), each a command or script with one parameter",
)
def statements(v, n):
    client, server = opened_pair()
    ps = ClientPowerShell(client, pipeline_id=PID)
    v.check(ps.add_statement() is ps, "a break before any command changes nothing")
    want, ends = [], []
    for i in range(n):
        text = v.str("t%d" % i, 1, UPPER)
        script = v.flag("s%d" % i) if i < 2 else False
        x = v.int("x%d" % i, 10, 99)
        (ps.add_script if script else ps.add_command)(text)
        ps.add_parameter("N", x)
        want.append((text, script, None, [("N", x)]))
        breaks = v.length("b%d" % i, 0, 2 if n < 3 else 1)
        for _ in range(breaks):
            ps.add_statement()
        ends.append(breaks > 0 or i == n - 1)
    _, got = received(v, client, server, ps)
    v.check(len(got.commands) == n, "every command arrives, once")
    for c, w, end in zip(got.commands, want, ends):
        same_command(v, c, w)
        v.check(c.end_of_statement is end, "statements end where they were ended")


def redirect(cmd, stream, to):
    getattr(cmd, "redirect_" + stream)(to)


@harness(
    quick=[dict(mode=m) for m in ("all", "pair", "invalid", "unclaimed")],
    thorough=[dict(mode=m) for m in ("all", "pair", "each", "invalid", "unclaimed")],
    bounds="any protocol version 2.0-9.9 of the server; one redirection of all streams, or any two (thorough: all five) single ones to none, Output or Null in any order; refusal of every other target; the merge-unclaimed flag",
)
def redirections(v, mode):
    client, server = opened_pair()
    version = PSVersion(major=v.int("major", 2, 9), minor=v.int("minor", 0, 9))
    known = v.flag("known")
    if known:
        client.their_capability.protocolversion = version
    else:
        # nothing is known about the peer: only what every version accepts may be sent
        client.their_capability = None
    pwsh3 = (version.major > 2) | (version.minor >= 2) if known else False
    pwsh5 = (version.major > 2) | (version.minor >= 3) if known else False
    cmd = Command("cmd")
    to = dict.fromkeys(STREAMS, R.none)
    my = (R.none, R.none)
    if mode == "invalid":
        bad = v.choice("bad", [x for x in R if x not in (R.none, R.Output, R.Null)] + [R.Output | R.Null])
        which = v.choice("which", STREAMS + ("all",))
        v.check(raises(lambda: redirect(cmd, which, bad), ValueError), "a stream can only go to none, Output or Null")
        steps = []
    elif mode == "all":
        steps = [("all", v.choice("t", [R.none, R.Output, R.Null]))]
    elif mode == "unclaimed":
        steps = []
        cmd.merge_unclaimed = v.flag("unclaimed")
    else:
        steps = []
        for i in range(2):
            steps.append((v.choice("w%d" % i, STREAMS), v.choice("t%d" % i, [R.none, R.Output, R.Null])))
        if mode == "each":
            steps = [(s, v.choice("e" + s, [R.none, R.Output, R.Null])) for s in STREAMS]
    for which, target in steps:
        redirect(cmd, which, target)
        for s in STREAMS if which == "all" else (which,):
            to[s] = target
            if s == "error":
                my = {R.none: (R.none, R.none), R.Output: (R.Error, R.Output), R.Null: my}[target]
    ps = ClientPowerShell(client, pipeline_id=PID)
    ps.add_command(cmd)
    ps.start()
    # what the peer gets to see
    ((dest, mtype, rpid, pid, xml),) = sent_messages(client)
    sent = deserialize(from_xml(xml)).PowerShell.Cmds[0]
    names = [p.name for p in sent.PSObject.extended_properties]
    for s in STREAMS:
        field = "Merge" + s.capitalize()
        speaks = pwsh5 if s == "information" else pwsh3
        v.check((field in names) == speaks, "a redirection field is sent exactly to a peer that knows it")
        if field in names:
            v.check(getattr(sent, field) == to[s], "the stream goes where it was redirected last")
    v.check(sent.MergeMyResult == my[0], "the version 2 merge source")
    v.check(sent.MergeToResult == my[1], "the version 2 merge target")
    v.check(sent.MergePreviousResults == (R.Output | R.Error if cmd.merge_unclaimed else R.none), "the merge point for unclaimed errors")
    back = Command.FromPSObjectForRemoting(sent)
    v.check(back.merge_unclaimed is cmd.merge_unclaimed, "the merge point flag is read back")
    v.check((back.merge_my == my[0]) & (back.merge_to == my[1]), "the version 2 merge is read back")
    for s in STREAMS:
        if "Merge" + s.capitalize() in names:
            v.check(getattr(back, "merge_" + s) == to[s], "the redirection is read back")
        else:
            v.check(getattr(back, "merge_" + s) == R.none, "a redirection that was not sent reads as none")


@harness(
    quick=[dict(part=p) for p in ("flags", "apartment", "history", "host", "streams")],
    bounds="every combination of the four booleans; every apartment state of pool and pipeline, or none for the pipeline; history text; every subset of remote stream options; host details with any Int32 for one number at a time or any colours, or none",
)
def options(v, part):
    pool_state = v.enum("pool", list(ApartmentState)) if part == "apartment" else ApartmentState.MTA
    client, server = opened_pair(apartment_state=pool_state)
    kw, want_state = {}, pool_state
    flags = dict(add_to_history=False, is_nested=False, no_input=True, redirect_shell_error_to_out=True)
    history, stream_options, host = None, RemoteStreamOptions.none, None
    if part == "flags":
        flags = {k: v.bool(k) for k in flags}
        kw.update(flags)
    elif part == "apartment":
        want_state = v.choice("state", [None] + list(ApartmentState))
        kw["apartment_state"] = want_state
        if want_state is None:
            want_state = pool_state
    elif part == "history":
        history = v.str("history", 2, PRINTABLE) if v.flag("has") else None
        kw["history"] = history
    elif part == "streams":
        stream_options = RemoteStreamOptions.none
        for i, o in enumerate([1, 2, 4, 8]):
            if v.flag("o%d" % i):
                stream_options = stream_options | RemoteStreamOptions(o)
        kw["remote_stream_options"] = stream_options
    else:
        data = None
        if v.flag("data"):
            wide = v.length("wide", -1, 5)
            colours = list(ConsoleColor)
            n = [v.int("n%d" % i, *(I32 if i == wide else (10, 99))) for i in range(6)]
            data = HostDefaultData(
                ForegroundColor=v.enum("fg", colours) if wide < 0 else colours[1],
                BackgroundColor=v.enum("bg", colours) if wide < 0 else colours[2],
                CursorPosition=Coordinates(n[0], n[1]),
                WindowPosition=Coordinates(n[1], n[2]),
                CursorSize=n[3],
                BufferSize=Size(n[4], n[5]),
                WindowSize=Size(n[5], n[0]),
                MaxWindowSize=Size(n[2], n[3]),
                MaxPhysicalWindowSize=Size(n[3], n[4]),
                WindowTitle=v.str("title", 2, UPPER),
            )
        h = [(i % 2 == 0) if data else v.bool("h%d" % i) for i in range(4)]
        host = HostInfo(IsHostNull=h[0], IsHostUINull=h[1], IsHostRawUINull=h[2], UseRunspaceHost=h[3], HostDefaultData=data)
        kw["host"] = host
    ps = ClientPowerShell(client, pipeline_id=PID, **kw)
    ps.add_command("cmd")
    e, got = received(v, client, server, ps)
    for k, x in flags.items():
        v.check(getattr(got, k) == x, "pipeline option " + k)
    v.check(got.apartment_state == want_state, "the pipeline's apartment state, else the pool's")
    v.check(got.history is None if history is None else got.history == history, "the history text")
    v.check(got.remote_stream_options == stream_options, "the remote stream options")
    if host is not None:
        v.check(got.host.IsHostNull == host.IsHostNull, "host null")
        v.check(got.host.IsHostUINull == host.IsHostUINull, "host ui null")
        v.check(got.host.IsHostRawUINull == host.IsHostRawUINull, "host raw ui null")
        v.check(got.host.UseRunspaceHost == host.UseRunspaceHost, "use runspace host")
        a, b = got.host.HostDefaultData, host.HostDefaultData
        v.check((a is None) == (b is None), "host data present or not")
        if b is not None:
            v.check((a.ForegroundColor == b.ForegroundColor) & (a.BackgroundColor == b.BackgroundColor), "host colours")
            v.check(a.WindowTitle == b.WindowTitle, "host window title")
            v.check(a.CursorSize == b.CursorSize, "host cursor size")
            for f in ("CursorPosition", "WindowPosition"):
                v.check((getattr(a, f).X == getattr(b, f).X) & (getattr(a, f).Y == getattr(b, f).Y), "host " + f)
            for f in ("BufferSize", "WindowSize", "MaxWindowSize", "MaxPhysicalWindowSize"):
                p, q = getattr(a, f), getattr(b, f)
                v.check((p.Width == q.Width) & (p.Height == q.Height), "host " + f)


@harness(
    quick=[dict(part=p) for p in ("names", "types", "rest")],
    bounds="one name or a list of up to 3; every subset of the eight command types; namespace patterns and arguments absent or lists of up to 2 values of text, Int32 or null",
)
def metadata(v, part):
    client, server = opened_pair()
    names, kw, types = "n*", {}, CommandTypes.All
    if part == "names":
        k = v.length("k", 0, 3)
        names = [v.str("name%d" % i, 1, UPPER if i else PRINTABLE) for i in range(k)]
        if k == 1 and v.flag("plain"):
            names = names[0]
    elif part == "types":
        types = CommandTypes(0)
        bits = [1, 2, 4, 8, 16, 32, 64, 256]
        for b in bits:
            if v.flag("b%d" % b):
                types = types | CommandTypes(b)
        kw["command_type"] = types
    else:
        if v.flag("namespace"):
            kw["namespace"] = [v.str("ns%d" % i, 1, UPPER) for i in range(v.length("nn", 0, 2))]
        if v.flag("arguments"):
            kw["arguments"] = [v.int("a0", *I32), None][: v.length("na", 0, 2)]
    gm = ClientGetCommandMetadata(client, names, pipeline_id=PID, **kw)
    e, got = received(v, client, server, gm)
    want = names if isinstance(names, list) else [names]
    v.check(isinstance(e, psrpcore.GetCommandMetadataEvent), "a metadata request")
    v.check(len(got.name) == len(want), "every name")
    v.check(v.all([a == b for a, b in zip(got.name, want)]), "the names, in order")
    v.check(got.command_type == types, "the command types asked for")
    for field, key in (("namespace", "namespace"), ("arguments", "arguments")):
        a, b = getattr(got, field), kw.get(key)
        v.check((a is None) == (b is None), field + " given or not")
        if b is not None:
            v.check(len(a) == len(b), field + " length")
            for x, y in zip(a, b):
                v.check(x is None if y is None else x == y, field + " entry")


@harness(
    quick=[dict()],
    bounds="a pipeline without commands; a parameter before any command; a scope on a ready command",
)
def refused(v):
    client, server = opened_pair()
    ps = ClientPowerShell(client, pipeline_id=PID)
    v.check(raises(lambda: ps.add_parameter("N", v.int("x", *I32)), ValueError), "a parameter needs a command")
    v.check(raises(lambda: ps.add_argument(1), ValueError), "an argument needs a command")
    v.check(raises(lambda: ps.add_command(Command("c"), use_local_scope=v.bool("b")), TypeError), "a ready command has its own scope")
    v.check(ps.metadata.commands == [], "a refused addition adds nothing")
    v.check(raises(ps.start, ValueError), "nothing to run")
    v.check(client.data_to_send() is None, "nothing is sent for an empty pipeline")
    v.check(ps.state == PSInvocationState.NotStarted, "an empty pipeline does not start")
    ps.add_script("s")
    received(v, client, server, ps)


@harness(
    quick=[dict(through=t) for t in ("command", "pipeline")],
    bounds="additions written as one chain, on a command and on a pipeline; a parameter without a value; any 10-99 values and names of a capital letter",
)
def chained(v, through):
    client, server = opened_pair()
    text = v.str("text", 2, UPPER)
    a, b, c = [v.int(x, 10, 99) for x in "abc"]
    n = v.str("n", 1, UPPER)
    ps = ClientPowerShell(client, pipeline_id=PID)
    if through == "command":
        ps.add_command(Command(text).add_argument(a).add_parameter(n, b).add_parameters(Kx=c, Ky=True).add_parameter("Flag"))
        want = [(text, False, None, [(None, a), (n, b), ("Kx", c), ("Ky", True), ("Flag", True)])]
    else:
        ps.add_command(text).add_argument(a).add_parameter(n, b).add_parameters(Kx=c).add_parameter("Flag").add_command("z").add_statement().add_script("s", use_local_scope=True).add_argument(c)
        want = [(text, False, None, [(None, a), (n, b), ("Kx", c), ("Flag", True)]), ("z", False, None, []), ("s", True, True, [(None, c)])]
    e, got = received(v, client, server, ps)
    v.check(len(got.commands) == len(want), "every command of the chain")
    for g, w in zip(got.commands, want):
        same_command(v, g, w)
    v.check([g.end_of_statement for g in got.commands] == ([True] if len(want) == 1 else [False, True, True]), "the statements end where they were ended")
