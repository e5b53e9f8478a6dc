"""What a pipeline or pool reports arrives once, in order, as the record written, at the pipeline it is for."""
import datetime

import psrpcore
from psrpcore.types import (
    CommandOrigin,
    CommandTypes,
    ErrorCategory,
    ErrorCategoryInfo,
    ErrorDetails,
    ErrorRecord,
    InformationRecord,
    InvocationInfo,
    NETException,
    ProgressRecord,
    ProgressRecordType,
    PSCustomObject,
    PSDateTime,
    PSInt,
    PSInvocationState,
    PSString,
    PSVersion,
    RunspacePoolState,
    ScriptExtent,
    ScriptPosition,
    SessionStateEntryVisibility,
)

from psrpcore.types._complex import RemoteCommandInfo

from vx.api import harness

from plib import NOPID, PID, PID2, RPID, deserialize, events, from_xml, raises, rt, send, sent_messages

S = PSInvocationState
UPPER = [(65, 90)]
TWO = (10, 99)
I32 = (-(2**31), 2**31 - 1)
U32 = (0, 2**32 - 1)
WHEN = datetime.datetime(2024, 1, 2, 3, 4, 5, 678900)
STREAMS = ("output", "error", "debug", "verbose", "warning", "progress", "information")


def pools(version="2.3"):
    """An opened client and server with two running pipelines each."""
    client = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    server = psrpcore.ServerRunspacePool()
    server.runspace_pool_id = RPID
    for pool in (client, server):
        pool.their_capability = pool.our_capability
        pool.state = RunspacePoolState.Opened
    if version != "2.3":
        server.their_capability.protocolversion = PSVersion(version)
    pipes = {}
    for pid in (PID, PID2):
        c = psrpcore.ClientPowerShell(client, pipeline_id=pid).add_script("1")
        s = psrpcore.ServerPipeline(server, pid)
        c.state = s.state = S.Running
        pipes[pid] = (c, s)
    return client, server, pipes


def text(v, name, n=2):
    """Text, empty text or nothing."""
    k = v.choice(name + "?", ["none", "empty", "text"])
    return None if k == "none" else v.str(name, n, UPPER) if k == "text" else ""


def maybe(v, name, n=2):
    return v.str(name, n, UPPER) if v.flag(name + "?") else None


def same(v, got, want, what):
    if isinstance(want, list):
        v.check(isinstance(got, list) and len(got) == len(want), what + ": entries")
        for a, b in zip(got, want):
            same(v, a, b, what)
    elif isinstance(want, dict):
        v.check(isinstance(got, dict) and len(got) == len(want), what + ": entries")
        for k in want:
            same(v, got[k], want[k], what)
    elif want is None or want is True or want is False:
        v.check(got is want or (want is not None and got == want), what)
    else:
        v.check(got is not None, what)
        v.check(got == want, what)


def one(v, got, kind, pid):
    v.check(len(got) == 1 and isinstance(got[0], kind), "one event, of its kind")
    v.check(got[0].pipeline_id == pid and got[0].runspace_pool_id == RPID, "for its pool and pipeline")
    return got[0]


ROOTS = {"C:\\a\\b.ps1": "C:\\a", "": "", "/x/y/z.ps1": "/x/y", "b.ps1": ""}  # the directory of a script


def invocation(v, extent, command):
    every = not (extent or command)
    given = every and v.flag("given?")
    info = InvocationInfo(
        BoundParameters={"Name": v.str("bound", 1, UPPER)} if given else None,
        CommandOrigin=v.choice("origin", list(CommandOrigin)),
        ExpectingInput=v.flag("expect") if every else True,
        HistoryId=v.int("history", *TWO),
        InvocationName=text(v, "iname", 1) if every else "",
        Line="" if given else v.str("line", 2, UPPER),
        OffsetInLine=v.int("offset", *TWO),
        PipelineLength=v.int("length", *TWO),
        PipelinePosition=v.int("position", *TWO),
        ScriptLineNumber=v.int("number", *TWO),
        ScriptName=v.choice("script", ["C:\\a\\b.ps1", "/x/y/z.ps1" if given else ""]) if every else "b.ps1",
        UnboundArguments=[v.int("arg", *TWO), None] if given else None,
    )
    if extent:
        file = v.str("file", 1, UPPER)
        info.DisplayScriptPosition = ScriptExtent(ScriptPosition(file, v.int("l0", *TWO), v.int("c0", *TWO), ""), ScriptPosition(file, v.int("l1", *TWO), v.int("c1", *TWO), ""))
    if command:
        info.MyCommand = RemoteCommandInfo(
            CommandType=v.choice("ctype", [CommandTypes.Alias, CommandTypes.Cmdlet, CommandTypes.Configuration]),
            Name=v.str("cname", 1, UPPER),
            Definition=v.str("cdef", 1, UPPER),
            Visibility=v.choice("cvis", list(SessionStateEntryVisibility)),
        )
    return info


def same_invocation(v, got, want, again=False):
    v.check(isinstance(got, InvocationInfo), "invocation info")
    for f in ("CommandOrigin", "ExpectingInput", "HistoryId", "InvocationName", "Line", "OffsetInLine", "PipelineLength", "PipelinePosition", "ScriptLineNumber", "ScriptName"):
        same(v, getattr(got, f), getattr(want, f), "invocation " + f)
    same(v, got.BoundParameters, want.BoundParameters or {}, "invocation BoundParameters")
    same(v, got.UnboundArguments, want.UnboundArguments or [], "invocation UnboundArguments")
    if want.DisplayScriptPosition is not None:
        for f in ("File", "StartLineNumber", "StartColumnNumber", "EndLineNumber", "EndColumnNumber"):
            same(v, getattr(got.DisplayScriptPosition, f), getattr(want.DisplayScriptPosition, f), "extent " + f)
    else:
        e = got.DisplayScriptPosition
        v.check(v.all([e.File == want.ScriptName, e.StartLineNumber == want.ScriptLineNumber, e.StartColumnNumber == want.OffsetInLine]), "the place in the script")
        v.check(e.EndLineNumber == want.ScriptLineNumber, "the place ends on its line")
        v.check(e.EndColumnNumber == (len(want.Line) + 1 if len(want.Line) else want.OffsetInLine), "the place ends behind its line")
        if not again:  # by then the place is an extent of its own, which comes without the two
            v.check(got.PSCommandPath == want.ScriptName, "the path of the script")
            v.check(got.PSScriptRoot == ROOTS[want.ScriptName], "the directory of the script")
    if want.MyCommand is None:
        v.check(got.MyCommand is None, "no command")
    else:
        for f in ("CommandType", "Name", "Definition", "Visibility"):
            same(v, getattr(got.MyCommand, f), getattr(want.MyCommand, f), "command " + f)


def same_error(v, got, want, cls=ErrorRecord):
    v.check(isinstance(got, cls), "an error record")
    same(v, got.Exception.Message, want.Exception.Message, "error message")
    c, w = got.CategoryInfo, want.CategoryInfo
    v.check(c.Category is w.Category, "error category")
    for f in ("Activity", "Reason", "TargetName", "TargetType"):
        same(v, getattr(c, f), getattr(w, f), "error category " + f)
    v.check(
        str(c) == "%s (%s:%s) [%s], %s" % (w.Category.name, w.TargetName or "", w.TargetType or "", w.Activity or "", w.Reason or ""),
        "error category text",
    )
    same(v, got.FullyQualifiedErrorId, want.FullyQualifiedErrorId, "error id")
    same(v, got.TargetObject, want.TargetObject, "error target")
    same(v, got.ScriptStackTrace, want.ScriptStackTrace or None, "error stack")
    d, w = got.ErrorDetails, want.ErrorDetails
    if w is None or not (w.Message or w.RecommendedAction):
        v.check(d is None, "no error details")
    else:
        same(v, d.Message, w.Message, "error details message")
        same(v, d.RecommendedAction, w.RecommendedAction, "error details action")
    v.check(str(got) == (d.Message if d is not None and d.Message else want.Exception.Message), "error text")


@harness(
    quick=[dict(part=p) for p in ("category", "details", "target", "invocation", "extent", "command")],
    thorough=[dict(part=p, way=w) for p in ("category", "details", "target", "invocation", "extent", "command") for w in ("pipeline", "pool", "object", "again")],
    bounds="error records with every field set, empty or absent, text of 1-2 letters, every category, targets of five kinds, invocation info with every field; written by a pipeline, ending one or a pool, or sent as an object, and passed on",
)
def error(v, part, way=None):
    way = way or v.choice("way", ["pipeline", "pool", "object", "again"])
    category = ErrorCategoryInfo()
    kw = {}
    if part == "category":
        category = ErrorCategoryInfo(
            Category=v.choice("category", list(ErrorCategory)) if way == "pipeline" else ErrorCategory.ReadError,
            Activity=maybe(v, "activity", 1),
            Reason=text(v, "reason", 1),
            TargetName=maybe(v, "tname", 1),
            TargetType=maybe(v, "ttype", 1),
        )
    elif part == "details":
        kw["fully_qualified_error_id"] = text(v, "fqid")
        kw["script_stack_trace"] = text(v, "stack")
        if v.flag("details"):
            kw["error_details"] = ErrorDetails(Message=text(v, "dmsg"), RecommendedAction=text(v, "daction", 1))
    elif part == "target":
        kw["target_object"] = v.choice("target", [None, v.str("ttext", 2, UPPER), v.int("tint", *TWO), [v.int("tone", *TWO), None], {"k": v.str("tdict", 1, UPPER)}])
    else:
        kw["invocation_info"] = invocation(v, part == "extent", part == "command")
        kw["pipeline_iteration_info"] = [v.int("iter", *TWO)] if v.flag("iter?") else None
    message = v.str("message", 2, UPPER)
    want = ErrorRecord(
        Exception=NETException(Message=message),
        CategoryInfo=category,
        FullyQualifiedErrorId=kw.get("fully_qualified_error_id"),
        TargetObject=kw.get("target_object"),
        ScriptStackTrace=kw.get("script_stack_trace"),
        ErrorDetails=kw.get("error_details"),
        InvocationInfo=kw.get("invocation_info"),
        PipelineIterationInfo=kw.get("pipeline_iteration_info"),
    )
    want.serialize_extended_info = "invocation_info" in kw
    client, server, pipes = pools()
    if way == "pipeline":
        pipes[PID][1].write_error(NETException(Message=message), category, **kw)
        got = one(v, send(server, client), psrpcore.ErrorRecordEvent, PID).record
    elif way == "pool":
        server.set_broken(want)
        e = send(server, client)
        v.check(len(e) == 1 and e[0].state is RunspacePoolState.Broken and client.state is RunspacePoolState.Broken, "the state of the pool")
        got = e[0].reason
    elif way == "object":
        pipes[PID][1].write_output(want)
        got = one(v, send(server, client), psrpcore.PipelineOutputEvent, PID).data
    else:
        got = rt(rt(want))
    same_error(v, got, want)
    v.check(got.serialize_extended_info == want.serialize_extended_info, "whether it tells how it was invoked")
    if want.serialize_extended_info:
        same_invocation(v, got.InvocationInfo, want.InvocationInfo, way == "again")
        same(v, got.PipelineIterationInfo, want.PipelineIterationInfo, "pipeline iteration info")
    else:
        v.check(got.InvocationInfo is None and got.PipelineIterationInfo is None, "nothing about how it was invoked")


@harness(
    quick=[dict(kind=k, part=p) for k in ("debug", "verbose", "warning") for p in ("plain", "extent")],
    thorough=[dict(kind=k, part=p) for k in ("debug", "verbose", "warning") for p in ("plain", "invocation", "extent", "command")],
    bounds="debug, verbose and warning texts of 0-2 letters with or without invocation info with every field, sent by a pipeline or as an object",
)
def informational(v, kind, part):
    message = text(v, "message")
    info = None if part == "plain" else invocation(v, part == "extent", part == "command")
    iteration = [v.int("iter", *TWO)] if info is not None and v.flag("iter?") else None
    client, server, pipes = pools()
    getattr(pipes[PID2][1], "write_" + kind)(message, info, iteration)
    event = one(v, send(server, client), {"debug": psrpcore.DebugRecordEvent, "verbose": psrpcore.VerboseRecordEvent, "warning": psrpcore.WarningRecordEvent}[kind], PID2)
    got = event.record
    for r in (got, rt(got)):
        same(v, r.Message, message, kind + " text")
        if info is None:
            v.check(r.InvocationInfo is None and not r.serialize_extended_info, "nothing about how it was invoked")
        else:
            same_invocation(v, r.InvocationInfo, info)
            same(v, r.PipelineIterationInfo, iteration, "pipeline iteration info")


FIELDS = ("ActivityId", "ParentActivityId", "PercentComplete", "SecondsRemaining")


@harness(
    quick=[dict(big=f) for f in FIELDS],
    thorough=[dict(big=f, n=3) for f in FIELDS],
    bounds="progress records with any Int32 as one number, two digits (or absent) as the others, text of 0-2 (thorough 3) letters, sent by a pipeline, as an object, extended or not",
)
def progress(v, big, n=2):
    given = v.flag("given")
    kw = {f: v.int(f, *(I32 if f == big else TWO)) for f in FIELDS if f in (big, "ActivityId") or given}
    kw["Activity"] = v.str("activity", n, UPPER) if v.flag("activity?") else ""
    kw["StatusDescription"] = v.str("status", n, UPPER) if v.flag("status?") else ""
    kw["CurrentOperation"] = text(v, "operation", 1)
    kw["RecordType"] = v.choice("type", list(ProgressRecordType))
    want = ProgressRecord(**kw)
    for f in FIELDS:
        if f not in kw:
            v.check(want[f] == -1, "a number not given is -1")
    if v.flag("stream"):
        client, server, pipes = pools()
        pipes[PID][1].write_progress(
            kw["Activity"], kw["ActivityId"], kw["StatusDescription"], kw["CurrentOperation"], kw.get("ParentActivityId", -1), kw.get("PercentComplete", -1), kw["RecordType"], kw.get("SecondsRemaining", -1)
        )
        got = one(v, send(server, client), psrpcore.ProgressRecordEvent, PID).record
    else:
        got = rt(want)
    v.check(isinstance(got, ProgressRecord), "a progress record")
    for f in FIELDS:
        v.check(isinstance(got[f], PSInt) and got[f] == want[f], "progress " + f)
    for f in ("Activity", "StatusDescription", "CurrentOperation"):
        same(v, got[f], want[f], "progress " + f)
    v.check(got.RecordType is want.RecordType, "progress type")


@harness(
    quick=[dict(big=f) for f in ("ProcessId", "NativeThreadId", "ManagedThreadId")] + [dict(big=None)],
    thorough=[dict(big=f, n=3) for f in ("ProcessId", "NativeThreadId", "ManagedThreadId", None)],
    bounds="information records with any UInt32 as one number, data of five kinds, 0-2 tags, text of 2 (thorough 3) letters, any tick within a second, to peers that know them or not",
)
def information(v, big, n=2):
    minor = v.int("minor", 0, 9)
    version = "2.%s" % minor
    kw = dict(
        source=v.str("source", n, UPPER),
        time_generated=WHEN if big else PSDateTime(2024, 1, 2, 3, 4, 5, v.int("us", 0, 999999)),
        tags=[v.str("tag%d" % i, 1, UPPER) for i in range(v.choice("tags", [0, 1, 2]) if not big else 1)],
        user=v.str("user", 1, UPPER),
        computer=v.str("computer", 1, UPPER),
        process_id=v.int("pid", *(U32 if big == "ProcessId" else TWO)),
        native_thread_id=v.int("nid", *(U32 if big == "NativeThreadId" else TWO)),
        managed_thread_id=v.int("mid", *(U32 if big == "ManagedThreadId" else TWO)),
    )
    kind = v.choice("data", ["none", "text", "int", "list", "object"]) if not big else "text"
    if kind == "none":
        data = None
    elif kind == "text":
        data = v.str("d", n, UPPER)
    elif kind == "int":
        data = v.int("d", *TWO)
    elif kind == "list":
        data = [v.int("d", *TWO), None]
    else:
        data = PSCustomObject(A=v.int("d", *TWO))
    client, server, pipes = pools(version)
    refused = raises(lambda: pipes[PID][1].write_information(data, **kw), psrpcore.InvalidProtocolVersion)
    v.check(refused == (minor < 3), "exactly a peer of 2.3 or later gets information records")
    if refused:
        v.check(sent_messages(server) == [], "nothing is sent to another")
        return
    got = one(v, send(server, client), psrpcore.InformationRecordEvent, PID).record
    for r in (got, rt(got)):
        v.check(isinstance(r, InformationRecord), "an information record")
        if kind == "object":
            v.check(r.MessageData.A == data.A, "information data")
        else:
            same(v, r.MessageData, data, "information data")
        for f, k in (("Source", "source"), ("User", "user"), ("Computer", "computer"), ("ProcessId", "process_id"), ("NativeThreadId", "native_thread_id"), ("ManagedThreadId", "managed_thread_id"), ("Tags", "tags")):
            same(v, r[f], kw[k], "information " + f)
        v.check(r.TimeGenerated == kw["time_generated"], "information time")


@harness(
    quick=[dict(n=2, limit=None), dict(n=3, limit=None), dict(n=2, limit=60)],
    thorough=[dict(n=3, limit=60), dict(n=4, limit=None)],
    bounds="every history of up to 3 (thorough 4) writes to any stream of either of two pipelines, their completion, stop or failure and pool events, in payloads of every size or 60 bytes",
)
def order(v, n, limit):
    client, server, pipes = pools()
    want = []
    acts = list(STREAMS) + ["event", "complete", "stop"] if n == 2 else ["output", "error", "progress", "event", "complete"]
    over = set()
    for i in range(n):
        act = v.choice("act%d" % i, acts)
        pid = v.choice("pid%d" % i, [PID, PID2]) if act != "event" else None
        if pid in over:
            v.assume(False)
        x = v.str("x%d" % i, 2, UPPER)
        s = pipes[pid][1] if pid else None
        if act == "event":
            server.send_event(7, x, time_generated=WHEN, computer="c")
        elif act == "error":
            s.write_error(NETException(x))
        elif act == "progress":
            s.write_progress(x, 1, "s")
        elif act == "information":
            s.write_information(x, "s", WHEN, [], "u", "c", 1, 2, 3)
        elif act == "complete" or act == "stop":
            getattr(s, act)()
            over.add(pid)
        else:
            getattr(s, "write_" + act)(x)
        want.append((act, pid, x))
    got = send(server, client) if limit is None else send(server, client, limit)
    v.check(len(got) == len(want), "every report arrives, once")
    # a payload carries the data of one pipeline only; those of one pipeline stay in order
    for pid in (PID, PID2, None):
        mine = [e for e in got if e.pipeline_id == pid]
        sent = [w for w in want if w[1] == pid]
        v.check(len(mine) == len(sent), "at its pipeline, or the pool")
        for e, (act, _, x) in zip(mine, sent):
            if act == "event":
                v.check(isinstance(e, psrpcore.UserEventEvent) and e.event.SourceIdentifier == x, "the event")
            elif act in ("complete", "stop"):
                v.check(isinstance(e, psrpcore.PipelineStateEvent) and e.state is (S.Completed if act == "complete" else S.Stopped), "the state")
                v.check((e.reason is None) == (act == "complete"), "and its reason")
            elif act == "output":
                v.check(isinstance(e, psrpcore.PipelineOutputEvent) and e.data == x, "the output")
            else:
                r = e.record
                v.check(type(e).__name__.lower().startswith(act), "the stream")
                v.check({"error": lambda: r.Exception.Message, "progress": lambda: r.Activity, "information": lambda: r.MessageData}.get(act, lambda: r.Message)() == x, "the record")
    for pid in (PID, PID2):
        v.check((pipes[pid][0].state is S.Running) == (pid not in over), "only its own pipeline ends")
    if n == 2:
        v.check([e.pipeline_id for e in got] == [w[1] for w in want], "all in order")
    v.check(events(client) == [], "and nothing else")


KINDS = ("none", "text", "int", "bool", "list", "empty", "object")


@harness(
    quick=[dict(kinds=(a, b)) for a in KINDS for b in ("none", "text", "list")],
    thorough=[dict(kinds=(a, b, c)) for a in KINDS for b in ("none", "text", "list") for c in ("none", "int", "object")],
    bounds="every sequence of 2 (thorough 3) inputs of seven kinds to either pipeline, each followed or not by the end of the input, and the same as output",
)
def values(v, kinds):
    client, server, pipes = pools()
    inputs = v.flag("input")
    want = []
    for i, kind in enumerate(kinds):
        pid = v.choice("pid%d" % i, [PID, PID2])
        if kind == "none":
            x = None
        elif kind == "text":
            x = v.str("x%d" % i, 2, UPPER)
        elif kind == "int":
            x = v.int("x%d" % i, *TWO)
        elif kind == "bool":
            x = v.flag("x%d" % i)
        elif kind == "list":
            x = [v.int("x%d" % i, *TWO), None]
        elif kind == "empty":
            x = v.choice("x%d" % i, [[], "", {}])
        else:
            x = PSCustomObject(A=v.int("x%d" % i, *TWO))
        if inputs:
            pipes[pid][0].send(x)
        else:
            pipes[pid][1].write_output(x)
        want.append((pid, kind, x))
        if inputs and v.flag("eof%d" % i):
            pipes[pid][0].send_eof()
            want.append((pid, "eof", None))
    got = send(client, server) if inputs else send(server, client)
    v.check(len(got) == len(want), "every value arrives, once")
    for e, (pid, kind, x) in zip(got, want):
        v.check(e.pipeline_id == pid and e.runspace_pool_id == RPID, "at its pipeline, in order")
        if kind == "eof":
            v.check(isinstance(e, psrpcore.EndOfPipelineInputEvent), "the end of the input")
            continue
        v.check(isinstance(e, psrpcore.PipelineInputEvent if inputs else psrpcore.PipelineOutputEvent), "as what it was sent")
        if kind == "object":
            v.check(e.data.A == x.A, "the object")
        else:
            same(v, e.data, x, "the value")


@harness(
    quick=[dict(big=b) for b in (True, False)],
    thorough=[dict(big=b) for b in (True, False)],
    bounds="events with any Int32 as identifier, senders, arguments and data of several kinds or absent",
)
def event(v, big):
    client, server, pipes = pools()
    n = v.int("id", *(I32 if big else TWO))
    sender = v.choice("sender", [None, v.str("stext", 1, UPPER), v.int("sint", *TWO)])
    args = v.choice("args", [None, [], [v.int("arg", *TWO), None]])
    data = v.choice("data", [None, v.str("dtext", 1, UPPER), [v.int("dint", *TWO)], {"k": None}])
    source = v.str("source", 2, UPPER)
    server.send_event(n, source, sender, args, data, WHEN, v.str("computer", 1, UPPER))
    got = send(server, client)
    v.check(len(got) == 1 and isinstance(got[0], psrpcore.UserEventEvent) and got[0].runspace_pool_id == RPID, "one event, for its pool")
    e = got[0].event
    v.check((e.EventIdentifier == n) & (e.SourceIdentifier == source), "event identifiers")
    same(v, e.Sender, sender, "event sender")
    same(v, e.SourceArgs, args or [], "event arguments")
    same(v, e.MessageData, data, "event data")
    v.check(e.TimeGenerated == PSDateTime(2024, 1, 2, 3, 4, 5, 678900) and e.RunspaceId == RPID, "event time and pool")
