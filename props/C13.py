"""Pipeline operations are accepted exactly in the documented states, refused without effect, and speak for their own pipeline only."""
import datetime

import psrpcore
from psrpcore.types import (
    ErrorCategory,
    HostMethodIdentifier,
    NETException,
    PSInvocationState,
    PSRPMessageType,
    PSVersion,
    RunspacePoolState,
)

from vx.api import harness

from plib import PID, PID2, RPID, deserialize, from_xml, sent_messages

S = PSInvocationState
M = PSRPMessageType
STATES = list(S)
ENDED = [S.NotStarted, S.Stopped, S.Completed]
WHEN = datetime.datetime(2024, 1, 2, 3, 4, 5)

# operation: (states it is a no-op in, other states it is accepted in (None: all), state afterwards (None: unchanged), message)
COMMON = {
    "begin_stop": ([], [S.Running, S.Stopping], S.Stopping, None),
    "close": ([], ENDED + [S.Stopping, S.Failed], None, None),
}
CLIENT = dict(
    COMMON,
    start=([], ENDED, S.Running, M.CreatePipeline),
    send=([], [S.Running], None, M.PipelineInput),
    send_eof=([], [S.Running], None, M.EndOfPipelineInput),
    host_response=([], [S.Running], None, M.PipelineHostResponse),
)
SERVER = dict(
    COMMON,
    start=([], ENDED, S.Running, M.PipelineState),
    complete=([], None, S.Completed, M.PipelineState),
    stop=([S.Stopped], [S.Running, S.Stopping], S.Stopped, M.PipelineState),
    host_call=([], [S.Running], None, M.PipelineHostCall),
    write_output=([], [S.Running], None, M.PipelineOutput),
    write_error=([], [S.Running], None, M.ErrorRecord),
    write_debug=([], [S.Running], None, M.DebugRecord),
    write_verbose=([], [S.Running], None, M.VerboseRecord),
    write_warning=([], [S.Running], None, M.WarningRecord),
    write_progress=([], [S.Running], None, M.ProgressRecord),
    write_information=([], [S.Running], None, M.InformationRecord),
)
SERVER_STATES = {"begin_stop": S.Stopping}  # announced as every other state of a server pipeline
ARGS = {
    "send": lambda: ("in",),
    "write_output": lambda: ("out",),
    "write_error": lambda: (NETException("bad"),),
    "write_debug": lambda: ("text",),
    "write_verbose": lambda: ("text",),
    "write_warning": lambda: ("text",),
    "write_progress": lambda: ("act", 1, "status"),
    "write_information": lambda: ("info", "src", WHEN, [], "user", "host", 1, 2, 3),
    "host_call": lambda: (HostMethodIdentifier.ReadLine,),
}


def pool_of(client):
    if client:
        pool = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    else:
        pool = psrpcore.ServerRunspacePool()
        pool.runspace_pool_id = RPID
    pool.their_capability = pool.our_capability
    pool.state = RunspacePoolState.Opened
    return pool


def pipeline_of(pool, kind, pid):
    if kind == "server":
        return psrpcore.ServerPipeline(pool, pid)
    if kind == "metadata":
        return psrpcore.ClientGetCommandMetadata(pool, "*", pipeline_id=pid)
    return psrpcore.ClientPowerShell(pool, pipeline_id=pid).add_script("1")


def one_of(st, states):
    r = False
    for s in states:
        r = (st == s) | r
    return r


def step(v, kind, op):
    client = kind != "server"
    noop, ok, after, message = (CLIENT if client else SERVER)[op]
    pool = pool_of(client)
    pipe = pipeline_of(pool, kind, PID)
    other = pipeline_of(pool, kind, PID2)
    args = ARGS.get(op, tuple)()
    if op == "host_response":
        # a host call of this pipeline to respond to
        server = pool_of(False)
        remote = pipeline_of(server, "server", PID)
        remote.state = S.Running
        args = (remote.host_call(HostMethodIdentifier.ReadLine), "line")
        pool.receive_data(server.data_to_send())
        pool.next_event()
    st, st2 = v.enum("state", STATES), v.enum("other", STATES)
    pipe.state, other.state = st, st2
    accepted = True if ok is None else one_of(st, ok + noop)
    try:
        getattr(pipe, op)(*args)
        did = True
        v.check(accepted, "an operation is refused in a state it is not valid in")
    except psrpcore.InvalidPipelineState as e:
        did = False
        v.check(accepted == False, "an operation is not refused in a state it is valid in")
        v.check(e.current_state == st, "the refusal names the current state")
    got = sent_messages(pool)
    v.check(other.state == st2, "another pipeline's state is never touched")
    v.check(PID2 in pool.pipeline_table and pool.pipeline_table[PID2] is other, "another pipeline stays in the table")
    v.check(pool.state == RunspacePoolState.Opened, "the pool's state is never touched")
    if not did or one_of(st, noop):
        v.check(pipe.state == st, "a refused or unnecessary operation leaves the state as it was")
        v.check(got == [], "a refused or unnecessary operation queues nothing")
        v.check(pool.pipeline_table.get(PID) is pipe, "a refused or unnecessary operation leaves the pipeline in the table")
        if op == "host_response":
            pipe.state = S.Running
            pipe.host_response(*args)
            v.check(len(sent_messages(pool)) == 1, "a refused response can still be given later")
        return
    v.check(pipe.state == (st if after is None else after), "the operation leads to the documented state")
    v.check((PID in pool.pipeline_table) == (op != "close"), "only close takes the pipeline off the table")
    expect = message
    if kind == "metadata" and op == "start":
        expect = M.GetCommandMetadata
    if not client and op == "begin_stop":
        expect = M.PipelineState
    v.check([m[1] for m in got] == ([int(expect)] if expect else []), "the operation queues exactly its message")
    for m in got:
        v.check(m[0] == (2 if client else 1), "the message is addressed to the peer")
        v.check(bytes(m[2])[::-1] != b"" and guid(m[2]) == RPID, "the message names its pool")
        v.check(guid(m[3]) == PID, "the message names its pipeline")
        if expect == M.PipelineState:
            x = deserialize(from_xml(m[4]))
            v.check(x.PipelineState == after.value, "the announced state is the new state")
            err = getattr(x, "ExceptionAsErrorRecord", None)
            v.check((err is not None) == (op == "stop"), "only a stopped pipeline is announced with an error")
            if op == "stop":
                v.check(
                    err.FullyQualifiedErrorId == "PipelineStopped"
                    and err.Exception.PSTypeNames[0].endswith("System.Management.Automation.PipelineStoppedException"),
                    "the error tells that the pipeline was stopped",
                )
                kinds = [t.split(".", 1)[1] if t.startswith("Deserialized.") else t for t in err.Exception.PSTypeNames]
                v.check("System.Exception" in kinds, "the error is an exception")
                v.check("System.Management.Automation.RuntimeException" in kinds, "the error is a PowerShell runtime exception")
                v.check(err.CategoryInfo.Category == ErrorCategory.OperationStopped, "the error says the operation was stopped")


def guid(b):
    import uuid

    return uuid.UUID(bytes_le=bytes(b))


@harness(
    quick=[dict(kind=k, op=o) for k in ("powershell", "metadata") for o in CLIENT],
    bounds="each client pipeline operation from every pipeline state, next to another pipeline in any state",
)
def client_step(v, kind, op):
    step(v, kind, op)


@harness(quick=[dict(op=o) for o in SERVER], bounds="each server pipeline operation from every pipeline state, next to another pipeline in any state")
def server_step(v, op):
    step(v, "server", op)


@harness(bounds="an information record for every peer protocol version 0.0 to 99.99 or an unknown one, from every pipeline state")
def information_needs_version(v):
    pool = pool_of(False)
    pipe = pipeline_of(pool, "server", PID)
    known = v.flag("known")
    a, b = v.int("major", 0, 99), v.int("minor", 0, 99)
    new = (a > 2) | ((a == 2) & (b >= 3)) if known else False
    if known:
        cap = pool_of(False).our_capability
        cap.protocolversion = PSVersion(major=a, minor=b)
        pool.their_capability = cap
    else:
        pool.their_capability = None
    st = v.enum("state", STATES)
    pipe.state = st
    try:
        pipe.write_information(*ARGS["write_information"]())
        v.check(new & (st == S.Running), "information is only written by a running pipeline to a peer that knows it")
        v.check([m[1] for m in sent_messages(pool)] == [int(M.InformationRecord)], "the record is queued")
    except psrpcore.InvalidProtocolVersion:
        v.check(new == False, "a peer of version 2.3 or later knows information records")
        v.check(sent_messages(pool) == [], "nothing is queued")
    except psrpcore.InvalidPipelineState:
        v.check((st == S.Running) == False, "a running pipeline may write information")
        v.check(sent_messages(pool) == [], "nothing is queued")
    v.check(pipe.state == st, "the state stays")


@harness(
    quick=[dict(kind=k) for k in ("powershell", "metadata")],
    bounds="a pipeline state message with every state, from any client pipeline state, next to another pipeline in any state",
)
def announced_state(v, kind):
    server, client = pool_of(False), pool_of(True)
    remote = pipeline_of(server, "server", PID)
    pipe, other = pipeline_of(client, kind, PID), pipeline_of(client, kind, PID2)
    a, b = v.enum("state", STATES), v.enum("other", STATES)
    pipe.state, other.state = a, b
    st = v.enum("to", STATES)
    remote.prepare_message(psrpcore.types.PipelineState(PipelineState=st.value))
    client.receive_data(server.data_to_send())
    e = client.next_event()
    v.check(e.pipeline_id == PID, "the event names the pipeline")
    v.check(e.state == st, "the event names the announced state")
    v.check(pipe.state == st, "the client's pipeline follows the announced state")
    v.check(other.state == b, "another pipeline does not")
    v.check(client.state == RunspacePoolState.Opened, "neither does the pool")
    v.check(client.data_to_send() is None, "nothing needs to be answered")


@harness(
    quick=[dict(first=f, second=s) for f in ("complete", "stop", "begin_stop", "start") for s in ("complete", "stop", "begin_stop", "start")],
    bounds="any two state changes of a server pipeline in turn from every state, followed by the client",
)
def client_follows(v, first, second):
    server, client = pool_of(False), pool_of(True)
    remote, pipe = pipeline_of(server, "server", PID), pipeline_of(client, "powershell", PID)
    st = v.enum("state", STATES)
    remote.state, pipe.state = st, st
    for op in (first, second):
        try:
            getattr(remote, op)()
        except psrpcore.InvalidPipelineState:
            pass
    p = server.data_to_send()
    if p is not None:
        client.receive_data(p)
        while client.next_event():
            pass
    v.check(pipe.state == remote.state, "client and server agree on the state of the pipeline")
