"""Runspace pool operations are accepted exactly in the documented states and refused without any effect."""
import psrpcore
from psrpcore.types import (
    ErrorCategoryInfo,
    ErrorRecord,
    HostMethodIdentifier,
    NETException,
    PSRPMessageType,
    PSVersion,
    RunspacePoolState,
)

from vx.api import harness

from plib import NOPID, PID, RPID, deserialize, from_xml, sent_messages

S = RunspacePoolState
M = PSRPMessageType
STATES = list(S)
CAP = psrpcore.PSRPCoreError

# operation: (states it is a no-op in, other states it is accepted in (None: all), state afterwards (None: unchanged), messages)
COMMON = {
    "begin_close": ([], None, S.Closing, []),
    "close": ([], [S.Closed, S.Closing, S.Opened], S.Closed, []),
    "begin_disconnect": ([], None, S.Disconnecting, []),
    "disconnect": ([], [S.Opened, S.Disconnecting, S.Disconnected], S.Disconnected, []),
    "reconnect": ([], [S.Disconnected, S.Opened], S.Opened, []),
}
CLIENT = dict(
    COMMON,
    open=([S.Opened], [S.BeforeOpen], S.Opening, [M.SessionCapability, M.InitRunspacePool]),
    connect=([S.Opened], [S.BeforeOpen, S.Disconnected], S.Connecting, [M.SessionCapability, M.ConnectRunspacePool]),
    get_available_runspaces=([], [S.Opened], None, [M.GetAvailableRunspaces]),
    reset_runspace_state=([], [S.Opened], None, [M.ResetRunspaceState]),
    exchange_key=([], [S.Opened], None, [M.PublicKey]),
)
SERVER = dict(
    COMMON,
    connect=([S.Opened], [S.Disconnected], S.Connecting, []),
    send_event=([], [S.Opened], None, [M.UserEvent]),
    set_broken=([], [S.Opened, S.Broken], S.Broken, []),
    host_call=([], [S.Opened], None, [M.RunspacePoolHostCall]),
    request_key=([], [S.Opened], None, [M.PublicKeyRequest]),
)
SILENT = [S.Disconnecting, S.Disconnected, S.Connecting]  # states a server does not announce


def error():
    return ErrorRecord(Exception=NETException("broken"), CategoryInfo=ErrorCategoryInfo())


ARGS = {
    "set_broken": lambda: (error(),),
    "send_event": lambda: (1, "src"),
    "host_call": lambda: (HostMethodIdentifier.ReadLine,),
}


def make(client):
    if client:
        return psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    pool = psrpcore.ServerRunspacePool()
    pool.runspace_pool_id = RPID
    return pool


def snapshot(pool):
    return [
        pool.runspace_pool_id,
        pool.min_runspaces,
        pool.max_runspaces,
        list(pool.pipeline_table.keys()),
        pool.application_arguments,
        pool.apartment_state,
        pool.thread_options,
        pool.their_capability,
    ]


def attempt(v, pool, op, accepted, st):
    """Runs op; checks that it is refused with the right error unless accepted."""
    try:
        getattr(pool, op)(*ARGS.get(op, tuple)())
    except psrpcore.InvalidRunspacePoolState as e:
        v.check(accepted == False, "an operation is not refused in a state it is valid in")
        v.check(e.current_state == st, "the refusal names the current state")
        return False
    v.check(accepted, "an operation is refused in a state it is not valid in")
    return True


def one_of(st, states):
    r = False
    for s in states:
        r = (st == s) | r
    return r


def step(v, client, op, queued):
    noop, ok, after, messages = (CLIENT if client else SERVER)[op]
    pool = make(client)
    if queued:
        pool.prepare_message("pending", message_type=M.PipelineInput, pipeline_id=PID)
    st = v.enum("state", STATES)
    if op == "reset_runspace_state":
        pool.their_capability = make(True).our_capability
    pool.state = st
    before = snapshot(pool)
    accepted = True if ok is None else one_of(st, ok + noop)
    did = attempt(v, pool, op, accepted, st)
    quiet = one_of(st, noop)
    got = sent_messages(pool)
    if queued:
        v.check(len(got) > 0 and got[0][1] == M.PipelineInput and bytes(got[0][3]) != NOPID.bytes, "what was queued before stays first in the queue")
        got = got[1:]
    if not did or quiet:
        v.check(pool.state == st, "a refused or unnecessary operation leaves the state as it was")
        v.check(len(got) == 0, "a refused or unnecessary operation queues nothing")
        v.check(snapshot(pool) == before, "a refused or unnecessary operation changes nothing else")
        return
    v.check(pool.state == (st if after is None else after), "the operation leads to the documented state")
    expect = list(messages)
    if not client and after is not None and after not in SILENT:
        expect.append(M.RunspacePoolState)
    v.check([m[1] for m in got] == [int(m) for m in expect], "the operation queues exactly its messages")
    v.check(all(bytes(m[3]) == NOPID.bytes for m in got), "pool messages name no pipeline")
    v.check(all(m[0] == (2 if client else 1) for m in got), "messages are addressed to the peer")
    if expect and expect[-1] == M.RunspacePoolState:
        x = deserialize(from_xml(got[-1][4]))
        v.check(x.RunspaceState == after.value, "the announced state is the new state")
        if op == "set_broken":
            v.check(x.ExceptionAsErrorRecord.Exception.Message == "broken", "the reason is announced with it")


@harness(
    quick=[dict(op=o, queued=q) for o in CLIENT for q in (False, True)],
    bounds="each client pool operation from every pool state, with an empty or non-empty send queue",
)
def client_step(v, op, queued):
    step(v, True, op, queued)


@harness(
    quick=[dict(op=o, queued=q) for o in SERVER for q in (False, True)],
    bounds="each server pool operation from every pool state, with an empty or non-empty send queue",
)
def server_step(v, op, queued):
    step(v, False, op, queued)


@harness(quick=[dict(client=c) for c in (True, False)], bounds="close with a pipeline left, from every pool state")
def close_with_pipelines(v, client):
    pool = make(client)
    st = v.enum("state", STATES)
    pool.state = st
    p = (psrpcore.ClientPowerShell if client else psrpcore.ServerPipeline)(pool, pipeline_id=PID)
    try:
        pool.close()
        v.check(False, "a pool with pipelines is not closed")
    except CAP:
        v.check(pool.state == st, "the state stays")
        v.check(sent_messages(pool) == [], "nothing is queued")
    p.close()
    v.check(pool.pipeline_table == {}, "a closed pipeline leaves the table")


@harness(bounds="reset of the runspace state with every peer protocol version 0.0 to 99.99 or unknown, from every pool state")
def reset_needs_version(v):
    pool = make(True)
    known = v.flag("known")
    a, b = v.int("major", 0, 99), v.int("minor", 0, 99)
    new = (a > 2) | ((a == 2) & (b >= 3)) if known else False
    if known:
        cap = make(True).our_capability
        cap.protocolversion = PSVersion(major=a, minor=b)
        pool.their_capability = cap
    st = v.enum("state", STATES)
    pool.state = st
    try:
        pool.reset_runspace_state()
        v.check(new & (st == S.Opened), "the reset is only requested in an opened pool from a peer that knows it")
        v.check([m[1] for m in sent_messages(pool)] == [int(M.ResetRunspaceState)], "the request is queued")
    except psrpcore.InvalidProtocolVersion:
        v.check(new == False, "a peer of version 2.3 or later knows the request")
        v.check(sent_messages(pool) == [], "nothing is queued")
    except psrpcore.InvalidRunspacePoolState:
        v.check((st == S.Opened) == False, "an opened pool accepts the request")
        v.check(sent_messages(pool) == [], "nothing is queued")
    v.check(pool.state == st, "the state stays")


@harness(
    quick=[dict(field=f, value=s) for f in ("min", "max") for s in (False, True)],
    bounds="setting min/max runspaces to any Int32 from any Int32, before opening and afterwards",
)
def set_runspaces(v, field, value):
    lo, hi = v.int("old", -(2**31), 2**31 - 1), v.int("new", -(2**31), 2**31 - 1)
    pool = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, **{field + "_runspaces": lo})
    pool.state = S.Opened if value else S.BeforeOpen
    ci = getattr(pool, "set_%s_runspaces" % field)(hi)
    now = getattr(pool, field + "_runspaces")
    got = sent_messages(pool)
    if not value:
        v.check(ci is None and got == [], "before the pool is opened nothing needs to be sent")
        v.check(now == hi, "the value is the one the pool is opened with")
    elif ci is None:
        v.check(lo == hi, "a new value is requested from the peer")
        v.check(got == [], "the value in force needs no request")
        v.check(now == lo, "the value stays")
    else:
        v.check((lo == hi) == False, "the value in force needs no request")
        v.check(now == lo, "the value in force only changes once the peer agrees")
        v.check([m[1] for m in got] == [int(M.SetMaxRunspaces if field == "max" else M.SetMinRunspaces)], "one request is queued")
        x = deserialize(from_xml(got[0][4]))
        v.check((x.MaxRunspaces if field == "max" else x.MinRunspaces) == hi, "the request carries the new value")
        v.check(x.ci == ci, "the request carries the call id handed to the caller")
    other = "max" if field == "min" else "min"
    v.check(getattr(pool, other + "_runspaces") == 1, "the other limit is not touched")


@harness(
    quick=[dict(requested=r) for r in (False, True)],
    bounds="key exchange asked for twice, in any state (first opened), by client and server",
)
def key_requested_once(v, requested):
    pool = make(v.flag("client"))
    ask = pool.exchange_key if isinstance(pool, psrpcore.ClientRunspacePool) else pool.request_key
    if requested:
        pool.state = S.Opened
        ask()
        v.check(len(sent_messages(pool)) == 1, "the key is asked for")
    st = v.enum("state", STATES)
    pool.state = st
    try:
        ask()
        n = len(sent_messages(pool))
        v.check(n == (0 if requested else 1), "the key is asked for once")
        v.check(requested or st == S.Opened, "the key is asked for in an opened pool")
    except psrpcore.InvalidRunspacePoolState:
        v.check(requested == False, "asking again is not an error")
        v.check((st == S.Opened) == False, "an opened pool accepts the request")
        v.check(sent_messages(pool) == [], "nothing is queued")
        pool.state = S.Opened
        ask()
        v.check(len(sent_messages(pool)) == 1, "a refused request does not prevent a later one")


@harness(
    quick=[dict(queued=q) for q in (False, True)],
    bounds="the state announced by the server (every value), any client state before",
)
def announced_state(v, queued):
    server, client = make(False), make(True)
    st = v.enum("to", [s for s in STATES if s not in SILENT])
    server.prepare_message(psrpcore.types.RunspacePoolStateMsg(RunspaceState=st.value))
    before = v.choice("from", STATES)
    client.state = before
    for p in [server.data_to_send()]:
        client.receive_data(p)
    e = client.next_event()
    v.check(e.state == st, "the event names the announced state")
    v.check(client.state == st, "the client follows the announced state")
    v.check(client.data_to_send() is None, "nothing needs to be answered")
