"""Every answer reaches the request it answers, exactly once, whatever the order; limits change only when the server agrees."""
import itertools

import psrpcore
from psrpcore.types import (
    ErrorCategoryInfo,
    ErrorRecord,
    HostMethodIdentifier,
    NETException,
    PSInvocationState,
    PSRPMessageType,
)

from vx.api import PRINTABLE, harness

from plib import PID, PID2, events, opened_pair, raises, send, sent_messages

I32 = (-(2**31), 2**31 - 1)
KINDS = ("max", "min", "get", "reset")
EVENT = dict(
    max=psrpcore.SetMaxRunspacesEvent,
    min=psrpcore.SetMinRunspacesEvent,
    get=psrpcore.GetAvailableRunspacesEvent,
    reset=psrpcore.ResetRunspaceStateEvent,
)


def ask(client, kind, value):
    if kind == "max":
        return client.set_max_runspaces(value)
    if kind == "min":
        return client.set_min_runspaces(value)
    return client.get_available_runspaces() if kind == "get" else client.reset_runspace_state()


def limits(pool):
    return [pool.min_runspaces, pool.max_runspaces]


def same(v, a, b):
    return v.all([x == y for x, y in zip(a, b)])


@harness(
    quick=[dict(kinds=k) for k in itertools.product(KINDS, repeat=2)] + [dict(kinds=("max", "max", "max")), dict(kinds=("max", "get", "min"))],
    thorough=[dict(kinds=k) for k in itertools.product(KINDS, repeat=2)] + [dict(kinds=k) for k in itertools.product(KINDS, repeat=3)],
    bounds="two (and some, thorough all, three) requests in flight of every kind, answered in every order with either outcome or any count; two: any Int32, three: limits and counts in [10, 99]",
)
def requests(v, kinds):
    lo, hi = (2, I32[1]) if len(kinds) < 3 else (10, 99)
    client, server = opened_pair(min_runspaces=1, max_runspaces=1)
    start = limits(client)
    asked = []
    for i, kind in enumerate(kinds):
        value = v.int("value%d" % i, lo, hi)
        asked.append((kind, value, ask(client, kind, value)))
    cis = [ci for _, _, ci in asked]
    v.check(len(set(cis)) == len(cis), "requests in flight have different call ids")
    got = send(client, server)
    v.check(len(got) == len(asked), "each request arrives")
    for e, (kind, value, ci) in zip(got, asked):
        v.check(type(e) is EVENT[kind], "the request arrives as what it is")
        v.check(e.ci == ci, "under its call id")
        if kind in ("max", "min"):
            v.check(e.count == value, "with its value")
    v.check(same(v, limits(client), start) & same(v, limits(server), start), "no limit changes before the server has agreed")
    model = list(start)
    order = v.choice("order", list(itertools.permutations(range(len(asked)))))
    for n, i in enumerate(order):
        kind, value, ci = asked[i]
        if kind == "get":
            answer = v.int("count%d" % i, *(I32 if len(kinds) < 3 else (lo, hi)))
        else:
            answer = v.flag("ok%d" % i)
            if answer and kind in ("max", "min"):
                model[kind == "max"] = value
        server.runspace_availability_response(ci, answer)
        v.check(same(v, limits(server), model), "the server's limits are those it agreed to, in the order it agreed")
        back = send(server, client)
        v.check(len(back) == 1 and back[0].ci == ci, "the answer names the request it is for")
        e = back[0]
        if kind == "get":
            v.check(type(e) is psrpcore.GetRunspaceAvailabilityEvent, "a count arrives as a count")
            v.check(e.count == answer, "with its value")
        else:
            v.check(type(e) is psrpcore.SetRunspaceAvailabilityEvent, "an outcome arrives as an outcome")
            v.check(e.success == answer, "with its value")
        v.check(same(v, limits(client), model), "the client's limits are those the server agreed to, in that order")
    for ci in cis:
        v.check(raises(lambda: server.runspace_availability_response(ci, True), psrpcore.PSRPCoreError), "a request is answered only once")
    v.check(server.data_to_send() is None and same(v, limits(server), model), "answering again has no effect")


@harness(
    quick=[dict(kind=k) for k in KINDS],
    bounds="an answer with any call id in [-2^31, 2^31) to one request in flight",
)
def unknown_call(v, kind):
    client, server = opened_pair()
    real = ask(client, kind, 7)
    send(client, server)
    before = limits(server)
    ci = v.int("ci", *I32)
    answer = 5 if kind == "get" else True
    try:
        server.runspace_availability_response(ci, answer)
        v.check(ci == real, "only a request that was made is answered")
    except psrpcore.PSRPCoreError:
        v.check((ci == real) == False, "a request that was made is answered")
        v.check(server.data_to_send() is None and limits(server) == before, "a refused answer has no effect")
        server.runspace_availability_response(real, answer)
        v.check(len(send(server, client)) == 1, "the request itself can still be answered")


@harness(
    quick=[dict(kind=k) for k in KINDS],
    bounds="every Int32, both booleans, a string and None as the answer to each kind of request",
)
def answer_type(v, kind):
    client, server = opened_pair()
    ci = ask(client, kind, 7)
    send(client, server)
    before = limits(server)
    shape = v.choice("shape", ["int", "true", "false", "str", "none"])
    answer = {"int": v.int("n", *I32), "true": True, "false": False, "str": "1", "none": None}[shape]
    good = shape == "int" if kind == "get" else shape in ("true", "false")
    refused = raises(lambda: server.runspace_availability_response(ci, answer), psrpcore.PSRPCoreError)
    v.check(refused == (not good), "a count is answered with an integer, anything else with a boolean")
    if refused:
        v.check(server.data_to_send() is None and limits(server) == before, "a refused answer has no effect")
        # answered properly afterwards, it takes effect as if the mistake had not been made
        shape, answer = ("int", 5) if kind == "get" else v.choice("then", [("true", True), ("false", False)])
        server.runspace_availability_response(ci, answer)
    got = send(server, client)
    v.check(len(got) == 1, "the answer goes out once")
    want = dict(max=[before[0], 7], min=[7, before[1]]).get(kind, before) if shape == "true" else before
    v.check(limits(server) == want and limits(client) == want, "an accepted limit is the limit of both sides, a refused one of neither")
    v.check(raises(lambda: server.runspace_availability_response(ci, answer), psrpcore.PSRPCoreError), "it can be answered once only")


PLACES = ("pool", "one", "two")


@harness(
    quick=[dict(places=p) for p in itertools.product(PLACES, repeat=2)],
    thorough=[dict(places=p) for p in itertools.product(PLACES, repeat=2)] + [dict(places=p) for p in itertools.product(PLACES, repeat=3)],
    bounds="two (thorough also three) host calls in flight for the pool and two pipelines, answered in every order, with any one character text or an error",
)
def host_calls(v, places):
    client, server = opened_pair()
    pids = dict(pool=None, one=PID, two=PID2)
    remote, local = {}, {}
    for n in ("one", "two"):
        remote[n] = psrpcore.ServerPipeline(server, pids[n])
        local[n] = psrpcore.ClientPowerShell(client, pipeline_id=pids[n])
        remote[n].state = local[n].state = PSInvocationState.Running
    calls = []
    for i, n in enumerate(places):
        ci = (server if n == "pool" else remote[n]).host_call(HostMethodIdentifier.ReadLine)
        calls.append((n, ci, v.str("s%d" % i, 1, PRINTABLE)))
    cis = [c[1] for c in calls]
    v.check(len(set(cis)) == len(cis), "calls in flight have different call ids")
    got = send(server, client)
    v.check(len(got) == len(calls), "each call arrives")
    for e, (n, ci, s) in zip(got, calls):
        v.check(type(e) is (psrpcore.RunspacePoolHostCallEvent if n == "pool" else psrpcore.PipelineHostCallEvent), "as a call of the pool or a pipeline")
        v.check(e.ci == ci and e.pipeline_id == pids[n], "under its call id and pipeline")
        v.check(e.method_identifier == HostMethodIdentifier.ReadLine, "with its method")
    for i in v.choice("order", list(itertools.permutations(range(len(calls))))):
        n, ci, s = calls[i]
        fail = v.flag("error%d" % i)
        target = client if n == "pool" or v.flag("through_pool%d" % i) else local[n]
        if fail:
            target.host_response(ci, error_record=ErrorRecord(Exception=NETException("no"), CategoryInfo=ErrorCategoryInfo()))
        else:
            target.host_response(ci, return_value=s)
        back = send(client, server)
        v.check(len(back) == 1, "one response per call")
        e = back[0]
        v.check(
            type(e) is (psrpcore.RunspacePoolHostResponseEvent if n == "pool" else psrpcore.PipelineHostResponseEvent),
            "a response is for the pool or the pipeline, as the call was",
        )
        v.check(e.ci == ci and e.pipeline_id == pids[n], "the response names the call and pipeline it is for")
        v.check(e.method_identifier == HostMethodIdentifier.ReadLine, "and the method called")
        if fail:
            v.check(e.error.Exception.Message == "no" and e.result is None, "an error arrives as the error")
        else:
            v.check(e.result == s, "a result arrives unchanged")
            v.check(e.error is None, "without an error")
        v.check(raises(lambda: target.host_response(ci, return_value="again"), KeyError, psrpcore.PSRPCoreError), "a call is responded to once")
        v.check(client.data_to_send() is None, "a second response is not queued")


@harness(bounds="a response with any call id to one host call in flight")
def unknown_host_call(v):
    client, server = opened_pair()
    real = server.host_call(HostMethodIdentifier.ReadLine)
    send(server, client)
    ci = v.int("ci", -200, I32[1])
    try:
        client.host_response(ci, return_value="x")
        v.check(ci == real, "only a call that was made is responded to")
    except (KeyError, psrpcore.PSRPCoreError):
        v.check((ci == real) == False, "a call that was made is responded to")
        v.check(client.data_to_send() is None, "nothing is queued")
        client.host_response(real, return_value="x")
        v.check(len(send(client, server)) == 1, "the call itself can still be responded to")


@harness(bounds="every host method: whether its call expects a response")
def void_calls(v):
    client, server = opened_pair()
    m = v.choice("method", list(HostMethodIdentifier))
    a = server.host_call(HostMethodIdentifier.ReadLine)
    ci = server.host_call(m) if m.name not in PARAMS else server.host_call(m, PARAMS[m.name])
    b = server.host_call(HostMethodIdentifier.ReadLine)
    v.check((ci == -100) == (m.name in VOID), "a method without result carries the call id of no call")
    v.check((ci == -100) | ((ci != a) & (ci != b)), "a method with a result carries a call id of its own")
    got = send(server, client)
    v.check(len(got) == 3 and got[1].ci == ci and got[1].method_identifier == m, "the call arrives")
    if m.name in VOID:
        v.check(raises(lambda: client.host_response(ci, return_value="x"), KeyError, psrpcore.PSRPCoreError), "no response is due")
        v.check(client.data_to_send() is None, "none is queued")
    else:
        client.host_response(ci, return_value=None)
        v.check(len(sent_messages(client)) == 1, "a response is due")


# [MS-PSRP] 2.2.3.17: methods without a return value
VOID = set(
    "SetShouldExit EnterNestedPrompt ExitNestedPrompt NotifyBeginApplication NotifyEndApplication Write1 Write2 WriteLine1 WriteLine2 "
    "WriteLine3 WriteErrorLine WriteDebugLine WriteProgress WriteVerboseLine WriteWarningLine SetForegroundColor SetBackgroundColor "
    "SetCursorPosition SetWindowPosition SetCursorSize SetBufferSize SetWindowSize SetWindowTitle FlushInputBuffer "
    "SetBufferContents1 SetBufferContents2 ScrollBufferContents PushRunspace PopRunspace".split()
)
PARAMS = {}
