"""Opening and connecting brings both sides into the same opened state with each other's data."""
import psrpcore
from psrpcore.types import (
    ApartmentState,
    ConnectRunspacePool,
    ConsoleColor,
    Coordinates,
    HostDefaultData,
    HostInfo,
    PSInvocationState,
    PSThreadOptions,
    PSVersion,
    RunspacePoolState,
    Size,
)

from vx.api import PRINTABLE, harness

from plib import PID, RPID, deserialize, events, from_xml, payload, raises, send, sent_messages

S = RunspacePoolState
I32 = (-(2**31), 2**31 - 1)


def kinds(es):
    return [type(e) for e in es]


OPEN_TO_SERVER = [psrpcore.SessionCapabilityEvent, psrpcore.InitRunspacePoolEvent]
OPEN_TO_CLIENT = [psrpcore.SessionCapabilityEvent, psrpcore.ApplicationPrivateDataEvent, psrpcore.RunspacePoolStateEvent]
CONNECT_TO_SERVER = [psrpcore.SessionCapabilityEvent, psrpcore.ConnectRunspacePoolEvent]
CONNECT_TO_CLIENT = [
    psrpcore.SessionCapabilityEvent,
    psrpcore.RunspacePoolInitDataEvent,
    psrpcore.ApplicationPrivateDataEvent,
    psrpcore.RunspacePoolStateEvent,
]


def version(v, name):
    return PSVersion(major=v.int(name + "_major", 2, 9), minor=v.int(name + "_minor", 0, 9))


def same_version(a, b):
    return (a.major == b.major) & (a.minor == b.minor)


@harness(
    quick=[dict(what=w) for w in ("limits", "options", "arguments", "private", "capability", "polls")],
    bounds="opening with any Int32 limits; every thread option and apartment state; argument/private data entries of any Int32 and text, null, false, zero and empty; any protocol versions 2.0-9.9 of either side; events polled message by message",
)
def opening(v, what):
    lo = hi = 1
    if what == "limits":
        lo, hi = v.int("min", *I32), v.int("max", 1, 9)
        if v.flag("swap"):
            lo, hi = hi, lo
    opt = v.enum("opt", list(PSThreadOptions)) if what == "options" else PSThreadOptions.Default
    apt = v.enum("apt", list(ApartmentState)) if what == "options" else ApartmentState.Unknown
    text = v.str("text", 2, PRINTABLE) if what in ("arguments", "private") else "tt"
    n = v.int("n", *I32) if what in ("arguments", "private") else 7
    none = {"none": None, "no": False, "zero": 0, "empty": "", "": [], "dict": {}}
    args = dict({"key": text, "n": n, "deep": {"x": [n]}}, **none) if what == "arguments" else {}
    priv = dict({"key": text, "n": n, "deep": {"x": [n]}}, **none) if what == "private" else {"key": "k"}
    client = psrpcore.ClientRunspacePool(
        application_arguments=args, apartment_state=apt, thread_options=opt, min_runspaces=lo, max_runspaces=hi, runspace_pool_id=RPID
    )
    server = psrpcore.ServerRunspacePool(application_private_data=priv)
    if what == "capability":
        client.our_capability.protocolversion = version(v, "client")
        server.our_capability.protocolversion = version(v, "server")
    client.open()
    v.check(client.state == S.Opening, "the client is opening")
    if what == "polls":
        # payload by payload, the server polled after each, its answers given back at once or later
        got, back = [], []
        amount = v.choice("amount", [200, 1000, 5000])
        eager = v.flag("eager")
        while True:
            p = client.data_to_send(amount)
            if p is None:
                break
            server.receive_data(p)
            v.check(server.state != S.Opened, "the server is not open before the client's request is complete")
            got += events(server)
            if eager:
                back += send(server, client, 100)
        back += send(server, client, 100)
    else:
        got = send(client, server)
        v.check(client.state == S.Opening, "the client is not open before the server says so")
        back = send(server, client)
    v.check(kinds(got) == OPEN_TO_SERVER, "the server sees the capability and the request, in order")
    v.check(kinds(back) == OPEN_TO_CLIENT, "the client sees the capability, the private data and the state, in order")
    v.check(server.state == S.Opened and client.state == S.Opened, "both sides are open")
    v.check(server.runspace_pool_id == RPID and client.runspace_pool_id == RPID, "both sides agree on the pool id")
    v.check(all(e.runspace_pool_id == RPID and e.pipeline_id is None for e in got + back[1:]), "every event names the pool and no pipeline")
    # (the capability is answered before the server has taken on the pool id)
    v.check(client.data_to_send() is None and server.data_to_send() is None, "nothing is left to be sent")
    v.check((server.min_runspaces == lo) & (server.max_runspaces == hi), "the server has the client's limits")
    v.check((client.min_runspaces == lo) & (client.max_runspaces == hi), "the client keeps its limits")
    v.check((got[1].min_runspaces == lo) & (got[1].max_runspaces == hi), "the event has the client's limits")
    v.check((server.thread_options == opt) & (server.apartment_state == apt), "the server has the client's thread options and apartment state")
    v.check(same_version(server.their_capability.protocolversion, client.our_capability.protocolversion), "the server has the client's capability")
    v.check(same_version(client.their_capability.protocolversion, server.our_capability.protocolversion), "the client has the server's capability")
    v.check(
        client.their_capability.PSVersion == server.our_capability.PSVersion
        and client.their_capability.SerializationVersion == server.our_capability.SerializationVersion
        and server.their_capability.PSVersion == client.our_capability.PSVersion
        and server.their_capability.SerializationVersion == client.our_capability.SerializationVersion,
        "with all of its versions",
    )
    if what == "arguments":
        a = server.application_arguments
        v.check(list(a.keys()) == ["key", "n", "deep"] + list(none), "the server has the client's arguments")
        v.check([a[k] for k in none] == list(none.values()) and a["no"] is False and a["none"] is None, "null, false and empty ones too")
        v.check((a["key"] == text) & (a["n"] == n) & (a["deep"]["x"][0] == n), "with their values")
    else:
        v.check(len(server.application_arguments) == 0, "no arguments were given")
    p = client.application_private_data
    if what == "private":
        v.check((p["key"] == text) & (p["n"] == n) & (p["deep"]["x"][0] == n), "the client has the server's private data")
        v.check([p[k] for k in none] == list(none.values()) and p["no"] is False and p["none"] is None, "null, false and empty entries too")
    else:
        v.check(p["key"] == "k", "the client has the server's private data")
    v.check(p["PSVersionTable"]["PSRemotingProtocolVersion"] == PSVersion("2.3"), "the private data tells the protocol version")
    v.check(server.host.IsHostNull and server.host.IsHostUINull, "without a host the server knows there is none")


def disconnected(**kw):
    client = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, **kw)
    server = psrpcore.ServerRunspacePool(application_private_data={"key": "k"})
    client.open()
    send(client, server)
    send(server, client)
    server.disconnect()
    client.disconnect()
    return client, server


@harness(
    quick=[dict(fresh=f) for f in (False, True)],
    bounds="reconnecting to a disconnected pool of any Int32 limits, by the client that disconnected or a new one",
)
def connecting(v, fresh):
    lo, hi = v.int("min", *I32), v.int("max", 1, 9)
    client, server = disconnected(min_runspaces=lo, max_runspaces=hi)
    pipe = psrpcore.ServerPipeline(server, PID)
    pipe.state = PSInvocationState.Running
    if fresh:
        client = psrpcore.ClientRunspacePool(runspace_pool_id=RPID)
    server.connect()
    v.check(server.state == S.Connecting, "the server waits for the client")
    client.connect()
    v.check(client.state == S.Connecting, "the client is connecting")
    got = send(client, server)
    v.check(kinds(got) == CONNECT_TO_SERVER, "the server sees the capability and the request, in order")
    v.check(client.state == S.Connecting, "the client is not connected before the server says so")
    back = send(server, client)
    v.check(kinds(back) == CONNECT_TO_CLIENT[1:], "the client sees limits, private data and state, in order")
    v.check(server.state == S.Opened and client.state == S.Opened, "both sides are open")
    v.check((server.min_runspaces == lo) & (server.max_runspaces == hi), "the server keeps its limits")
    v.check((client.min_runspaces == lo) & (client.max_runspaces == hi), "the client has the server's limits")
    v.check(client.application_private_data["key"] == "k", "the client has the server's private data")
    v.check(server.pipeline_table.get(PID) is pipe and pipe.state == PSInvocationState.Running, "the server's pipelines survive")
    v.check(client.data_to_send() is None and server.data_to_send() is None, "nothing is left to be sent")


@harness(
    quick=[dict(names=n) for n in ("", "min", "max", "minmax")],
    bounds="reconnecting with a connection that names neither limit, one or both (Int32 but 0) to a pool of limits 3 and 10..99",
)
def named_limits(v, names):
    have = v.int("have", 10, 99)
    client, server = disconnected(min_runspaces=3, max_runspaces=have)
    lo = v.int("min", *I32) if "min" in names else None
    hi = v.int("max", 1, 9) if "max" in names else None
    if lo is not None:
        # 0 stands for a limit that is not named
        v.assume(lo != 0)
    server.connect()
    client.state = S.Connecting
    client.prepare_message(client.our_capability)
    client.prepare_message(ConnectRunspacePool(MinRunspaces=lo, MaxRunspaces=hi))
    got = send(client, server)
    v.check(kinds(got) == CONNECT_TO_SERVER, "the server sees the capability and the request, in order")
    v.check(got[1].min_runspaces == lo and got[1].max_runspaces == hi, "the request names what was given")
    lo, hi = 3 if lo is None else lo, have if hi is None else hi
    v.check(server.min_runspaces == lo, "the server takes the minimum named, or keeps its own")
    v.check(server.max_runspaces == hi, "the server takes the maximum named, or keeps its own")
    back = send(server, client)
    v.check(kinds(back) == CONNECT_TO_CLIENT[1:], "the client sees limits, private data and state, in order")
    v.check((client.min_runspaces == lo) & (client.max_runspaces == hi), "both sides have the same limits")
    v.check(server.state == S.Opened and client.state == S.Opened, "both sides are open")


@harness(
    quick=[dict(names=n) for n in ("", "min", "max", "minmax")],
    bounds="the request of a connection that names neither limit, one or both (any Int32 but 0)",
)
def request_layout(v, names):
    lo = v.int("min", *I32) if "min" in names else None
    hi = v.int("max", *I32) if "max" in names else None
    for x in (lo, hi):
        if x is not None:
            v.assume(x != 0)
    client, _ = disconnected()
    client.state = S.Connecting
    client.prepare_message(ConnectRunspacePool(MinRunspaces=lo, MaxRunspaces=hi))
    ((_, _, _, _, xml),) = sent_messages(client)
    raw = deserialize(from_xml(xml))
    if not names:
        v.check(isinstance(raw, str) and raw == "", "a request that names no limit is an empty text")
        return
    want = dict(min=dict(MinRunspaces=lo), max=dict(MaxRunspaces=hi), minmax=dict(MinRunspaces=lo, MaxRunspaces=hi))[names]
    v.check(sorted(p.name for p in raw.PSObject.extended_properties) == sorted(want), "exactly the limits named are written")
    v.check(v.all([getattr(raw, n) == w for n, w in want.items()]), "under their names")


@harness(bounds="a connection for any other pool id (all 2^128) to a disconnected pool")
def wrong_pool(v):
    import uuid

    client, server = disconnected()
    rpid = uuid.UUID(bytes=v.bytes("rpid", 16))
    stranger = psrpcore.ClientRunspacePool(runspace_pool_id=rpid)
    stranger.connect()
    server.connect()
    server.receive_data(stranger.data_to_send())
    try:
        server.next_event()
        v.check(rpid == RPID, "a connection for another pool is refused")
    except psrpcore.PSRPCoreError:
        v.check((rpid == RPID) == False, "a connection for this pool is accepted")
        v.check(server.runspace_pool_id == RPID, "the pool keeps its id")
        v.check(server.state == S.Connecting, "the pool is not opened")
        v.check(server.data_to_send() is None, "nothing is answered")


@harness(
    quick=[dict(what=w) for w in ("flags", "colors", "sizes", "title", "nodata")],
    bounds="every host flag combination, colour, cursor size and coordinate (Int32), and window title of two characters",
)
def host_info(v, what):
    i = (lambda n: v.int(n, *I32)) if what == "sizes" else (lambda n: len(n))
    f = v.bool if what == "flags" else (lambda n: False)
    colors = [v.enum(n, list(ConsoleColor)) if what == "colors" else ConsoleColor.Blue for n in ("fg", "bg")]
    title = v.str("title", 2, PRINTABLE) if what == "title" else "tt"
    data = HostDefaultData(
        ForegroundColor=colors[0],
        BackgroundColor=colors[1],
        CursorPosition=Coordinates(X=i("x"), Y=1),
        WindowPosition=Coordinates(X=2, Y=3),
        CursorSize=4,
        BufferSize=Size(Width=5, Height=6),
        WindowSize=Size(Width=7, Height=i("height")),
        MaxWindowSize=Size(Width=9, Height=10),
        MaxPhysicalWindowSize=Size(Width=11, Height=12),
        WindowTitle=title,
    )
    flags = [f(n) for n in ("a", "b", "c", "d")]
    host = HostInfo(
        IsHostNull=flags[0], IsHostUINull=flags[1], IsHostRawUINull=flags[2], UseRunspaceHost=flags[3], HostDefaultData=None if what == "nodata" else data
    )
    client = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, host=host)
    server = psrpcore.ServerRunspacePool()
    client.open()
    send(client, server)
    h = server.host
    v.check(
        (h.IsHostNull == flags[0]) & (h.IsHostUINull == flags[1]) & (h.IsHostRawUINull == flags[2]) & (h.UseRunspaceHost == flags[3]),
        "the server knows which parts of the host there are",
    )
    if what == "nodata":
        v.check(h.HostDefaultData is None, "without default data there is none")
        return
    d = h.HostDefaultData
    v.check((d.ForegroundColor == colors[0]) & (d.BackgroundColor == colors[1]), "the colours arrive")
    v.check((d.CursorPosition.X == data.CursorPosition.X) & (d.CursorPosition.Y == 1), "the cursor position arrives")
    v.check((d.WindowPosition.X == 2) & (d.WindowPosition.Y == 3), "the window position arrives")
    v.check(d.CursorSize == 4, "the cursor size arrives")
    v.check((d.BufferSize.Width == 5) & (d.BufferSize.Height == 6), "the buffer size arrives")
    v.check((d.WindowSize.Width == 7) & (d.WindowSize.Height == data.WindowSize.Height), "the window size arrives")
    v.check((d.MaxWindowSize.Width == 9) & (d.MaxWindowSize.Height == 10), "the maximum window size arrives")
    v.check((d.MaxPhysicalWindowSize.Width == 11) & (d.MaxPhysicalWindowSize.Height == 12), "the maximum physical window size arrives")
    v.check(d.WindowTitle == title, "the title arrives")


@harness(
    quick=[dict(full=f) for f in (True, False)],
    bounds="the host information a client opens a pool with, any colour and 10-99 sizes: names, the type name and value of each of the ten entries (MS-PSRP 2.2.3.14)",
)
def host_layout(v, full):
    fg = v.enum("fg", list(ConsoleColor)) if full else None
    x, h, size = [v.int(n, 10, 99) for n in ("x", "h", "size")]
    data = HostDefaultData(
        ForegroundColor=ConsoleColor.Red if fg is None else fg,
        BackgroundColor=ConsoleColor.Blue,
        CursorPosition=Coordinates(X=x, Y=1),
        WindowPosition=Coordinates(X=2, Y=3),
        CursorSize=size,
        BufferSize=Size(Width=5, Height=6),
        WindowSize=Size(Width=7, Height=h),
        MaxWindowSize=Size(Width=9, Height=10),
        MaxPhysicalWindowSize=Size(Width=11, Height=12),
        WindowTitle="tt",
    )
    client = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, host=HostInfo(False, False, False, False, data if full else None))
    client.open()
    raw = deserialize(from_xml(sent_messages(client)[1][4])).HostInfo
    names = ["_isHostNull", "_isHostUINull", "_isHostRawUINull", "_useRunspaceHost"] + (["_hostDefaultData"] if full else [])
    v.check(sorted(p.name for p in raw.PSObject.extended_properties) == sorted(names), "the names of the host information")
    if not full:
        return
    d = raw._hostDefaultData
    v.check([p.name for p in d.PSObject.extended_properties] == ["data"], "the host's default data is its table")
    v.check(sorted(d.data) == list(range(10)), "a table of ten numbered entries")
    position, area = ("Coordinates", ("x", "y")), ("Size", ("width", "height"))
    want = [
        ("System.ConsoleColor", None, fg.value),
        ("System.ConsoleColor", None, ConsoleColor.Blue.value),
        position + ((x, 1),),
        position + ((2, 3),),
        ("System.Int32", None, size),
        area + ((5, 6),),
        area + ((7, h),),
        area + ((9, 10),),
        area + ((11, 12),),
        ("System.String", None, "tt"),
    ]
    for i, (kind, fields, value) in enumerate(want):
        e = d.data[i]
        v.check(sorted(p.name for p in e.PSObject.extended_properties) == ["T", "V"], "an entry is a type and a value")
        v.check(e.T == (kind if fields is None else "System.Management.Automation.Host." + kind), "the type of an entry")
        if fields is None:
            v.check(e.V == value, "the value of an entry")
        else:
            v.check(sorted(p.name for p in e.V.PSObject.extended_properties) == sorted(fields), "the names of a structure")
            v.check(e.V.PSObject.type_names in (["System.Object"], []), "a structure has no type name")
            v.check(v.all([getattr(e.V, f) == w for f, w in zip(fields, value)]), "the numbers of a structure")
