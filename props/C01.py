"""Whatever is queued arrives: fragmentation at any payload limits loses, reorders and mislabels nothing."""
from vx.api import PRINTABLE, harness

import psrpcore
from plib import NOPID, PID, PID2, RPID, drain, events, raises, split_fragments, wire_message
from psrpcore.types import PSRPMessageType

D, P = psrpcore.StreamType.default, psrpcore.StreamType.prompt_response
TARGETS = {"pool": None, "one": PID, "two": PID2}
INPUT = PSRPMessageType.PipelineInput
OUTPUT = PSRPMessageType.PipelineOutput


def queue(pool, client, target, stream, text, expect):
    """Queue one message through the public API, and note the message the peer must see."""
    pid = TARGETS[target]
    pool.prepare_message(text, message_type=INPUT if client else OUTPUT, pipeline_id=pid, stream_type=stream)
    data = b"" if text is None else b"<S>" + text.encode("utf-8") + b"</S>"
    mtype = 0x00041002 if client else 0x00041004
    expect.append((wire_message(2 if client else 1, mtype, RPID if client else NOPID, pid, data), pid, stream))


def make(client):
    return psrpcore.ClientRunspacePool(runspace_pool_id=RPID) if client else psrpcore.ServerRunspacePool()


class Decoder:
    """Independent reassembly of what was handed to the transport."""

    def __init__(self, v):
        self.v, self.open, self.done, self.seen = v, {}, [], []

    def take(self, p):
        v = self.v
        frags = split_fragments(p.data)
        v.check(len(frags) > 0, "a payload holds at least one fragment")
        for oid, fid, flag, data in frags:
            if oid not in self.open:
                v.check(oid not in self.seen, "object ids are never reused")
                self.seen.append(oid)
                self.open[oid] = [0, b"", []]
            st = self.open[oid]
            v.check(fid == st[0], "fragment ids count up from zero")
            v.check((flag & 1 == 1) == (st[0] == 0), "exactly the first fragment is marked start")
            v.check(flag < 4, "no other flag bit is set")
            st[0] += 1
            st[1] += data
            st[2].append((p.pipeline_id, p.stream_type))
            if flag & 2:
                self.done.append((st[1], st[2]))
                del self.open[oid]

    def finish(self, expect):
        v = self.v
        v.check(self.open == {}, "every message is finished when the queue is dry")
        v.check(len(self.done) == len(expect), "as many messages leave as were queued")
        for (data, labels), (want, pid, stream) in zip(self.done, expect):
            v.check(data == want, "messages leave unchanged and in the order queued")
            v.check(all(l == (pid, stream) for l in labels), "each payload names the pipeline and stream its data belongs to")


PAIRS = [("pool", "pool"), ("pool", "one"), ("one", "one"), ("one", "two")]


@harness(
    quick=[dict(a=a, b=b, client=c) for a, b in PAIRS for c in (False, True)],
    thorough=[dict(a=a, b=b, client=c, third=t) for a, b in PAIRS for c in (False, True) for t in ("none", "pool", "one", "two")],
    bounds="two (thorough three) queued messages of 40..50 bytes, every limit in [22, 2^31] used throughout, every pool/pipeline target pair, either stream type, client and server",
)
def steady_limit(v, a, b, client, third="none"):
    amount = v.int("amount", 22, 2**31)
    pool, expect = make(client), []
    queue(pool, client, a, v.choice("s1", [D, P]), None, expect)
    queue(pool, client, b, v.choice("s2", [D, P]), v.str("t", 2, ((0x61, 0x7A),)), expect)
    if third != "none":
        queue(pool, client, third, D, None, expect)
    dec = Decoder(v)
    for p in drain(pool, amount):
        v.check(len(p.data) <= amount, "a payload never exceeds the limit")
        dec.take(p)
    dec.finish(expect)


BIG = 2**31


@harness(
    quick=[dict(script=s) for s in ("qtqt", "qqtt", "qtqtt", "tqqt", "qqttt", "qqqtt")],
    thorough=[dict(script=s) for s in ("qtqt", "qqtt", "qtqtt", "qqttt", "qtqqt", "qtqtqt", "qqqtt", "ttqqt", "qqqttt", "qqtqtt", "qtqtqtt", "qqqqttt", "qqtttqt")],
    bounds="histories of queueing (targets pool / pipeline one / pipeline two) and taking payloads, every limit in [22, 2^31] chosen anew for each payload, then drained",
)
def changing_limits(v, script):
    pool, expect = make(True), []
    dec = Decoder(v)
    for i, op in enumerate(script):
        if op == "q":
            queue(pool, True, v.choice("to%d" % i, list(TARGETS)), D, None, expect)
        else:
            n = v.int("n%d" % i, 22, BIG)
            p = pool.data_to_send(n)
            if p is not None:
                v.check(len(p.data) <= n, "a payload never exceeds the limit given for it")
                dec.take(p)
    for p in drain(pool):
        dec.take(p)
    dec.finish(expect)


@harness(bounds="every limit in [-2^40, 21], which is refused and changes nothing; a queue of 0..2 messages")
def limit_too_small(v):
    n = v.int("n", -(2**40), 21)
    pool, expect = make(True), []
    for i in range(v.length("queued", 0, 2)):
        queue(pool, True, "one", D, None, expect)
    v.check(raises(lambda: pool.data_to_send(n), ValueError), "a limit that cannot hold a fragment is refused")
    dec = Decoder(v)
    for p in drain(pool):
        dec.take(p)
    dec.finish(expect)
    v.check(pool.data_to_send() is None, "a dry queue yields nothing")


@harness(
    quick=[dict(k=1, lo=22), dict(k=2, lo=40)],
    thorough=[dict(k=1, lo=22), dict(k=2, lo=22), dict(k=3, lo=30)],
    bounds="1 input (every limit in [22, 2^31]) or 2 inputs (every limit in [40, 2^31]; thorough 2 from 22 and 3 from 30) of one arbitrary printable character each, sent by a real client to a real server",
)
def client_to_server(v, k, lo):
    amount = v.int("amount", lo, 2**31)
    client, server = make(True), psrpcore.ServerRunspacePool()
    want = []
    for i in range(k):
        s = v.str("s%d" % i, 1, PRINTABLE)
        pid = v.choice("to%d" % i, [PID, PID2])
        want.append((pid, s))
        client.prepare_message(s, message_type=INPUT, pipeline_id=pid)
    got = []
    eager = v.flag("eager")
    for p in drain(client, amount):
        server.receive_data(p)
        if eager:
            got += events(server)
    got += events(server)
    v.check(len(got) == k, "one event per message")
    for e, (pid, s) in zip(got, want):
        v.check(e.message_type == INPUT, "the event has the message's type")
        v.check(e.pipeline_id == pid, "the event names the message's pipeline")
        v.check(e.runspace_pool_id == RPID, "the event names the message's pool")
        v.check(e.data == s, "the data arrives unchanged")


@harness(
    quick=[dict(n=7)],
    thorough=[dict(n=10)],
    bounds="7 (thorough 10) messages queued for the pool or a pipeline, the queue drained or not after each",
)
def long_run(v, n):
    client = v.flag("client")
    pool, expect = make(client), []
    dec = Decoder(v)
    for i in range(n):
        queue(pool, client, ("pool", "one", "two")[i % 3], D, None, expect)
        if v.flag("drain%d" % i):
            for p in drain(pool, 50):
                dec.take(p)
            v.check(len(dec.done) == len(expect), "draining empties the queue")
    for p in drain(pool):
        dec.take(p)
    dec.finish(expect)
