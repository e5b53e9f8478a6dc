"""Reassembly: a message is delivered exactly when its fragments arrived complete and in order, however they were chunked and interleaved."""
from vx.api import PRINTABLE, harness

import psrpcore
from plib import PID, PID2, RPID, events, payload, wire_fragment, wire_message
from psrpcore import PSRPCoreError
from psrpcore.types import PSRPMessageType

OUT, IN = 0x00041004, 0x00041002


def receiver(client):
    return psrpcore.ClientRunspacePool(runspace_pool_id=RPID) if client else psrpcore.ServerRunspacePool()


def message(client, pid, text):
    data = b"" if text is None else b"<S>" + text.encode("utf-8") + b"</S>"
    return wire_message(1 if client else 2, OUT if client else IN, RPID, pid, data)


def same(v, e, client, pid, text):
    v.check(e.message_type == (PSRPMessageType.PipelineOutput if client else PSRPMessageType.PipelineInput), "the event is of the message's type")
    v.check(e.pipeline_id == pid, "the event is for the message's pipeline")
    v.check(e.runspace_pool_id == RPID, "the event is for the message's pool")
    v.check(e.data == text, "the event carries the message's data")


@harness(
    quick=[dict(client=c, cuts=k) for c in (False, True) for k in (1, 2)],
    thorough=[dict(client=c, cuts=k) for c in (False, True) for k in (1, 2, 3)],
    bounds="two messages of arbitrary printable text, one in two fragments split anywhere, delivered as a byte stream cut at up to 2 (thorough 3) arbitrary positions with events polled at any of the cuts",
)
def chunking(v, client, cuts):
    pool = receiver(client)
    t1, t2 = v.str("t1", 1, PRINTABLE[0:1]), v.str("t2", 1, ((0x61, 0x7A),))
    # '<' and '&' are markup; they never occur raw in element text
    v.assume((t1 != "<") & (t1 != "&"))
    m1, m2 = message(client, PID, t1), message(client, PID2, t2)
    at = v.int("split", 1, len(m1) - 1)
    stream = wire_fragment(1, 0, False, m1[:at]) + wire_fragment(1, 1, True, m1[at:]) + wire_fragment(2, 0, True, m2)
    total = 3 * 21 + len(m1) + len(m2)
    got, prev = [], 0
    for i in range(cuts):
        c = v.int("cut%d" % i, 0, total)
        v.assume(c >= prev)
        pool.receive_data(payload(stream[prev:c]))
        if v.flag("poll%d" % i):
            got += events(pool)
        prev = c
    pool.receive_data(payload(stream[prev:]))
    got += events(pool)
    v.check(len(got) == 2, "chunking neither loses nor invents events")
    same(v, got[0], client, PID, t1)
    same(v, got[1], client, PID2, t2)


ORDERS = ["aabb", "abab", "abba", "baab", "baba", "bbaa"]


@harness(
    quick=[dict(order=o, ids=i) for o in ORDERS for i in ((1, 2), (2, 1), (7, 2**64 - 1))],
    thorough=[dict(order=o, ids=i) for o in ORDERS + ["aaabb", "abaab", "ababa", "babaa", "abbaa", "aabba"] for i in ((1, 2), (2, 1), (0, 7), (7, 2**64 - 1))],
    bounds="two messages for different targets, each in two (thorough three) fragments split anywhere, every interleaving, increasing, decreasing and extreme object ids, events polled at any time",
)
def interleaving(v, order, ids):
    client = v.flag("client")
    pool = receiver(client)
    ms = {"a": (PID, v.str("ta", 1, ((0x61, 0x7A),))), "b": (None, v.str("tb", 1, ((0x61, 0x7A),)))}
    frags = {}
    for j, k in enumerate("ab"):
        pid, t = ms[k]
        m = message(client, pid, t)
        n = order.count(k)
        cut = [0]
        for i in range(n - 1):
            c = v.int("cut%s%d" % (k, i), 0, len(m))
            v.assume(c >= cut[-1])
            cut.append(c)
        frags[k] = [wire_fragment(ids[j], i, i == n - 1, m[cut[i] : cut[i + 1]] if i < n - 1 else m[cut[i] :]) for i in range(n)]
    done, got = [], []
    for i, k in enumerate(order):
        pool.receive_data(payload(frags[k].pop(0)))
        if not frags[k]:
            done.append(k)
        if v.flag("poll%d" % i):
            got += events(pool)
            v.check(len(got) == len(done), "a message is delivered as soon as it is complete, not before")
    got += events(pool)
    v.check(len(got) == 2, "interleaving neither loses nor invents events")
    for e, k in zip(got, done):
        same(v, e, client, ms[k][0], ms[k][1])


@harness(
    quick=[dict(n=1), dict(n=2), dict(n=3)],
    thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)],
    bounds="a message in up to 3 (thorough 4) fragments whose fragment ids are arbitrary 64-bit numbers, followed by an intact message",
)
def wrong_sequence(v, n):
    client = v.flag("client")
    pool = receiver(client)
    m = message(client, PID, None)
    m2 = message(client, PID2, "z")
    step = len(m) // n
    ids = [v.int("fid%d" % i, 0, 2**64 - 1) for i in range(n)]
    got, failed = [], False
    for i in range(n):
        data = m[i * step :] if i == n - 1 else m[i * step : (i + 1) * step]
        pool.receive_data(payload(wire_fragment(9, ids[i], i == n - 1, data, start=i == 0)))
        try:
            got += events(pool)
        except PSRPCoreError:
            v.check(ids[i] != i, "a fragment in sequence is accepted")
            failed = True
            break
        v.check(ids[i] == i, "a missing, repeated or reordered fragment is reported")
    pool.receive_data(payload(wire_fragment(10, 0, True, m2)))
    got += events(pool)
    v.check(len(got) == (1 if failed else 2), "a message is delivered exactly when all its fragments came in sequence")
    if not failed:
        same(v, got[0], client, PID, None)
    same(v, got[-1], client, PID2, "z")


@harness(bounds="a fragment lost, repeated or swapped at any place in two interleaved three-fragment messages, delivered 1, 2, 3 or all at a time")
def faulty_transport(v):
    pool = receiver(True)
    a, b = message(True, PID, "first"), message(True, PID2, "second")
    fa = [wire_fragment(1, i, i == 2, a[i * 20 : (i + 1) * 20] if i < 2 else a[40:]) for i in range(3)]
    fb = [wire_fragment(2, i, i == 2, b[i * 20 : (i + 1) * 20] if i < 2 else b[40:]) for i in range(3)]
    seq = [fa[0], fb[0], fa[1], fb[1], fa[2], fb[2]]
    fault = v.choice("fault", ["drop", "repeat", "swap"])
    at = v.length("at", 0, 5)
    hit = "first" if at % 2 == 0 else "second"
    if fault == "drop":
        seq = seq[:at] + seq[at + 1 :]
        lost = True
    elif fault == "repeat":
        seq = seq[: at + 1] + seq[at:]
        # a repeated final fragment arrives after the message is complete
        lost = at < 4
    else:
        v.assume(at < 4)
        seq[at], seq[at + 2] = seq[at + 2], seq[at]
        lost = True
    got, errors = [], 0
    # the same fragments may come in one payload each, several at a time, or all at once
    size = v.choice("size", [1, 2, 3, 7])
    for f in [b"".join(seq[i : i + size]) for i in range(0, len(seq), size)]:
        pool.receive_data(payload(f))
        for _ in range(20):
            try:
                e = pool.next_event()
            except PSRPCoreError:
                errors += 1
                continue
            if e is None:
                break
            got.append(e.data)
    other = "second" if hit == "first" else "first"
    v.check(other in got, "a fault in one message leaves the others intact")
    if fault == "repeat":
        v.check(errors >= 1, "a repeated fragment is reported")
        v.check(got.count(hit) == 1, "a message is delivered once")
    else:
        v.check(got.count(hit) == 0, "an incomplete or reordered message is not delivered")
        v.check(errors >= 1 or (fault == "drop" and at >= 4), "a gap is reported as soon as it shows")
    v.check(len(got) == got.count("first") + got.count("second"), "nothing else is delivered")


@harness(
    quick=[dict(n=3)],
    thorough=[dict(n=3), dict(n=4)],
    bounds="3 (thorough 4) messages of one fragment each in one payload cut anywhere, any of them with a fragment id of 0, 1, 2, 256, 2^63 or 2^64-1",
)
def wrong_in_batch(v, n):
    client = v.flag("client")
    pool = receiver(client)
    names = ["k%d" % i for i in range(n)]
    bad = v.length("bad", 0, n - 1)
    fid = v.choice("fid", [0, 1, 2, 256, 2**63, 2**64 - 1])
    stream = b""
    for i, t in enumerate(names):
        stream += wire_fragment(20 + i, fid if i == bad else 0, True, message(client, PID, t), start=True)
    at = v.int("at", 0, len(stream))
    got, errors = [], 0
    for part in (stream[:at], stream[at:]):
        pool.receive_data(payload(part))
        for _ in range(2 * n):
            try:
                e = pool.next_event()
            except PSRPCoreError:
                errors += 1
                continue
            if e is None:
                break
            got.append(e.data)
    if fid == 0:
        v.check(errors == 0 and got == names, "intact messages in one payload are all delivered")
    else:
        v.check(errors == 1, "a fragment out of sequence is reported once")
        v.check(got == names[:bad] + names[bad + 1 :], "the messages before and after it in the same payload are delivered")
