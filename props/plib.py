"""Helpers shared by the harnesses: an independent statement of the MS-PSRP wire layout, and peers to talk to."""
import struct
import uuid
from xml.etree import ElementTree

import psrpcore
from psrpcore.types import PSCryptoProvider
from psrpcore.types import deserialize as _deserialize
from psrpcore.types import serialize as _serialize

RPID = uuid.UUID("11112222-3333-4444-5555-666677778888")
PID = uuid.UUID("aaaabbbb-cccc-dddd-eeee-ffff00001111")
PID2 = uuid.UUID("0a0b0c0d-0102-0304-0506-0708090a0b0c")
NOPID = uuid.UUID(int=0)


class Marked(PSCryptoProvider):
    """A stand-in cipher whose ciphertext is recognisable; injective, so a lost character shows."""

    def encrypt(self, value):
        return "".join(["%04x" % ord(c) for c in value])

    def decrypt(self, value):
        return "".join([chr(int(value[i : i + 4], 16)) for i in range(0, len(value), 4)])


CIPHER = Marked()


def serialize(value, cipher=CIPHER, **kw):
    return _serialize(value, cipher, **kw)


def deserialize(element, cipher=CIPHER, **kw):
    return _deserialize(element, cipher, **kw)


def to_xml(element):
    return ElementTree.tostring(element, encoding="utf-8", method="xml")


def from_xml(data):
    return ElementTree.fromstring(data)


def rt(value, **kw):
    """value -> element -> bytes -> element -> value"""
    return deserialize(from_xml(to_xml(serialize(value, **kw))), **kw)


def be(n, size):
    return n.to_bytes(size, "big")


def le(n, size):
    return n.to_bytes(size, "little")


def wire_fragment(oid, fid, end, data, start=None):
    """MS-PSRP 2.2.4"""
    flag = (1 if (fid == 0 if start is None else start) else 0) + (2 if end else 0)
    return be(oid, 8) + be(fid, 8) + bytes([flag]) + be(len(data), 4) + data


def guid_le(b16):
    """.NET layout of a GUID given its 16 big-endian bytes"""
    return b16[3::-1] + b16[5:3:-1] + b16[7:5:-1] + b16[8:]


def wire_message(dest, mtype, rpid, pid, data):
    """MS-PSRP 2.2.1"""
    return le(dest, 4) + le(mtype, 4) + guid_le(rpid.bytes) + guid_le((pid or NOPID).bytes) + data


def split_fragments(data):
    """Every fragment of a payload, parsed independently of the code under test."""
    out = []
    data = bytes(data)
    while data:
        oid = int.from_bytes(data[0:8], "big")
        fid = int.from_bytes(data[8:16], "big")
        flag = data[16]
        n = int.from_bytes(data[17:21], "big")
        if len(data) < 21 + n:
            raise ValueError("truncated fragment")
        out.append((oid, fid, flag, data[21 : 21 + n]))
        data = data[21 + n :]
    return out


def payload(data, pid=None, stream=None):
    return psrpcore.PSRPPayload(data, stream or psrpcore.StreamType.default, pid)


def drain(pool, amount=None):
    out = []
    for _ in range(200):
        p = pool.data_to_send() if amount is None else pool.data_to_send(amount)
        if p is None:
            return out
        out.append(p)
    raise ValueError("data_to_send never runs dry")


def events(pool):
    out = []
    for _ in range(200):
        e = pool.next_event()
        if e is None:
            return out
        out.append(e)
    raise ValueError("next_event never runs dry")


def send(src, dst, amount=None):
    """Everything src has queued, delivered to dst; dst's events."""
    for p in drain(src, amount):
        dst.receive_data(p)
    return events(dst)


def sent_messages(pool):
    """The queued messages, decoded independently: (destination, type, rpid bytes, pid bytes, xml)."""
    bufs, out = {}, []
    for p in drain(pool):
        for oid, fid, flag, data in split_fragments(p.data):
            bufs[oid] = bufs.get(oid, b"") + data
            if flag & 2:
                m = bufs.pop(oid)
                out.append((int.from_bytes(m[0:4], "little"), int.from_bytes(m[4:8], "little"), m[8:24], m[24:40], m[40:]))
    return out


def opened_pair(**kw):
    """A client and a server that have completed the opening handshake."""
    client = psrpcore.ClientRunspacePool(runspace_pool_id=RPID, **kw)
    server = psrpcore.ServerRunspacePool()
    client.open()
    send(client, server)
    send(server, client)
    return client, server


def raises(fn, *exc):
    """True when fn() raises one of exc; other exceptions propagate."""
    try:
        fn()
    except exc:
        return True
    return False
