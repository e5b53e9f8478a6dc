"""The wire layout: messages and fragments are laid out as MS-PSRP prescribes and decode to what was encoded."""
import uuid

from vx.api import harness

import psrpcore
from plib import NOPID, PID, RPID, be, drain, guid_le, le, wire_fragment
from psrpcore import _payload as pl
from psrpcore.types import PSRPMessageType

TYPES = list(PSRPMessageType)
# MS-PSRP 2.2.1 MessageType
SPEC = {
    "SessionCapability": 0x00010002,
    "InitRunspacePool": 0x00010004,
    "PublicKey": 0x00010005,
    "EncryptedSessionKey": 0x00010006,
    "PublicKeyRequest": 0x00010007,
    "ConnectRunspacePool": 0x00010008,
    "RunspacePoolInitData": 0x0002100B,
    "ResetRunspaceState": 0x0002100C,
    "SetMaxRunspaces": 0x00021002,
    "SetMinRunspaces": 0x00021003,
    "RunspaceAvailability": 0x00021004,
    "RunspacePoolState": 0x00021005,
    "CreatePipeline": 0x00021006,
    "GetAvailableRunspaces": 0x00021007,
    "UserEvent": 0x00021008,
    "ApplicationPrivateData": 0x00021009,
    "GetCommandMetadata": 0x0002100A,
    "RunspacePoolHostCall": 0x00021100,
    "RunspacePoolHostResponse": 0x00021101,
    "PipelineInput": 0x00041002,
    "EndOfPipelineInput": 0x00041003,
    "PipelineOutput": 0x00041004,
    "ErrorRecord": 0x00041005,
    "PipelineState": 0x00041006,
    "DebugRecord": 0x00041007,
    "VerboseRecord": 0x00041008,
    "WarningRecord": 0x00041009,
    "ProgressRecord": 0x00041010,
    "InformationRecord": 0x00041011,
    "PipelineHostCall": 0x00041100,
    "PipelineHostResponse": 0x00041101,
}


@harness(
    quick=[dict(n=n) for n in (0, 1, 4)],
    thorough=[dict(n=n) for n in (0, 1, 2, 3, 4, 8, 16)],
    bounds="every message type, either direction, every pool and pipeline GUID, every data of 0, 1 or 4 (thorough up to 16) bytes",
)
def message_layout(v, n):
    client = v.flag("client")
    t = v.choice("type", TYPES)
    rp, pp = v.bytes("rpid", 16), v.bytes("pid", 16)
    data = v.bytes("data", n)
    rpid, pid = uuid.UUID(bytes=rp), uuid.UUID(bytes=pp)
    m = pl.create_message(client, t, data, rpid, pid)
    v.check(v.eqbytes(m, le(2 if client else 1, 4) + le(SPEC[t.name], 4) + guid_le(rp) + guid_le(pp) + data), "the message bytes follow MS-PSRP 2.2.1")
    u = pl.unpack_message(bytearray(m))
    v.check(u.destination == (2 if client else 1), "the destination decodes")
    v.check(u.message_type is t, "the type decodes")
    v.check(u.rpid == rpid, "the pool id decodes")
    if pp == b"\x00" * 16:
        v.check(u.pid is None, "the nil pipeline id means none")
    else:
        v.check(u.pid == pid, "the pipeline id decodes")
    if data[:3] == b"\xef\xbb\xbf":
        v.check(v.eqbytes(u.data, data[3:]), "a byte order mark is not data")
    else:
        v.check(v.eqbytes(u.data, data), "the data decodes")


@harness(bounds="every message type, either direction, no pipeline")
def message_without_pipeline(v):
    t = v.choice("type", TYPES)
    client = v.flag("client")
    m = pl.create_message(client, t, b"", RPID)
    v.check(m[24:40] == b"\x00" * 16, "no pipeline is the nil id")
    v.check(pl.unpack_message(bytearray(m)).pid is None, "the nil id decodes as no pipeline")
    v.check(SPEC[t.name] == t.value, "message type numbers are MS-PSRP's")
    v.check(len(TYPES) == len(SPEC), "every message type is known")


@harness(
    quick=[dict(n=n) for n in (0, 1, 5)],
    thorough=[dict(n=n) for n in (0, 1, 2, 5, 16, 255, 256)],
    bounds="every object id and fragment id in [0, 2^64), start/end, every data of 0, 1 or 5 (thorough up to 256) bytes, any trailing data",
)
def fragment_layout(v, n):
    oid, fid = v.int("oid", 0, 2**64 - 1), v.int("fid", 0, 2**64 - 1)
    end = v.flag("end")
    data = v.bytes("data", n)
    f = pl.create_fragment(oid, fid, data, end)
    start = 1 if fid == 0 else 0
    v.check(v.eqbytes(f, be(oid, 8) + be(fid, 8) + bytes([start + (2 if end else 0)]) + be(n, 4) + data), "the fragment bytes follow MS-PSRP 2.2.4")
    u = pl.unpack_fragment(bytearray(f + v.bytes("rest", 2)))
    v.check(u.object_id == oid, "the object id decodes")
    v.check(u.fragment_id == fid, "the fragment id decodes")
    v.check(u.start == (start == 1), "the start mark decodes")
    v.check(u.end == end, "the end mark decodes")
    v.check(v.eqbytes(u.data, data), "exactly the fragment's own data decodes")


@harness(bounds="every flag byte: the reserved bits are ignored")
def reserved_bits(v):
    flags = v.int("flags", 0, 255)
    u = pl.unpack_fragment(bytearray(be(7, 8) + be(3, 8) + bytes([flags]) + be(2, 4) + b"xyz"))
    v.check(u.start == (flags % 2 == 1), "bit 0 is start")
    v.check(u.end == ((flags // 2) % 2 == 1), "bit 1 is end")
    v.check(v.eqbytes(u.data, b"xy"), "reserved bits do not affect the data")


@harness(bounds="every pool GUID, every pipeline GUID, client and server, one queued message")
def queued_message(v):
    client = v.flag("client")
    pp = v.bytes("pid", 16)
    v.assume(pp != b"\x00" * 16)
    if client:
        rp = v.bytes("rpid", 16)
        v.assume(rp != b"\x00" * 16)
        pool = psrpcore.ClientRunspacePool(runspace_pool_id=uuid.UUID(bytes=rp))
    else:
        rp = NOPID.bytes
        pool = psrpcore.ServerRunspacePool()
    pool.prepare_message(None, message_type=PSRPMessageType.PipelineOutput, pipeline_id=uuid.UUID(bytes=pp))
    out = drain(pool)
    v.check(len(out) == 1, "one message is one payload")
    v.check(out[0].pipeline_id == uuid.UUID(bytes=pp), "the payload names the pipeline")
    m = le(2 if client else 1, 4) + le(0x00041004, 4) + guid_le(rp) + guid_le(pp)
    v.check(v.eqbytes(out[0].data, wire_fragment(1, 0, True, m)), "the queued bytes follow MS-PSRP")
