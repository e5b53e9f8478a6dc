"""Secure strings only cross the wire encrypted with the exchanged session key."""
import base64

import psrpcore
from cryptography.hazmat.primitives.asymmetric import rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from psrpcore import _crypto
from psrpcore.types import ErrorRecord, PSInvocationState, PSRPMessageType, PSSecureString

from vx.api import SCALAR, UNICODE, harness

from plib import PID, drain, events, from_xml, opened_pair, raises, send, sent_messages

BMP = ((0x1000, 0x7FFF),)
INPUT, OUTPUT = PSRPMessageType.PipelineInput, PSRPMessageType.PipelineOutput


def pipelines(client, server):
    a, b = psrpcore.ClientPowerShell(client, pipeline_id=PID), psrpcore.ServerPipeline(server, PID)
    a.state = b.state = PSInvocationState.Running
    return a, b


def exchange(v, client, server, asked_by):
    if asked_by == "client":
        client.exchange_key()
    else:
        server.request_key()
        got = send(server, client)
        v.check([type(e) for e in got] == [psrpcore.PublicKeyRequestEvent], "the client sees the request")
    got = send(client, server)
    v.check([type(e) for e in got] == [psrpcore.PublicKeyEvent], "the server sees the client's public key")
    got = send(server, client)
    v.check([type(e) for e in got] == [psrpcore.EncryptedSessionKeyEvent], "the client sees the session key")
    v.check(client.data_to_send() is None and server.data_to_send() is None, "the exchange is complete")


def wrap(shape, s):
    if shape == "value":
        return s
    if shape == "list":
        return ["a", s]
    if shape == "entry":
        return {"k": s}
    o = psrpcore.types.PSObject() if hasattr(psrpcore.types, "PSObject") else None
    psrpcore.types.add_note_property(o, "Secret", s)
    return o


def unwrap(shape, x):
    if shape == "value":
        return x
    if shape == "list":
        return x[1]
    if shape == "entry":
        return x["k"]
    return x.Secret


SHAPES = ("value", "list", "entry", "property")


@harness(
    quick=[dict(n=n, shape=s) for n in (0, 2) for s in SHAPES],
    bounds="every secret of 0 or 2 code points sent by a client before any key exchange, by itself or within a list, dictionary or object; every way of sending",
)
def no_key(v, n, shape):
    client, server = opened_pair()
    a, b = pipelines(client, server)
    a.send("before")
    secret = PSSecureString(v.str("s", n, UNICODE))
    how = v.choice("how", ["send", "argument", "host"])
    if how == "send":
        f = lambda: a.send(wrap(shape, secret))
    elif how == "argument":
        other = psrpcore.ClientPowerShell(client)
        psrpcore.ServerPipeline(server, other.pipeline_id)
        other.add_command("c").add_parameter("p", wrap(shape, secret))
        f = other.start
    else:
        ci = server.host_call(psrpcore.types.HostMethodIdentifier.ReadLine)
        send(server, client)
        f = lambda: client.host_response(ci, return_value=wrap(shape, secret))
    v.check(raises(f, psrpcore.MissingCipherError), "without a session key a secure string is refused")
    got = sent_messages(client)
    v.check(len(got) == 1 and got[0][1] == INPUT, "nothing of it is queued")
    if how == "argument":
        v.check(other.state == PSInvocationState.NotStarted, "the pipeline is not started")
    exchange(v, client, server, "client")
    f()
    v.check(len(send(client, server)) == 1, "once the key is exchanged it can be sent")


def same(v, a, b):
    """The same UTF-16 text: a str can also hold the two halves of a surrogate pair apart."""
    return v.eqbytes(a.encode("utf-16-le", "surrogatepass"), b.encode("utf-16-le", "surrogatepass"))


def expected_text(cipher, secret):
    """AES-256-CBC with a zero IV of the PKCS7 padded UTF-16LE text, in base64 (MS-PSRP 2.2.5.1.24)"""
    data = secret.encode("utf-16-le", "surrogatepass")
    k = 16 - len(data) % 16
    data = data + bytes([k] * k)
    e = cipher.encryptor()
    return base64.b64encode(e.update(data) + e.finalize()).decode()


@harness(
    quick=[dict(n=n, asked_by=("client", "server")[n & 1], shape=s) for n in (0, 1, 2) for s in SHAPES] + [dict(n=n, asked_by="client", shape="value") for n in (7, 8, 9, 32)],
    thorough=[dict(n=n, asked_by=w, shape=s) for n in (0, 1, 2, 3, 7, 8, 9, 16) for w in ("client", "server") for s in SHAPES] + [dict(n=n, asked_by="server", shape="value") for n in (32, 64)],
    bounds="every secret of 0 to 2 (thorough: 3) code points, of 7 to 9, 32 or (thorough) 16, 64 characters in U+1000..U+7FFF, both directions, the key asked for by either side",
)
def sealed(v, n, asked_by, shape):
    client, server = opened_pair()
    a, b = pipelines(client, server)
    exchange(v, client, server, asked_by)
    s = v.str("s", n, UNICODE if n < 4 else BMP)
    for src, dst, put in [(client, server, a.send), (server, client, b.write_output)]:
        secret = PSSecureString(s)
        put(wrap(shape, secret))
        payloads = drain(src)
        for p in payloads:
            dst.receive_data(p)
        got = events(dst)
        v.check(len(got) == 1, "the value arrives")
        y = unwrap(shape, got[0].data)
        v.check(type(y) is PSSecureString, "as a secure string")
        v.check(same(v, y.decrypt(), s), "which decrypts to what was sent")
        v.check(secret.decrypt() == s, "the sender's own value is untouched")
        # what crossed the wire
        raw = b"".join([p.data for p in payloads])
        i = raw.index(b"<SS")
        j = raw.index(b">", i) + 1
        k = raw.index(b"</SS>", j)
        key = getattr(server, "_session_key", None)  # not part of what is promised: without it the wire's text is left unchecked
        v.check(key is None or raw[j:k].decode() == expected_text(Cipher(algorithms.AES(key), modes.CBC(b"\x00" * 16)), s), "the wire has the encrypted text")
        mark = PSSecureString("?" * n)
        put(wrap(shape, mark))
        ref = b"".join([p.data for p in drain(src)])
        i2 = ref.index(b"<SS")
        j2 = ref.index(b">", i2) + 1
        k2 = ref.index(b"</SS>", j2)
        v.check((raw[21:j] == ref[21:j2]) & (raw[k:] == ref[k2:]), "nothing else on the wire depends on the secret")


@harness(
    quick=[dict(n=n) for n in (1, 2)],
    thorough=[dict(n=n) for n in (1, 2, 3)],
    bounds="every secret of 1 or 2 (thorough: 3) code points received from one pool and sent on to another with a key of its own, or back",
)
def passed_on(v, n):
    client, server = opened_pair()
    a, b = pipelines(client, server)
    exchange(v, client, server, "client")
    s = v.str("s", n, UNICODE if n < 4 else BMP)
    b.write_output(PSSecureString(s))
    x = send(server, client)[0].data
    if v.flag("other"):
        client2, server2 = opened_pair()
        if hasattr(server2, "_session_key"):
            server2._session_key = bytes(range(32))
            server2._cipher.register_key(server2._session_key)
        a2, b2 = pipelines(client2, server2)
        exchange(v, client2, server2, "client")
    else:
        a2, client2, server2 = a, client, server
    a2.send(x)
    y = send(client2, server2)[0].data
    v.check(same(v, y.decrypt(), s), "a secure string received and sent on decrypts to the same text at the other end")


@harness(bounds="every secret of 2 code points: its repr and string form, and the repr of what holds it")
def not_shown(v):
    s, t = v.str("s", 2), "??"
    client, server = opened_pair()
    a, b = pipelines(client, server)
    x, y = PSSecureString(s), PSSecureString(t)
    v.check(repr(x) == repr(y) and str(x) == str(y), "the text does not depend on the secret")
    v.check(repr([x]) == repr([y]), "nor does the text of a list")


class FakePublic:
    def __init__(self, e, n):
        self.e, self.n = e, n

    def public_numbers(self):
        return self

    def public_key(self, *a):
        return self

    def encrypt(self, data, pad):
        self.seen = data
        return data[::-1] + b"\x01\x02"

    def decrypt(self, data, pad):
        if bytes(data[-2:]) != b"\x01\x02":
            raise ValueError("not the ciphertext")
        return data[:-2][::-1]


@harness(
    quick=[dict(n=16)],
    thorough=[dict(n=16), dict(n=48)],
    bounds="every RSA modulus made of 16 (thorough: 48) arbitrary bytes within 256, every 32 byte session key",
)
def key_blobs(v, n):
    # the top bit of a 2048 bit modulus is set
    body = b"\x81" + b"\x10" * (255 - n) + v.bytes("modulus", n)
    modulus = int.from_bytes(body, "big")
    key = v.bytes("key", 32)
    public = FakePublic(65537, modulus)
    private = FakePublic(65537, modulus)
    private.public_key = lambda *a: public
    keep = rsa.generate_private_key, rsa.RSAPublicNumbers
    try:
        rsa.generate_private_key = lambda *a, **k: private
        rsa.RSAPublicNumbers = FakePublic
        priv, blob = _crypto.create_keypair()
        # MS-PSRP 2.2.2.3: PUBLICKEYBLOB for RSA 2048, little endian
        v.check(
            v.eqbytes(blob, b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00\x01\x00\x01\x00" + body[::-1]),
            "the public key is sent in the layout MS-PSRP prescribes",
        )
        sealed_key = _crypto.encrypt_session_key(blob, key)
        v.check(v.eqbytes(sealed_key[:12], b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00"), "the session key is sent in the layout MS-PSRP prescribes")
        v.check(v.eqbytes(_crypto.decrypt_session_key(priv, sealed_key), key), "the client decrypts the server's session key")
    finally:
        rsa.generate_private_key, rsa.RSAPublicNumbers = keep
