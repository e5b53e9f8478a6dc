"""Stand-ins for the OpenSSL bindings, used while executing symbolically (replay uses the real library).

AES-CBC becomes an arbitrary-looking but invertible, key- and position-dependent byte substitution; PKCS7 padding is
modelled exactly; RSA is the real library on concrete values with one cached key pair.
"""
from __future__ import annotations

import os

import z3

from . import core
from . import values as V
from .shims import module_like





def _shift(data, key, sign):
    cs = V.elems(data)
    ks = [(k * 7 + 13 * i + 101) % 256 for i, k in enumerate((list(key) * (len(cs) // len(key) + 1))[: len(cs)])]
    out = []
    for c, k in zip(cs, ks):
        k = sign * k
        if not V.is_sym(c):
            out.append((c + k) % 256)
            continue
        e = V.iexpr(c)
        found = core.CTX.inverse.get((e.get_id(), k))
        if found is None:
            s, x = e + k, V._c(c) + k
            found = V.mkint(z3.If(s >= 256, s - 256, z3.If(s < 0, s + 256, s)), x % 256)
            # undone by looking up the term (kept alive by the entry)
            if V.is_sym(found):
                core.CTX.inverse[V.iexpr(found).get_id(), -k] = (c, V.iexpr(found))
            core.CTX.inverse[e.get_id(), k] = (found, e)
            out.append(found)
        else:
            out.append(found[0])
    return V.mkbytes(out)


class _Ctx:
    def __init__(self, f):
        self.f = f
        self.buf = None

    def update(self, data):
        self.buf = data if self.buf is None else V.VxBytes(self.buf) + data
        return b""

    def finalize(self):
        data = b"" if self.buf is None else self.buf
        return self.f(data)


class AES:
    block_size = 128

    def __init__(self, key):
        if len(key) not in (16, 24, 32):
            raise ValueError("Invalid key size (%d) for AES." % (len(key) * 8))
        self.key = bytes(V.plain(key))


class CBC:
    def __init__(self, iv):
        if bytes(iv) != b"\x00" * 16:
            raise ValueError("unexpected IV")
        self.iv = iv


class Cipher:
    def __init__(self, algorithm, mode, backend=None):
        if not isinstance(algorithm, AES) or not isinstance(mode, CBC):
            raise TypeError("only AES-CBC is modelled")
        self.key = algorithm.key

    def _block(self, data):
        if len(V.elems(data)) % 16:
            raise ValueError("The length of the provided data is not a multiple of the block length.")
        return data

    def encryptor(self):
        return _Ctx(lambda d: _shift(self._block(d), self.key, 1))

    def decryptor(self):
        return _Ctx(lambda d: _shift(self._block(d), self.key, -1))


def _pad(size):
    def f(data):
        cs = V.elems(data)
        n = size - len(cs) % size
        return V.mkbytes(list(cs) + [n] * n)

    return f


def _unpad(size):
    def f(data):
        cs = list(V.elems(data))
        if not cs or len(cs) % size:
            raise ValueError("Invalid padding bytes.")
        n = int(cs[-1])
        if n < 1 or n > size or not all(int(c) == n for c in cs[-n:]):
            raise ValueError("Invalid padding bytes.")
        return V.mkbytes(cs[:-n])

    return f


class PKCS7:
    def __init__(self, block_size):
        self.size = block_size // 8

    def padder(self):
        return _Ctx(_pad(self.size))

    def unpadder(self):
        return _Ctx(_unpad(self.size))


_KEYS = []


def install(replaced):
    import cryptography.hazmat.primitives.asymmetric as asym
    import cryptography.hazmat.primitives.ciphers as ciphers
    import cryptography.hazmat.primitives.padding as padding
    from cryptography.hazmat.primitives.asymmetric import rsa
    from cryptography.hazmat.primitives.asymmetric import padding as _  # noqa: F401  (attribute of asym)

    def generate_private_key(*a, **kw):
        if not _KEYS:
            _KEYS.append(rsa.generate_private_key(*a, **kw))
        return _KEYS[0]

    rsam = module_like(rsa, generate_private_key=generate_private_key)
    algs = module_like(ciphers.algorithms, AES=AES)
    modes = module_like(ciphers.modes, CBC=CBC)
    base = "cryptography.hazmat.primitives."
    replaced[base + "asymmetric"] = module_like(asym, rsa=rsam)
    replaced[base + "asymmetric.rsa"] = rsam
    replaced[base + "ciphers"] = module_like(ciphers, Cipher=Cipher, algorithms=algs, modes=modes)
    replaced[base + "ciphers.algorithms"] = algs
    replaced[base + "ciphers.modes"] = modes
    replaced[base + "padding"] = module_like(padding, PKCS7=PKCS7)
    replaced["os"] = module_like(os, urandom=lambda n: bytes((i * 37 + 11) % 256 for i in range(n)))
