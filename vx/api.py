"""The harness interface, usable both symbolically and on plain values (replay).

A harness is `fn(v, **case)`; `v` hands out inputs and takes assertions:

    n = v.int("n", 0, 100)          an integer in [0, 100]
    b = v.bytes("b", 4)             four arbitrary bytes
    s = v.str("s", 2)               two arbitrary characters
    k = v.choice("k", [a, b, c])    one of the given objects (case split)
    v.assume(cond); v.check(cond, "what must hold")

Every input is a named integer, so an assignment is a flat JSON object.
"""
from __future__ import annotations

UNICODE = ((0x0, 0x10FFFF),)
SCALAR = ((0x0, 0xD7FF), (0xE000, 0x10FFFF))
BMP = ((0x0, 0xFFFF),)
PRINTABLE = ((0x20, 0x7E),)


class CheckFailed(AssertionError):
    pass


class AssumeFailed(BaseException):
    pass


class Harness:
    def __init__(self, fn, quick, thorough, bounds, covers):
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.bounds = bounds
        self.covers = covers

    def cases(self, tier):
        c = self.thorough if tier == "thorough" and self.thorough is not None else self.quick
        return c


def harness(quick=({},), thorough=None, bounds="", covers=()):
    """Register a harness: one job per case (dict of keyword arguments)."""

    def deco(fn):
        fn.__globals__.setdefault("HARNESSES", []).append(
            Harness(fn, [dict(c) for c in quick], None if thorough is None else [dict(c) for c in thorough], bounds, covers)
        )
        return fn

    return deco


class Base:
    symbolic = False

    def length(self, name, lo, hi):
        """An integer that is case-split immediately (sizes, counts)."""
        return self.choice(name, list(range(lo, hi + 1)))

    def flag(self, name):
        """A case-split boolean (program structure, not data)."""
        return self.choice(name, [False, True])


class Replay(Base):
    """Plain values from an assignment; checks raise."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.labels = set()

    def _get(self, name, lo, hi):
        x = self.inputs.get(name)
        if x is None:
            x = max(lo, min(hi, 0))
        return max(lo, min(hi, int(x)))

    def int(self, name, lo, hi):
        return self._get(name, lo, hi)

    def bool(self, name):
        return self._get(name, 0, 1) == 1

    def bytes(self, name, n):
        return bytes([self._get("%s.%d" % (name, i), 0, 255) for i in range(n)])

    def str(self, name, n, ranges=UNICODE):
        out = []
        for i in range(n):
            c = self._get("%s.%d" % (name, i), ranges[0][0], ranges[-1][1])
            if not any(lo <= c <= hi for lo, hi in ranges):
                raise AssumeFailed()
            out.append(chr(c))
        return "".join(out)

    def choice(self, name, seq):
        seq = list(seq)
        return seq[self._get(name, 0, len(seq) - 1)]

    def enum(self, name, members):
        members = list(members)
        return members[self._get(name, 0, len(members) - 1)]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label):
        self.labels.add(label)
        if not cond:
            raise CheckFailed(label)

    def reach(self, label):
        self.labels.add(label)

    def all(self, conds):
        return all(conds)

    def eqbytes(self, a, b):
        return bytes(a) == bytes(b)
