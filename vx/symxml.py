"""Parser for XML text holding symbolic characters.

Markup produced by ElementTree is concrete; symbolic characters occur in
character data and attribute values, where a branch decides whether each is
'<', '&' or an invalid character.
"""
from __future__ import annotations

import xml.etree.ElementTree as ET

from . import values as V
from .values import elems, eqel, inset, is_sym, mkstr, vx_any

_NAME = set(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:.-"))
_ENT = {"amp": 38, "lt": 60, "gt": 62, "quot": 34, "apos": 39}


def parse(text):
    if not isinstance(text, str):
        cs = elems(text)
        if cs[:3] == [0xEF, 0xBB, 0xBF]:
            cs = cs[3:]
        text = mkstr(V._dec_elems(cs, "utf-8", "strict", text))
        if not is_sym(text):
            return ET.fromstring(text)
    cs = elems(text)
    p = Parser(cs, text)
    return p.document()


class Parser:
    def __init__(self, cs, text):
        self.cs = cs
        self.i = 0
        self.text = text

    def err(self):
        raise ET.ParseError("not well-formed (invalid token)")

    def is_(self, ch, k=0):
        j = self.i + k
        return j < len(self.cs) and bool(eqel(self.cs[j], ord(ch)))

    def looking(self, s):
        return all(self.is_(c, k) for k, c in enumerate(s))

    def ws(self):
        while self.i < len(self.cs) and vx_any([eqel(self.cs[self.i], c) for c in (32, 9, 10, 13)]):
            self.i += 1

    def name(self):
        out = []
        while self.i < len(self.cs):
            c = self.cs[self.i]
            if is_sym(c):
                c = V.iconc(V.realise(c))
            if c not in _NAME:
                break
            out.append(chr(c))
            self.i += 1
        if not out:
            self.err()
        return "".join(out)

    def entity(self):
        # at '&'
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.cs):
                self.err()
            c = self.cs[self.i]
            if is_sym(c):
                c = V.iconc(V.realise(c))
            self.i += 1
            if c == 59:
                break
            out.append(chr(c))
        n = "".join(out)
        if n in _ENT:
            return _ENT[n]
        if n.startswith("#x"):
            return int(n[2:], 16)
        if n.startswith("#"):
            return int(n[1:])
        self.err()

    def valid(self, c):
        if is_sym(c):
            return bool(vx_any([inset(c, lo, hi) for lo, hi in ((9, 10), (13, 13), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))]))
        return c in (9, 10, 13) or 0x20 <= c <= 0xD7FF or 0xE000 <= c <= 0xFFFD or 0x10000 <= c <= 0x10FFFF

    def document(self):
        self.ws()
        if self.looking("<?xml"):
            while not self.looking("?>"):
                self.i += 1
                if self.i >= len(self.cs):
                    self.err()
            self.i += 2
            self.ws()
        if not self.is_("<"):
            self.err()
        e = self.element()
        self.ws()
        if self.i != len(self.cs):
            self.err()
        return e

    def element(self):
        self.i += 1
        tag = self.name()
        attrib = {}
        while True:
            self.ws()
            if self.is_("/"):
                if not self.is_(">", 1):
                    self.err()
                self.i += 2
                return ET.Element(tag, attrib)
            if self.is_(">"):
                self.i += 1
                break
            n = self.name()
            if not self.is_("="):
                self.err()
            self.i += 1
            q = '"' if self.is_('"') else "'"
            if not self.is_(q):
                self.err()
            self.i += 1
            val = []
            while not self.is_(q):
                if self.i >= len(self.cs):
                    self.err()
                if self.is_("<"):
                    self.err()
                if self.is_("&"):
                    val.append(self.entity())
                    continue
                c = self.cs[self.i]
                if not self.valid(c):
                    self.err()
                if vx_any([eqel(c, k) for k in (9, 10, 13)]):
                    c = 32
                val.append(c)
                self.i += 1
            self.i += 1
            attrib[n] = mkstr(val)
        e = ET.Element(tag, attrib)
        last = None
        buf = []

        def flush():
            s = mkstr(buf) if buf else None
            if s is not None:
                if last is None:
                    e.text = s
                else:
                    last.tail = s

        while True:
            if self.i >= len(self.cs):
                self.err()
            if self.is_("<"):
                flush()
                buf = []
                if self.is_("/", 1):
                    self.i += 2
                    n = self.name()
                    if n != tag:
                        raise ET.ParseError("mismatched tag")
                    self.ws()
                    if not self.is_(">"):
                        self.err()
                    self.i += 1
                    return e
                last = self.element()
                e.append(last)
                continue
            if self.is_("&"):
                buf.append(self.entity())
                continue
            c = self.cs[self.i]
            if not self.valid(c):
                self.err()
            if eqel(c, 13):
                if self.is_("\n", 1):
                    self.i += 1
                c = 10
            buf.append(c)
            self.i += 1
