"""Integer and character types: range enforcement and type-preserving round trips."""
import enum

from vx.api import SCALAR, harness

from plib import raises, rt, serialize
from psrpcore.types import (
    PSByte,
    PSChar,
    PSInt,
    PSInt16,
    PSInt64,
    PSSByte,
    PSUInt,
    PSUInt16,
    PSUInt64,
)

TYPES = {
    "PSByte": (PSByte, 0, 2**8 - 1, "By"),
    "PSSByte": (PSSByte, -(2**7), 2**7 - 1, "SB"),
    "PSInt16": (PSInt16, -(2**15), 2**15 - 1, "I16"),
    "PSUInt16": (PSUInt16, 0, 2**16 - 1, "U16"),
    "PSInt": (PSInt, -(2**31), 2**31 - 1, "I32"),
    "PSUInt": (PSUInt, 0, 2**32 - 1, "U32"),
    "PSInt64": (PSInt64, -(2**63), 2**63 - 1, "I64"),
    "PSUInt64": (PSUInt64, 0, 2**64 - 1, "U64"),
}
BIG = 2**70
EACH = [dict(t=t) for t in TYPES]


@harness(quick=EACH, bounds="every integer in [-2^70, 2^70], each integer type")
def range_and_round_trip(v, t):
    cls, lo, hi, tag = TYPES[t]
    n = v.int("n", -BIG, BIG)
    try:
        x = cls(n)
    except ValueError:
        v.check((n < lo) | (n > hi), "an in-range value is accepted")
        return
    v.check((n >= lo) & (n <= hi), "an out-of-range value is refused")
    v.check(x == n, "construction keeps the value")
    e = serialize(x)
    v.check(e.tag == tag, "the element names the type")
    y = rt(x)
    v.check(type(y) is cls, "the type survives the round trip")
    v.check(y == n, "the value survives the round trip")


@harness(quick=[dict(form=f) for f in ("str", "int")], bounds="every integer in [-2^70, 2^70]; one character over all Unicode scalar values")
def char_type(v, form):
    if form == "int":
        n = v.int("n", -BIG, BIG)
        arg, want, ok = n, n, (n >= 0) & (n <= 0xFFFF)
    else:
        s = v.str("s", 1, SCALAR)
        arg, want = s, ord(s)
        ok = want <= 0xFFFF
    try:
        x = PSChar(arg)
    except ValueError:
        v.check(ok == False, "an in-range character is accepted")
        return
    v.check(ok, "a character beyond UTF-16 is refused")
    v.check(int(x) == want, "construction keeps the code unit")
    y = rt(x)
    v.check(type(y) is PSChar, "the character type survives the round trip")
    v.check(int(y) == want, "the code unit survives the round trip")


@harness(bounds="every plain Python int in [-2^63, 2^64]")
def plain_int(v):
    n = v.int("n", -(2**63), 2**63 - 1)
    e = serialize(n)
    small = (n >= -(2**31)) & (n <= 2**31 - 1)
    if small:
        v.check(e.tag == "I32", "an int that fits 32 bits is an Int32")
    else:
        v.check(e.tag == "I64", "an int that needs more is an Int64")
    v.check(rt(n) == n, "a plain int survives the round trip")


@harness(quick=EACH, bounds="every value of each type")
def text_form(v, t):
    cls, lo, hi, tag = TYPES[t]
    n = v.int("n", lo, hi)
    v.check(serialize(cls(n)).text == str(n), "the element text is the decimal value")
    v.check(cls(str(n)) == n, "a decimal string constructs the value")


@harness(
    quick=[dict(t=t, u=u) for t, u in (("PSByte", "PSInt64"), ("PSSByte", "PSByte"), ("PSInt16", "PSUInt16"), ("PSUInt", "PSInt"), ("PSInt64", "PSUInt64"), ("PSUInt64", "PSSByte"))],
    thorough=[dict(t=t, u=u) for t in TYPES for u in TYPES],
    bounds="every value of one integer type converted to another (quick: six pairs; thorough: all)",
)
def conversion(v, t, u):
    cls, lo, hi, _ = TYPES[t]
    other, lo2, hi2, _ = TYPES[u]
    n = v.int("n", lo2, hi2)
    try:
        x = cls(other(n))
    except ValueError:
        v.check((n < lo) | (n > hi), "an in-range value converts")
        return
    v.check((n >= lo) & (n <= hi), "an out-of-range value does not convert")
    v.check((type(x) is cls) & (x == n), "conversion keeps the value and gives the type asked for")


@harness(
    quick=[dict(t=t) for t in ("PSByte", "PSInt16", "PSInt", "PSUInt64")],
    thorough=EACH,
    bounds="the edges of each type and the values next to them, as the value of an enum member",
)
def from_enum(v, t):
    cls, lo, hi, _ = TYPES[t]
    n = v.choice("n", [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1])
    m = enum.Enum("E", {"member": n}).member
    try:
        x = cls(m)
    except ValueError:
        v.check(n < lo or n > hi, "an in-range enum value is accepted")
        return
    v.check(lo <= n <= hi, "an out-of-range enum value is refused")
    v.check(type(x) is cls and x == n, "the member's value is taken")


OPS = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul3": lambda a, b: a * 3,
    "floordiv7": lambda a, b: a // 7,
    "mod7": lambda a, b: a % 7,
    "divmod7": lambda a, b: divmod(a, 7),
    "divmod-1": lambda a, b: divmod(a, -1),
    "divmod-7": lambda a, b: divmod(a, -7),
    "floordiv-1": lambda a, b: a // -1,
    "mod-7": lambda a, b: a % -7,
    "mul-1": lambda a, b: a * -1,
    "mul0": lambda a, b: a * 0,
    "add-1": lambda a, b: a + -1,
    "sub-1": lambda a, b: a - -1,
    "pow0": lambda a, b: a**0,
    "pow1": lambda a, b: a**1,
    "neg": lambda a, b: -a,
    "pos": lambda a, b: +a,
    "abs": lambda a, b: abs(a),
    "invert": lambda a, b: ~a,
    "lshift1": lambda a, b: a << 1,
    "rshift1": lambda a, b: a >> 1,
    "lshift0": lambda a, b: a << 0,
    "rshift9": lambda a, b: a >> 9,
}


@harness(
    quick=[dict(t=t, op=o) for o in OPS for t in ("PSByte", "PSInt", "PSInt64", "PSUInt16", "PSSByte")],
    thorough=[dict(t=t, op=o) for o in OPS for t in TYPES],
    bounds="+, - with any value of the type; * 3, 0, -1; //, %, divmod by 7, -7, -1; ** 0, 1; + -1, - -1; << 0, 1; >> 1, 9; negation, abs, ~ of every value",
)
def arithmetic(v, t, op):
    cls, lo, hi, _ = TYPES[t]
    a, b = v.int("a", lo, hi), v.int("b", lo, hi)
    want = OPS[op](a, b)
    f = want[0] if op.startswith("divmod") else want
    try:
        r = OPS[op](cls(a), cls(b))
    except ValueError:
        v.check((f < lo) | (f > hi), "a result in range is given")
        return
    q = r[0] if op.startswith("divmod") else r
    v.check((f >= lo) & (f <= hi), "a result out of range is refused")
    v.check((type(q) is cls) & (q == f), "the result is exact and keeps the type")
    if op.startswith("divmod"):
        v.check(r[1] == want[1], "the remainder is exact")


SMALL = {
    "floordiv": lambda a, b: a // b,
    "mod": lambda a, b: a % b,
    "divmod": lambda a, b: divmod(a, b)[0],
    "remainder": lambda a, b: divmod(a, b)[1],
    "mul": lambda a, b: a * b,
    "square": lambda a, b: a**2,
    "cube": lambda a, b: a**3,
    "lshift": lambda a, b: a << b,
    "rshift": lambda a, b: a >> b,
}


@harness(
    quick=[dict(t=t, op=o) for o in SMALL for t in ("PSByte", "PSSByte")],
    thorough=[dict(t=t, op=o) for o in SMALL for t in ("PSByte", "PSSByte", "PSUInt16", "PSInt16")],
    bounds="*, //, %, divmod of any value of an 8 bit (thorough 16 bit) type by any of -5..5, its square and cube, and its shift by 0..9; by an int or a number of the same type",
)
def two_operands(v, t, op):
    cls, lo, hi, _ = TYPES[t]
    a = v.int("a", lo, hi)
    b = v.length("b", 0, 9) if op.endswith("shift") else v.length("b", max(lo, -5), 5)
    same = v.flag("same")
    if b == 0 and not op.endswith("shift") and op not in ("mul", "square", "cube"):
        v.check(raises(lambda: SMALL[op](cls(a), cls(b) if same else b), ZeroDivisionError), "division by zero is refused")
        return
    want = SMALL[op](a, b)
    try:
        r = SMALL[op](cls(a), cls(b) if same else b)
    except ValueError:
        # divmod refuses either part that does not fit
        parts = [want] + (list(divmod(a, b)) if op in ("divmod", "remainder") else [])
        v.check(v.all([(x >= lo) & (x <= hi) for x in parts]) == False, "a result in range is given")  # noqa: E712
        return
    v.check((want >= lo) & (want <= hi), "a result out of range is refused")
    if op == "remainder":
        v.check(r == want, "the result is exact")
    else:
        v.check((type(r) is cls) & (r == want), "the result is exact and keeps the type")


BITS = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}


@harness(
    quick=[dict(t=t, op=o) for o in BITS for t in ("PSByte", "PSUInt16", "PSSByte", "PSInt16")],
    bounds="bitwise and, or, xor of any two values of an 8 or 16 bit type",
)
def bitwise(v, t, op):
    cls, lo, hi, _ = TYPES[t]
    a, b = v.int("a", lo, hi), v.int("b", lo, hi)
    r = BITS[op](cls(a), cls(b))
    v.check((type(r) is cls) & (r == BITS[op](a, b)), "the result is exact and keeps the type")
