"""Durations: every .NET TimeSpan survives the wire exactly, in the xs:duration form MS-PSRP prescribes."""
import datetime

from vx.api import harness

from plib import deserialize, from_xml, rt, serialize, to_xml
from psrpcore.types import PSDuration

MAXT = 9223372036854775807
DAY = 864000000000


def total_ns(d):
    return ((d.days * 86400 + d.seconds) * 1000000 + d.microseconds) * 1000 + getattr(d, "nanoseconds", 0)


def read(text):
    """xs:duration -> ticks, independently."""
    sign, i = 1, 0
    if text[0] == "-":
        sign, i = -1, 1
    if text[i] != "P":
        return None
    total, num, frac, time = 0, None, None, False
    for c in text[i + 1 :]:
        if c == "T":
            time = True
        elif c == ".":
            frac = [0, 0]
        elif c == "D" or c == "H" or c == "M" or c == "S":
            unit = {"D": 864000000000, "H": 36000000000, "M": 600000000, "S": 10000000}[c if isinstance(c, str) else c]
            if num is None:
                return None
            total = total + num * unit
            if frac is not None:
                if c != "S":
                    return None
                total = total + frac[0] * 10 ** (7 - frac[1])
            num, frac = None, None
        else:
            d = ord(c) - 48
            if frac is not None:
                frac = [frac[0] * 10 + d, frac[1] + 1]
            else:
                num = (0 if num is None else num) * 10 + d
    return sign * total


# seconds and below (a day), with days outside: the split is at the day boundary in the code as in xs:duration
@harness(
    quick=[dict(neg=n) for n in (False, True)],
    bounds="every duration of less than a day at 100 ns resolution, either sign",
)
def within_a_day(v, neg):
    t = v.int("ticks", 0, DAY - 1)
    if neg:
        t = -t
    d = PSDuration(nanoseconds=t * 100)
    e = serialize(d)
    v.check(e.tag == "TS", "a duration is a TimeSpan")
    y = rt(d)
    v.check(type(y) is PSDuration, "the type survives")
    v.check(total_ns(y) == t * 100, "a duration survives to the tick")


@harness(
    quick=[dict(part=p) for p in ("days", "hours", "minutes", "seconds", "fraction", "mixed")],
    bounds="every TimeSpan in its whole range that is: whole days; whole hours; whole minutes; whole seconds within a day; a fraction of a second; days (any) plus a fraction of a second",
)
def written_form(v, part):
    if part == "days":
        t = v.int("n", -10675199, 10675199) * DAY
    elif part == "hours":
        t = v.int("n", -200, 200) * 36000000000
    elif part == "minutes":
        t = v.int("n", -3000, 3000) * 600000000
    elif part == "seconds":
        t = v.int("n", -100000, 100000) * 10000000
    elif part == "fraction":
        t = v.int("n", -9999999, 9999999)
    else:
        t = v.int("d", 0, 10675198) * DAY + v.int("n", 0, 9999999)
    text = serialize(PSDuration(nanoseconds=t * 100)).text
    v.check(read(text) == t, "the text is the xs:duration of the value")


@harness(
    quick=[dict(sign=1 if k % 2 else -1, k=k) for k in range(8)],
    thorough=[dict(sign=s, k=k) for s in (1, -1) for k in range(8)],
    bounds="every TimeSpan from MinValue to MaxValue (9223372036854775807 ticks), one job per number of digits of the days (quick: alternating signs; thorough: both)",
)
def whole_range(v, sign, k):
    lo = 10**k * DAY
    t = v.int("ticks", lo, min(lo * 10 - 1, MAXT)) * sign
    y = rt(PSDuration(nanoseconds=t * 100))
    v.check(total_ns(y) == t * 100, "every TimeSpan survives to the tick")


@harness(
    quick=[dict(lo=0, hi=0)],
    thorough=[dict(lo=0, hi=0), dict(lo=-1, hi=-1), dict(lo=1, hi=9), dict(lo=-10, hi=-2), dict(lo=10, hi=99), dict(lo=1000000, hi=9999999)],
    bounds="every Python timedelta of less than a day (thorough: day counts -10..99 and 10^6..10^7-1), every second and microsecond",
)
def python_timedelta(v, lo, hi):
    d, s, us = v.int("days", lo, hi), v.int("seconds", 0, 86399), v.int("us", 0, 999999)
    x = datetime.timedelta(days=d, seconds=s, microseconds=us)
    y = rt(x)
    v.check(type(y) is PSDuration, "a timedelta comes back as the duration type")
    v.check(total_ns(y) == ((d * 86400 + s) * 1000000 + us) * 1000, "a timedelta survives to the microsecond")
    v.check(y == x, "and equals the original")


@harness(
    quick=[dict(hi=10**9)],
    thorough=[dict(hi=10**9), dict(hi=864000000000000)],
    bounds="every number of nanoseconds in a second (thorough: a day), either sign",
)
def sub_tick(v, hi):
    n = v.int("ns", -hi, hi)
    y = rt(PSDuration(nanoseconds=n))
    v.check((total_ns(y) - n <= 100) & (n - total_ns(y) <= 100), "what cannot be carried is less than a tick")


FORMS = ["P%dD", "PT%dH", "PT%dM", "PT%dS", "-P%dD", "-PT%dM"]
UNIT = [86400, 3600, 60, 1, -86400, -60]


@harness(quick=[dict(i=i) for i in range(len(FORMS))], bounds="every single-unit xs:duration with a count up to 10^6 (as other implementations write them)")
def foreign_forms(v, i):
    n = v.int("n", 0, 10**6)
    y = deserialize(from_xml(("<TS>" + FORMS[i] % n + "</TS>").encode("utf-8")))
    v.check(total_ns(y) == n * UNIT[i] * 10**9, "any xs:duration a peer writes is read exactly")


@harness(quick=[dict(k=k) for k in range(1, 8)], bounds="every fraction of 1..7 digits")
def fraction_digits(v, k):
    n = v.int("n", 0, 10**k - 1)
    s = v.int("s", 0, 59)
    text = "PT" + str(s) + "." + str(n).rjust(k, "0") + "S"
    y = deserialize(from_xml(("<TS>" + text + "</TS>").encode("utf-8")))
    v.check(total_ns(y) == s * 10**9 + n * 10 ** (9 - k), "fractions of any length are read exactly")


@harness(
    quick=[dict(k=k, d=d) for k in (0, 1, 7) for d in (3, 6, 9, 12)],
    thorough=[dict(k=k, d=d) for k in range(8) for d in range(1, 13)],
    bounds="a duration written in seconds alone, 3, 6, 9 or 12 (thorough: 1..12) digits of them, with 0, 1 or 7 (thorough: 0..7) fraction digits",
)
def only_seconds(v, k, d):
    n = v.int("n", 0, 10**k - 1) if k else 0
    s = v.int("s", 10 ** (d - 1), min(10**d - 1, MAXT // 10**7 - 1))
    text = "PT" + str(s) + ("." + format(n, "0%dd" % k) if k else "") + "S"
    y = deserialize(from_xml(("<TS>" + text + "</TS>").encode("utf-8")))
    v.check(total_ns(y) == s * 10**9 + n * 10 ** (9 - k), "a number of seconds of any size is read exactly")


@harness(bounds="a duration with minutes, seconds and their fraction absent or present, each below 10^4, and an empty whole part of the seconds")
def absent_parts(v):
    d, h, m, s, f = (v.choice(c, [False, True]) for c in "dhmsf")
    v.assume(d or h or m or s)
    nd, nh, nm, ns = (v.int("n" + c, 0, 99) for c in "dhms")
    frac = v.int("frac", 0, 99)
    text = "P" + (str(nd) + "D" if d else "")
    if h or m or s:
        text = text + "T" + (str(nh) + "H" if h else "") + (str(nm) + "M" if m else "")
        if s:
            text = text + str(ns) + ("." + format(frac, "02d") if f else "") + "S"
    y = deserialize(from_xml(("<TS>" + text + "</TS>").encode("utf-8")))
    total = (nd if d else 0) * 86400 + (nh if h else 0) * 3600 + (nm if m else 0) * 60 + (ns if s else 0)
    v.check(total_ns(y) == total * 10**9 + (frac * 10**7 if s and f else 0), "absent parts count for nothing")
