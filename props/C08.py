"""Arithmetic and comparison of durations and date/times is exact to the nanosecond."""
import copy
import datetime
import operator

from vx.api import harness

from psrpcore.types import PSDateTime, PSDuration

from plib import raises

LIM = 9223372036854775807 * 100 // 4
DAYNS = 86400 * 10**9
UTC = datetime.timezone.utc


def ns(d):
    return ((d.days * 86400 + d.seconds) * 1000000 + d.microseconds) * 1000 + getattr(d, "nanoseconds", 0)


def instant(x):
    off = x.utcoffset()
    o = 0 if off is None else (off.days * 86400 + off.seconds) * 10**9
    return (((x.toordinal() * 24 + x.hour) * 60 + x.minute) * 60 + x.second) * 10**9 + x.microsecond * 1000 + getattr(x, "nanosecond", 0) - o


def duration(v, name, kind, lim=LIM):
    """A duration of symbolic length and that length in ns."""
    if kind == "ps":
        n = v.int(name, -lim, lim)
        return PSDuration(nanoseconds=n), n
    u = v.int(name, -lim // 1000, lim // 1000)
    return datetime.timedelta(microseconds=u), u * 1000


PAIRS = [("ps", "ps"), ("ps", "td"), ("td", "ps")]


@harness(
    quick=[dict(a=a, b=b, op=o) for a, b in PAIRS for o in ("+", "-")],
    bounds="sum and difference of any two durations of up to a quarter of the TimeSpan range, PSDuration with PSDuration and with timedelta on either side",
)
def duration_sums(v, a, b, op):
    x, n = duration(v, "a", a)
    y, m = duration(v, "b", b)
    r = x + y if op == "+" else x - y
    v.check(type(r) is PSDuration, "the result is a PSDuration")
    v.check(ns(r) == (n + m if op == "+" else n - m), "the result is exact to the nanosecond")
    v.check((0 <= r.nanoseconds) & (r.nanoseconds <= 999) & (0 <= r.microseconds) & (r.microseconds <= 999999), "the parts are normalised")


@harness(
    quick=[dict(a=a, b=b) for a, b in PAIRS],
    bounds="all six comparisons of any two durations of up to a quarter of the TimeSpan range",
)
def duration_order(v, a, b):
    x, n = duration(v, "a", a)
    y, m = duration(v, "b", b)
    v.check((x == y) == (n == m), "== compares to the nanosecond")
    v.check((x != y) == (n != m), "!= compares to the nanosecond")
    v.check((x < y) == (n < m), "< compares to the nanosecond")
    v.check((x <= y) == (n <= m), "<= compares to the nanosecond")
    v.check((x > y) == (n > m), "> compares to the nanosecond")
    v.check((x >= y) == (n >= m), ">= compares to the nanosecond")


@harness(bounds="negation, absolute value, truth, copies and parts of any duration of up to a quarter of the TimeSpan range")
def duration_unary(v):
    x, n = duration(v, "a", "ps")
    v.check(ns(x) == n, "a duration is as long as asked for")
    r = -x
    v.check((type(r) is PSDuration) & (ns(r) == -n), "negation is exact to the nanosecond")
    v.check(ns(+x) == n, "plus changes nothing")
    for c in (PSDuration(x), copy.copy(x), copy.deepcopy(x)):
        v.check((type(c) is PSDuration) & (ns(c) == n), "a copy is as long as the original")
    a = abs(x)
    v.check(type(a) is PSDuration, "the absolute value is a PSDuration")
    v.check((ns(a) == n) | (ns(a) == -n), "the absolute value is exact to the nanosecond")
    v.check(ns(a) >= 0, "the absolute value is not negative")
    v.check(bool(x) == (n != 0), "only a duration of no length is false")


@harness(bounds="a duration from days, hours, minutes, seconds, milliseconds, microseconds and nanoseconds, each within +-100000")
def duration_parts(v):
    k = 100000
    d, h, m, s = v.int("days", -k, k), v.int("hours", -k, k), v.int("minutes", -k, k), v.int("seconds", -k, k)
    ms, us, n = v.int("ms", -k, k), v.int("us", -k, k), v.int("ns", -k, k)
    x = PSDuration(days=d, hours=h, minutes=m, seconds=s, milliseconds=ms, microseconds=us, nanoseconds=n)
    v.check(ns(x) == ((((d * 24 + h) * 60 + m) * 60 + s) * 1000 + ms) * 1000000 + us * 1000 + n, "the parts add up")


def moment(v, name, kind, zone):
    """A date/time on one of a few days, at any time of day."""
    day = v.choice(name + "_day", [(2024, 2, 28), (2023, 12, 31), (2000, 3, 1)])
    u = v.int(name + "_us", 0, 86400 * 10**6 - 1)
    h, r = u // 3600000000, u % 3600000000
    mi, r = r // 60000000, r % 60000000
    s, us = r // 1000000, r % 1000000
    args = day + (h, mi, s, us)
    tz = {"none": None, "utc": UTC, "off": datetime.timezone(datetime.timedelta(minutes=-90))}[zone]
    base = datetime.date(*day).toordinal() * DAYNS + u * 1000 - (-90 * 60 * 10**9 if zone == "off" else 0)
    if kind == "dt":
        return datetime.datetime(*args, tzinfo=tz), base
    n = v.int(name + "_ns", 0, 999)
    return PSDateTime(*args, tzinfo=tz, nanosecond=n), base + n


@harness(
    quick=[dict(kind=k, dur=d, op=o, days=n) for k, d, n in (("ps", "ps", 2), ("ps", "td", 60)) for o in ("+", "r+", "-")],
    thorough=[dict(kind=k, dur=d, op=o, days=n) for k, d, n in (("ps", "ps", 800), ("ps", "td", 3000)) for o in ("+", "r+", "-")],
    bounds="PSDateTime plus/minus any PSDuration within 2 days (thorough: 800) and any timedelta within 60 days (thorough: 3000) either way, on days around the ends of a month, a year and a leap February, at any nanosecond",
)
def date_shift(v, kind, dur, op, days):
    x, t = moment(v, "t", kind, "none")
    d, n = duration(v, "d", dur, lim=days * DAYNS)
    r = x + d if op == "+" else d + x if op == "r+" else x - d
    v.check(type(r) is PSDateTime, "the result is a PSDateTime")
    v.check((0 <= r.nanosecond) & (r.nanosecond <= 999), "the nanoseconds are normalised")
    v.check(instant(r) == (t - n if op == "-" else t + n), "the result is exact to the nanosecond")


@harness(
    quick=[dict(a=a, b=b, za=za, zb=zb) for a, b in (("ps", "ps"), ("ps", "dt"), ("dt", "ps")) for za, zb in (("none", "none"), ("utc", "off"))],
    bounds="differences of date/times on any two of three days at any nanosecond, without zone or across two offsets",
)
def date_difference(v, a, b, za, zb):
    x, s = moment(v, "a", a, za)
    y, t = moment(v, "b", b, zb)
    r = x - y
    v.check(type(r) is PSDuration, "the difference is a PSDuration")
    v.check(ns(r) == s - t, "the difference is exact to the nanosecond")


@harness(bounds="copying a PSDateTime or datetime into a PSDateTime, any time of day and nanosecond")
def date_copy(v):
    kind = v.choice("kind", ["ps", "dt"])
    zone = v.choice("zone", ["none", "utc", "off"])
    x, t = moment(v, "t", kind, zone)
    c = PSDateTime(x)
    v.check((type(c) is PSDateTime) & (instant(c) == t), "the copy is the same instant to the nanosecond")
    v.check(c.tzinfo == x.tzinfo, "the copy has the same zone")
    for c in (copy.copy(x), copy.deepcopy(x)) if kind == "ps" else ():
        v.check((type(c) is PSDateTime) & (instant(c) == t), "a copy made by the copy module as well")


@harness(
    quick=[dict(a=a, b=b, za=za, zb=zb) for a, b in (("ps", "ps"), ("ps", "dt"), ("dt", "ps")) for za, zb in (("none", "none"), ("utc", "off"))],
    bounds="all six comparisons of date/times on any two of three days at any nanosecond, without zone or across two offsets",
)
def date_order(v, a, b, za, zb):
    x, s = moment(v, "a", a, za)
    y, t = moment(v, "b", b, zb)
    v.check((x == y) == (s == t), "== compares to the nanosecond")
    v.check((x != y) == (s != t), "!= compares to the nanosecond")
    v.check((x < y) == (s < t), "< compares to the nanosecond")
    v.check((x <= y) == (s <= t), "<= compares to the nanosecond")
    v.check((x > y) == (s > t), "> compares to the nanosecond")
    v.check((x >= y) == (s >= t), ">= compares to the nanosecond")


CHANGES = ("day", "micro", "nano", "zone", "nozone", "other")


@harness(
    quick=[dict(zone=z, how=h) for z in ("none", "utc", "off") for h in CHANGES if z != "none" or h != "other"],
    bounds="replacing parts or the zone of a PSDateTime and moving it to another zone, on three days at any nanosecond",
)
def date_changed(v, zone, how):
    x, t = moment(v, "t", "ps", zone)
    n = x.nanosecond
    base = t - n
    if how == "day":
        r, want = x.replace(day=1), base + n - (x.day - 1) * DAYNS
    elif how == "micro":
        r, want = x.replace(microsecond=5), base + n + (5 - x.microsecond) * 1000
    elif how == "nano":
        m = v.int("m", 0, 999)
        r, want = x.replace(nanosecond=m), base + m
    elif how == "other":
        r, want = x.astimezone(datetime.timezone(datetime.timedelta(hours=3))), t
        v.check(r.utcoffset() == datetime.timedelta(hours=3), "the zone is the one asked for")
    else:
        r = x.replace(tzinfo=UTC if how == "zone" else None)
        want = t + (0 if zone != "off" else -90 * 60 * 10**9)
        v.check(r.tzinfo is (UTC if how == "zone" else None), "the zone is the one given")
    v.check(type(r) is PSDateTime, "the result is a PSDateTime")
    v.check(instant(r) == want, "everything else is kept to the nanosecond")
    v.check((0 <= r.nanosecond) & (r.nanosecond <= 999), "the nanoseconds are normalised")
    v.check(instant(x) == t, "the original is unchanged")


@harness(bounds="comparing a PSDateTime at any nanosecond, with or without a zone, to what is no date/time of its kind")
def date_incomparable(v):
    x, t = moment(v, "t", "ps", v.choice("zone", ["none", "utc"]))
    y = datetime.datetime(2024, 2, 28, tzinfo=None if x.tzinfo else UTC)
    v.check((x == y) is False and (x != y) is True and (y == x) is False and (y != x) is True, "with and without a zone are never equal")
    v.check((x == 5) is False and (x != 5) is True and (x == None) is False, "nor is anything else")  # noqa: E711
    for f in (operator.lt, operator.le, operator.gt, operator.ge):
        v.check(raises(lambda: f(x, y), TypeError) and raises(lambda: f(x, 5), TypeError), "they have no order")


def clock(text):
    """The nanoseconds a time of day H:MM:SS[.ffffff[fff]] tells."""
    whole, dot, frac = text.partition(".")
    h, m, s = whole.split(":")
    if len(m) != 2 or len(s) != 2 or len(frac) not in (0, 6, 9):
        raise ValueError("not a time of day")
    f = int(frac) if dot else 0
    return ((int(h) * 60 + int(m)) * 60 + int(s)) * 10**9 + (f * 1000 if len(frac) == 6 else f)


@harness(
    quick=[dict(part=p) for p in ("days", "clock", "fraction")],
    bounds="the text of a duration: of up to 200 days either way; of up to two days either way in whole seconds; of any fraction of a second either way, to the nanosecond",
)
def duration_text(v, part):
    if part == "days":
        n = v.int("d", -200, 200) * DAYNS + 1000
    elif part == "clock":
        n = v.int("s", -2 * 86400, 2 * 86400) * 10**9
    else:
        n = v.int("n", -(10**9) + 1, 10**9 - 1)
    x = PSDuration(nanoseconds=n)
    text, days = str(x), 0
    if "day" in text:
        days, _, text = text.partition(" day")
        days = int(days)
        v.check(text.startswith(", " if days in (1, -1) else "s, "), "one day or several")
        text = text[text.index(",") + 2 :]
    v.check(days * DAYNS + clock(text) == n, "the text of a duration tells it to the nanosecond")


@harness(
    quick=[dict(zone=z) for z in ("none", "utc", "off", "east")],
    bounds="the text of a date/time at any nanosecond of any second, in the first minute of three days, without zone, in UTC and in offsets of -1:30 and +5:45",
)
def date_text(v, zone):
    tz = dict(none=None, utc=UTC, off=datetime.timezone(datetime.timedelta(minutes=-90)), east=datetime.timezone(datetime.timedelta(minutes=345)))[zone]
    day = v.choice("day", [(2024, 2, 28), (2023, 12, 31), (1, 1, 1)])
    s, us, n = v.int("s", 0, 59), v.int("us", 0, 999999), v.int("n", 0, 999)
    text = str(PSDateTime(*day, 7, 5, s, us, tzinfo=tz, nanosecond=n))
    offset = dict(none="", utc="+00:00", off="-01:30", east="+05:45")[zone]
    v.check(text.startswith("%04d-%02d-%02d 07:05:" % day), "the day, the hour and the minute")
    v.check(text.endswith(offset), "the offset")
    time = text[11 : len(text) - len(offset)]
    v.check(clock(time) == ((7 * 60 + 5) * 60 + s) * 10**9 + us * 1000 + n, "the text of a date/time tells it to the nanosecond")


@harness(bounds="any duration of up to twice the TimeSpan range, to the tick, against the range's ends")
def duration_range(v):
    n = v.int("ticks", -(2**64), 2**64)
    x = PSDuration(nanoseconds=n * 100)
    v.check(((x >= PSDuration.min) & (x <= PSDuration.max)) == ((n >= -(2**63)) & (n <= 2**63 - 1)), "the range is that of a TimeSpan")
    v.check(ns(PSDuration.resolution) == 100, "the resolution is a tick")
    y = PSDateTime(2024, 1, 1)
    v.check(raises(lambda: 5 - y, TypeError) and raises(lambda: y - 5, TypeError) and raises(lambda: y + 5, TypeError), "only durations and date/times take part")
