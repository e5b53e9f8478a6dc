"""Date/times: every .NET DateTime survives the wire to the tick, with its kind and offset."""
import datetime

from vx.api import harness

from plib import deserialize, from_xml, rt, serialize
from psrpcore.types import PSDateTime

UTC = datetime.timezone.utc


def date(v, lo, hi):
    y, m, d = v.int("year", lo, hi), v.int("month", 1, 12), v.int("day", 1, 31)
    v.assume((d <= 28) | ((m != 2) & (d <= 30)) | ((m != 2) & (m != 4) & (m != 6) & (m != 9) & (m != 11)) | ((m == 2) & (d == 29) & (((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0))))
    return y, m, d


def same(v, x, y, m, d, H, M, S, ticks):
    v.check(type(x) is PSDateTime, "the type survives")
    v.check((x.year == y) & (x.month == m) & (x.day == d), "the date survives")
    v.check((x.hour == H) & (x.minute == M) & (x.second == S), "the time survives")
    v.check(x.microsecond * 10 + x.nanosecond // 100 == ticks, "the fraction survives to the tick")


@harness(
    quick=[dict(tz=t, lo=lo, hi=hi) for t in ("none", "utc") for lo, hi in ((1, 999), (1000, 9999))],
    bounds="every valid date from 0001-01-01 to 9999-12-31 (proleptic Gregorian), unspecified and UTC",
)
def dates(v, tz, lo, hi):
    y, m, d = date(v, lo, hi)
    x = PSDateTime(y, m, d, tzinfo=None if tz == "none" else UTC)
    r = rt(x)
    same(v, r, y, m, d, 0, 0, 0, 0)
    v.check(r.tzinfo == (None if tz == "none" else UTC), "the kind survives")


@harness(
    quick=[dict(tz=t) for t in ("none", "utc")],
    bounds="every time of day at 100 ns resolution",
)
def times(v, tz):
    H, M, S = v.int("hour", 0, 23), v.int("minute", 0, 59), v.int("second", 0, 59)
    us, hn = v.int("us", 0, 999999), v.int("tick", 0, 9)
    x = PSDateTime(2024, 2, 29, H, M, S, us, None if tz == "none" else UTC, nanosecond=hn * 100)
    r = rt(x)
    same(v, r, 2024, 2, 29, H, M, S, us * 10 + hn)
    v.check(r.tzinfo == (None if tz == "none" else UTC), "the kind survives")


@harness(bounds="every whole-minute UTC offset from -23:59 to +23:59")
def offsets(v):
    n = v.int("minutes", -1439, 1439)
    tz = datetime.timezone(datetime.timedelta(minutes=n))
    x = PSDateTime(2024, 2, 29, 13, 14, 15, 123456, tz, nanosecond=700)
    r = rt(x)
    same(v, r, 2024, 2, 29, 13, 14, 15, 1234567)
    v.check(r.utcoffset() == datetime.timedelta(minutes=n), "the offset survives")


@harness(bounds="every valid date and second as a plain Python datetime, every microsecond")
def python_datetime(v):
    y, m, d = date(v, 1, 9999)
    us = v.int("us", 0, 999999)
    r = rt(datetime.datetime(y, m, d, 23, 59, 58, us))
    same(v, r, y, m, d, 23, 59, 58, us * 10)
    v.check(r.tzinfo is None, "no zone stays no zone")


def pad(n, k):
    return format(n, "0%dd" % k)


@harness(
    quick=[dict(k=k, tz=t) for k in range(0, 8) for t in ("", "Z", "+00:00")],
    bounds="every text a peer writes: any second of any day of 2023-2024, 0..7 fraction digits, no zone / Z / offset",
)
def foreign_text(v, k, tz):
    y, m, d = date(v, 2023, 2024)
    S = v.int("second", 0, 59)
    n = v.int("fraction", 0, 10**k - 1) if k else 0
    text = pad(y, 4) + "-" + pad(m, 2) + "-" + pad(d, 2) + "T01:02:" + pad(S, 2) + ("." + pad(n, k) if k else "") + tz
    r = deserialize(from_xml(("<DT>" + text + "</DT>").encode("utf-8")))
    same(v, r, y, m, d, 1, 2, S, n * 10 ** (7 - k))
    v.check((r.tzinfo is None) == (tz == ""), "a text without zone is unspecified, one with a zone is not")


@harness(
    quick=[dict(tz=t) for t in ("none", "utc", "off")],
    bounds="the written form of every valid date, every second and every tick (one at a time)",
)
def written_form(v, tz):
    what = v.choice("what", ["date", "second", "fraction"])
    y, m, d, S, us, hn = 2001, 2, 3, 7, 0, 0
    if what == "date":
        y, m, d = date(v, 1, 9999)
    elif what == "second":
        S = v.int("second", 0, 59)
    else:
        us, hn = v.int("us", 0, 999999), v.int("tick", 0, 9)
    zone = {"none": None, "utc": UTC, "off": datetime.timezone(datetime.timedelta(minutes=-90))}[tz]
    suffix = {"none": "", "utc": "Z", "off": "-01:30"}[tz]
    text = serialize(PSDateTime(y, m, d, 5, 6, S, us, zone, nanosecond=hn * 100)).text
    v.check(text[:19] == pad(y, 4) + "-" + pad(m, 2) + "-" + pad(d, 2) + "T05:06:" + pad(S, 2), "the date and time are ISO 8601 with fixed widths")
    rest = text[19:]
    v.check(rest[len(rest) - len(suffix) :] == suffix, "the zone is none, Z or a signed offset with a colon")
    frac = rest[: len(rest) - len(suffix)]
    if us * 10 + hn == 0:
        v.check(frac == "" or frac == ".0000000", "no fraction when there is none")
    else:
        v.check(frac == "." + pad(us, 6) + pad(hn, 1) or (hn == 0 and frac == "." + pad(us, 6)), "the fraction is a decimal of up to seven digits")
