"""CLIXML documents and the CLIXML shell keep every object, its stream and the order."""
import psrpcore
from psrpcore import ClixmlOutput, ClixmlShell
from psrpcore.types import (
    ClixmlStream,
    DebugRecord,
    ErrorCategory,
    ErrorCategoryInfo,
    ErrorRecord,
    InformationRecord,
    NETException,
    ProgressRecord,
    PSCustomObject,
    PSDateTime,
    PSObject,
    PSSecureString,
    VerboseRecord,
    WarningRecord,
    deserialize_clixml,
    serialize_clixml,
)

from vx.api import PRINTABLE, UNICODE, harness

from plib import CIPHER

I32 = (-(2**31), 2**31 - 1)
UPPER = [(65, 90)]
# what tends to upset a text scanner: markup, quotes, the header's own characters, line ends
TRICKY = [(9, 10), (13, 13), (32, 62)]
STREAMS = list(ClixmlStream)
NAMES = ["output", "error", "debug", "verbose", "warning", "progress", "information"]


class Point:
    def __init__(self, x, y):
        self.x = x
        self.y = y


def make(v, kind, name):
    if kind == "str":
        return v.str(name, 2, UPPER)
    if kind == "tricky":
        return v.str(name, 2, TRICKY)
    if kind == "int":
        return v.int(name, 10, 99)
    if kind == "none":
        return None
    if kind == "list":
        return [v.int(name, 10, 99), v.str(name + "s", 1, UPPER), None]
    if kind == "object":
        return PSCustomObject(PSTypeName="My.Type", A=v.int(name, 10, 99), B=v.str(name + "s", 1, UPPER))
    return Point(v.int(name, 10, 99), v.str(name + "s", 1, UPPER))


def same(v, got, want, what="value"):
    if want is None:
        v.check(got is None, what + ": null")
    elif isinstance(want, list):
        v.check(isinstance(got, list) and len(got) == len(want), what + ": every entry")
        for a, b in zip(got, want):
            same(v, a, b, what)
    elif isinstance(want, Point):
        v.check((got.x == want.x) & (got.y == want.y), what + ": attributes")
    elif isinstance(want, PSObject) and not isinstance(want, (str, int)):
        v.check((got.A == want.A) & (got.B == want.B), what + ": properties")
        v.check("My.Type" in got.PSObject.type_names[0], what + ": type name")
    else:
        v.check(isinstance(got, str if isinstance(want, str) else int) and not isinstance(got, bool), what + ": kind")
        v.check(got == want, what)


KINDS = ("str", "int", "none", "list", "object", "point")


@harness(
    quick=[dict(kinds=k, heads=h) for h, ks in (("all", ((), ("str",), ("object", "point"))), ("one", (("tricky",), ("none", "list"), ("list", "str", "int"), ("object", "object"), ("tricky", "int")))) for k in ks],
    thorough=[dict(kinds=(a, b), heads="one") for a in KINDS for b in KINDS] + [dict(kinds=k, heads="all") for k in ((), ("tricky",), ("object", "none", "tricky"))],
    bounds="documents of 0-3 objects of every kind, each under every stream or none; text of 2 characters including all markup and line end characters; every header form; a lone value or a list",
)
def documents(v, kinds, heads):
    values = [make(v, k, "v%d" % i) for i, k in enumerate(kinds)]
    streams = [v.choice("s%d" % i, [None] + STREAMS) if i < 2 else ClixmlStream.WARNING for i in range(len(kinds))]
    entries = [x if s is None else (x, s) for x, s in zip(values, streams)]
    before = list(entries)
    alone = len(entries) == 1 and not isinstance(entries[0], list) and v.flag("alone")
    text = serialize_clixml(entries[0] if alone else entries, CIPHER)
    v.check(len(entries) == len(before) and all(a is b for a, b in zip(entries, before)), "the list of values is left as it was")
    head = v.choice("head", ["", "#< CLIXML\n", "#< CLIXML\r\n", "#< CLIXML", "#< CLIXML\r\n\r\n"]) if heads == "all" else "#< CLIXML\r\n"
    got = deserialize_clixml(head + text, CIPHER, preserve_streams=True)
    v.check(len(got) == len(values), "every object of the document, and no other")
    for (g, gs), x, s in zip(got, values, streams):
        same(v, g, x)
        v.check(gs is (ClixmlStream.OUTPUT if s is None else s), "the stream of an object, output when it has none")
    plain = deserialize_clixml(head + text, CIPHER)
    v.check(len(plain) == len(values), "every object without streams")
    for g, x in zip(plain, values):
        same(v, g, x)


@harness(
    quick=[dict(head=h) for h in ("", "#< CLIXML\n")],
    thorough=[dict(head=h) for h in ("", "#< CLIXML\n", "#< CLIXML\r\n")],
    bounds="a document of a text with any code point in its midst and a number, with and without a header",
)
def any_text(v, head):
    t = "A" + v.str("t", 1, UNICODE) + "B"
    got = deserialize_clixml(head + serialize_clixml([t, (7, ClixmlStream.VERBOSE)], CIPHER), CIPHER, preserve_streams=True)
    v.check(len(got) == 2, "every object of the document, and no other")
    v.check(v.eqbytes(got[0][0].encode("utf-16-le", "surrogatepass"), t.encode("utf-16-le", "surrogatepass")), "any text arrives")
    v.check(got[0][1] is ClixmlStream.OUTPUT and got[1] == (7, ClixmlStream.VERBOSE), "and what is beside it")


@harness(
    quick=[dict(word=w) for w in ("error", "debug")],
    thorough=[dict(word=w) for w in NAMES],
    bounds="a peer's stream name in every mix of upper and lower case, and every name one character off",
)
def names(v, word):
    text = "".join(c.upper() if v.flag("u%d" % i) else c for i, c in enumerate(word)) if len(word) <= 5 else v.choice("w", [word, word.upper(), word.title()])
    off = v.flag("off")
    if off:
        text = v.choice("form", [text + "s", text[1:], " " + text, ""])
    n = v.int("n", 10, 99)
    doc = '<Objs Version="1.1.0.1" xmlns="http://schemas.microsoft.com/powershell/2004/04"><I32 S="%s">%s</I32><I32>%s</I32></Objs>' % (text, n, n)
    (a, sa), (b, sb) = deserialize_clixml(doc, CIPHER, preserve_streams=True)
    v.check((a == n) & (b == n), "the objects")
    v.check(sa is (ClixmlStream.OUTPUT if off else ClixmlStream(word)), "a known stream name in any case, else output")
    v.check(sb is ClixmlStream.OUTPUT, "no stream name means output")


def error(v, n):
    return ErrorRecord(
        Exception=NETException(Message=v.str(n + "m", 2, UPPER)),
        CategoryInfo=ErrorCategoryInfo(Category=ErrorCategory(v.choice(n + "c", [0, 7, 22])), Reason=v.str(n + "r", 1, UPPER)),
        FullyQualifiedErrorId=v.str(n + "f", 1, UPPER),
    )


def progress(v, n):
    return ProgressRecord(
        ActivityId=v.int(n + "i", 10, 99), Activity=v.str(n + "a", 2, UPPER), StatusDescription=v.str(n + "d", 2, UPPER), PercentComplete=v.int(n + "p", 10, 99)
    )


def information(v, n):
    return InformationRecord.create(
        v.str(n + "m", 2, UPPER), v.str(n + "s", 1, UPPER), time_generated=PSDateTime(2020, 1, 2), user="u", computer="c", process_id=v.int(n + "p", 10, 99), native_thread_id=1
    )


def expect(v, kind, got, want):
    if kind == "output":
        same(v, got, want, "output")
    elif kind == "error":
        v.check(isinstance(got, ErrorRecord), "an error record")
        if isinstance(want, ErrorRecord):
            v.check(got.Exception.Message == want.Exception.Message, "error message")
            v.check(got.CategoryInfo.Category == want.CategoryInfo.Category, "error category")
            v.check(got.CategoryInfo.Reason == want.CategoryInfo.Reason, "error reason")
            v.check(got.FullyQualifiedErrorId == want.FullyQualifiedErrorId, "error id")
        else:
            v.check(got.Exception.Message == want, "error text")
            v.check(got.CategoryInfo.Category == ErrorCategory.NotSpecified, "category of an error text")
    elif kind in ("debug", "verbose", "warning"):
        v.check(type(got) is dict(debug=DebugRecord, verbose=VerboseRecord, warning=WarningRecord)[kind], kind + " record")
        v.check(got.Message == want, kind + " text")
    elif kind == "progress":
        v.check(isinstance(got, ProgressRecord), "progress record")
        for f in ("ActivityId", "Activity", "StatusDescription", "PercentComplete"):
            v.check(getattr(got, f) == getattr(want, f), "progress " + f)
    else:
        v.check(isinstance(got, InformationRecord), "information record")
        for f in ("MessageData", "Source", "ProcessId"):
            v.check(getattr(got, f) == getattr(want, f), "information " + f)


def write(v, shell, kind, i):
    n = "w%d" % i
    if kind == "output":
        x = v.str(n, 2, UPPER)
        shell.write_output(x)
    elif kind == "error":
        x = error(v, n) if v.flag(n + "rec") else v.str(n, 2, UPPER)
        shell.write_error(x)
    elif kind in ("debug", "verbose", "warning"):
        x = v.str(n, 2, UPPER)
        getattr(shell, "write_" + kind)(x)
    elif kind == "progress":
        x = progress(v, n)
        shell.write_progress(v.int(n + "src", 10, 99), x)
    else:
        x = information(v, n)
        shell.write_information(x)
    return x


@harness(
    quick=[dict(n=2, first=None)] + [dict(n=3, first=f) for f in NAMES],
    thorough=[dict(n=2, first=None)] + [dict(n=3, first=f) for f in NAMES] + [dict(n=4, first=f) for f in ("output", "error")],
    bounds="histories of up to 3 (thorough 4) writes to any stream, data taken (or not) before, between and after them, sometimes twice",
)
def shell(v, n, first):
    sh = ClixmlShell()
    chunks, want, kinds = [], {k: [] for k in NAMES}, []
    pending = 0

    def take():
        nonlocal pending
        t = sh.data_to_send()
        if pending:
            v.check(t.startswith("\n" if chunks else "#< CLIXML\n"), "the header comes with the first data, once")
            chunks.append(t)
        else:
            v.check(t == "", "nothing written, nothing to send")
        pending = 0

    for i in range(n):
        if n < 4 or i == 0:
            if v.flag("take%d" % i):
                take()
        few = ["output", "error", "progress"] if n >= 3 else NAMES
        kind = first if i == 0 and first else v.choice("k%d" % i, few)
        want[kind].append(write(v, sh, kind, i))
        kinds.append(kind)
        pending += 1
    take()
    take()
    v.check(all("#< CLIXML" not in c[1:] for c in chunks), "no header but the first")
    got = ClixmlOutput.from_clixml(list(chunks))
    for k in NAMES:
        xs = getattr(got, k)
        v.check(len(xs) == len(want[k]), "each write arrives once, in its stream")
        for a, b in zip(xs, want[k]):
            expect(v, k, a, b)
    if len(chunks) == 1:
        order = [s.value for _, s in deserialize_clixml(chunks[0], CIPHER, preserve_streams=True)]
        v.check(order == kinds, "in the order written")


@harness(
    quick=[dict(n=k) for k in (0, 1, 2)],
    thorough=[dict(n=k) for k in (0, 1, 2, 3)],
    bounds="secure strings of 0-2 (thorough 3) of any code points, alone and inside an object, through a local shell on a system without data protection",
)
def secrets(v, n):
    secret = v.str("secret", n)
    sh = ClixmlShell()
    sh.write_output(PSSecureString(secret))
    sh.write_output(PSCustomObject(Deep=[PSSecureString(secret)]))
    got = ClixmlOutput.from_clixml(sh.data_to_send())
    want = secret.encode("utf-16-le", "surrogatepass")
    v.check(len(got.output) == 2, "both objects")
    for x in (got.output[0], got.output[1].Deep[0]):
        v.check(isinstance(x, PSSecureString), "a secure string stays one")
        v.check(x.decrypt().encode("utf-16-le", "surrogatepass") == want, "the secret")


@harness(
    quick=[dict(n=k) for k in (1, 2)],
    thorough=[dict(n=k) for k in (1, 2, 3)],
    bounds="up to 2 (thorough 3) sources, each empty or a document with one entry in any stream; one source given as text or list",
)
def sources(v, n):
    docs, want = [], {k: [] for k in NAMES}
    for i in range(n):
        if v.flag("empty%d" % i):
            docs.append("")
            continue
        sh = ClixmlShell()
        kind = v.choice("k%d" % i, NAMES if i == 0 else ["output", "warning"])
        want[kind].append(write(v, sh, kind, i))
        docs.append(sh.data_to_send())
    arg = docs[0] if n == 1 and v.flag("plain") else docs
    got = ClixmlOutput.from_clixml(arg)
    for k in NAMES:
        v.check(len(getattr(got, k)) == len(want[k]), "each entry in its stream")
        for a, b in zip(getattr(got, k), want[k]):
            expect(v, k, a, b)
    again = ClixmlOutput.from_clixml([])
    v.check(v.all([getattr(again, k) == [] for k in NAMES]), "a new result starts empty")


@harness(
    quick=[dict(n=k) for k in (1, 2)],
    bounds="up to 2 progress records of a shell, each of any source id of two digits and any activity of a letter",
)
def progress_source(v, n):
    sh = ClixmlShell()
    want = []
    for i in range(n):
        src, activity = v.int("src%d" % i, 10, 99), v.str("act%d" % i, 1, UPPER)
        sh.write_progress(src, ProgressRecord(Activity=activity, ActivityId=i, StatusDescription="s"))
        want.append((src, activity))
    got = deserialize_clixml(sh.data_to_send(), CIPHER, preserve_streams=True)
    v.check(len(got) == n, "every record")
    for (x, stream), (src, activity) in zip(got, want):
        v.check(stream is ClixmlStream.PROGRESS, "in the progress stream")
        v.check(x.SourceId == src, "the source of a progress record")
        v.check(type(x.SourceId).__name__ == "PSInt64", "a source id is an Int64")
        v.check(isinstance(x.Record, ProgressRecord), "a progress record")
        v.check(x.Record.Activity == activity, "of its source")
