import collections
import datetime as dt
import decimal
import math
import os
import pathlib
import time

from uberjob.stores import BinaryFileStore, JsonFileStore, MountedStore, PickleFileStore, TextFileStore, TouchFileStore
from checks.c18 import BASE, DAY, T_DAY, FakeTime, Forms, posix_tz
from vlib import vfs
from vlib.run import Job
from vlib.symdt import UTC_ZONE
from vlib.symex import And, HarnessError, Not, Or
from vlib.world import attempt

LEVEL = "other"
EXPLANATION = (
    "The real read and write methods executed on a model file system whose file contents are symbolic: strings consist of "
    "listed special characters and of characters whose code point is symbolic (encoded and decoded by a model of the codecs, "
    "newline translation included), bytes are symbolic numbers, the locale encoding and the store's encoding are chosen. The "
    "solver decides on every path that what is read equals what was written. For modified times the file system clock, the "
    "local zone (two offsets and a transition) and deletions are symbolic. Counterexamples are replayed with real files."
)
ASSUMPTIONS = [
    "the codecs and the file object behave as modelled (checked against the real ones by replaying every counterexample and by "
    "the concrete special characters, which go through the real codecs)",
    "json and pickle run as they are, on listed structures; in them a symbolic character stands for U+E000.. in the text of "
    "the file when the encoder escapes it",
    "a value that the encoding cannot represent may be refused by write; lone surrogates and NaN are not in the domain",
    "modified times of the file system do not decrease",
]
WITNESSES = ("text", "json", "pickle", "binary", "touch", "mounted", "refused", "mtime-fold", "overwrite", "deleted")


def BOUNDS(tier):
    return {
        "strings": f"up to {3 if tier == 'thorough' else 2} characters, each any code point, or one of the listed special ones",
        "encodings": "utf-8, utf-8-sig, ascii, latin-1, utf-16, utf-32, utf-16-le and the locale (utf-8, ascii, latin-1)",
        "bytes": "up to 3, any values",
        "JSON": "structures of depth up to 2 over falsy and extreme leaves and symbolic strings",
        "writes": "two writes and a deletion per history",
    }


SPECIAL = ["a", "\n", "\r", "\ufeff", "\x1a", "\x00", "\x85", "\u2028", '"', "\\", "\t"]


class Mounted(MountedStore):
    """The value lives in another file, which stands for the remote side."""

    def __init__(self, create, remote):
        super().__init__(create)
        self.remote = remote

    def copy_to_local(self, local_path):
        with open(self.remote, "rb") as f:
            data = f.read()
        with open(local_path, "wb") as f:
            f.write(data)

    def copy_from_local(self, local_path):
        with open(local_path, "rb") as f:
            data = f.read()
        with open(self.remote, "wb") as f:
            f.write(data)

    def get_modified_time(self):
        return BinaryFileStore(self.remote).get_modified_time()


def fake_time():
    import types

    return FakeTime(types.SimpleNamespace(zone=UTC_ZONE))


def make_store(ctx, fs, cls, kw, name="target"):
    path = fs.path(name)
    kind = ctx.choose("path_type", ["str", "Path", "mounted"])
    if kind == "Path":
        path = pathlib.Path(path)
    if kind == "mounted":
        ctx.tag("mounted")
        return lambda: Mounted(lambda p: cls(p, **kw), path)
    return lambda: cls(path, **kw)


def same_text(ctx, fs, a, b):
    """Are the two strings equal, symbolic characters compared by their code points?"""
    if type(b) is not str or len(a) != len(b):
        return False
    return And(True, *[x == y for x, y in zip(fs.chars.codes(a), fs.chars.codes(b))])


def same_list(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and And(True, *[x == y for x, y in zip(a, b)])


def same(ctx, fs, a, b):
    """Equal, and of the same type, all the way down."""
    if isinstance(a, str):
        return same_text(ctx, fs, a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and And(True, *[same(ctx, fs, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return len(a) == len(b) and And(True, *[And(same(ctx, fs, k, q), same(ctx, fs, x, y)) for (k, x), (q, y) in zip(a.items(), b.items())])
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def show(ctx, fs, v):
    return ascii(v)[:80]


def string(ctx, fs, name, n, special):
    out = ""
    for k in range(n):
        c = ctx.choose(f"{name}{k}", ["sym", *special])
        out += fs.chars.fresh(f"{name}{k}") if c == "sym" else c
    return out


def roundtrip(ctx, fs, make, values, equal, refusable=()):
    """Writes the values one after the other; after each the store holds exactly that value."""
    store = make()
    ctx.check(store.get_modified_time() is None, "a modified time is reported although nothing is stored")
    r = attempt(store.read)
    ctx.check(not r.ok, f"read without a stored value returned {r.value!r}")
    for i, v in enumerate(values):
        w = attempt(store.write, v)
        if not w.ok:
            if isinstance(w.exc, HarnessError):
                raise w.exc
            ctx.check(isinstance(w.exc, refusable), f"write of {show(ctx, fs, v)} raised {w.exc!r}")
            ctx.tag("refused")
            return
        for s in (store, make()):
            ctx.check(s.get_modified_time() is not None, f"no modified time after writing {show(ctx, fs, v)}")
            for _ in range(2):
                r = attempt(s.read)
                if not r.ok and isinstance(r.exc, HarnessError):
                    raise r.exc
                ctx.check(r.ok, f"read after writing {show(ctx, fs, v)} raised {r.exc!r}")
                ctx.check(equal(v, r.value), f"wrote {show(ctx, fs, v)}, read {show(ctx, fs, r.value)}")
        if i:
            ctx.tag("overwrite")
    os.remove(fs.path("target"))
    ctx.check(store.get_modified_time() is None, "a modified time is reported although the file is gone")
    ctx.check(not attempt(store.read).ok, "read returned a value although the file is gone")


def with_fs(ctx, fn, locale="utf-8"):
    fs = vfs.create(ctx, locale)
    try:
        with fs.active(None if ctx.concrete else fake_time()):
            fn(fs)
    finally:
        if ctx.concrete:
            fs.dispose()


def text(ctx, encoding, n, special):
    locale = ctx.choose("locale", ["utf-8", "ascii", "latin-1"]) if encoding is None else "utf-8"

    def go(fs):
        ctx.tag("text")
        make = make_store(ctx, fs, TextFileStore, {} if encoding is None else {"encoding": encoding})
        v = string(ctx, fs, "c", n, special)
        values = [v] if n > 1 else [v, "", "longer than before", v]
        roundtrip(ctx, fs, make, values, lambda a, b: same_text(ctx, fs, a, b), (UnicodeEncodeError,))

    with_fs(ctx, go, locale)


BIG = "x" * 20000


def text_long(ctx):
    """Contents longer than any buffer."""

    def go(fs):
        make = make_store(ctx, fs, TextFileStore, {})
        c = ctx.choose("c", SPECIAL)
        v = ctx.choose("form", ["start", "end", "every"])
        v = c + BIG if v == "start" else BIG + c if v == "end" else (c + "y") * 9000
        roundtrip(ctx, fs, make, [v], lambda a, b: type(b) is str and a == b)

    with_fs(ctx, go)


LEAVES = [None, False, True, 0, 1, -1, 0.0, -0.0, 1.5, 1e308, float("inf"), 10**30, "", [], {}]


def json_value(ctx, fs, name, depth, leaves=LEAVES):
    k = ctx.choose(f"{name}k", ["leaf", "str"] + (["list", "dict"] if depth else []))
    if k == "leaf":
        return ctx.choose(f"{name}v", leaves)
    if k == "str":
        return string(ctx, fs, f"{name}s", 1, ["\n", "\r", '"', "\ufeff", "\u00e9", "\U0001f600", "\x7f"])
    few = [None, 0, ""]
    if k == "list":
        return [json_value(ctx, fs, f"{name}{i}", depth - 1, few) for i in range(ctx.choose(f"{name}n", [1, 2]))]
    keys = ctx.choose(f"{name}keys", [("",), ("b", "a"), ("null",), ("\r",)])
    return {key: json_value(ctx, fs, f"{name}{i}", depth - 1, few) for i, key in enumerate(keys)}


def json_store(ctx, encoding, depth):
    locale = ctx.choose("locale", ["utf-8", "ascii"]) if encoding is None else "utf-8"

    def go(fs):
        ctx.tag("json")
        make = make_store(ctx, fs, JsonFileStore, {} if encoding is None else {"encoding": encoding})
        v = json_value(ctx, fs, "v", depth)
        roundtrip(ctx, fs, make, [v] if depth > 1 else [v, {"longer": ["than", "before"]}, v], lambda a, b: same(ctx, fs, a, b))

    with_fs(ctx, go, locale)


Point = collections.namedtuple("Point", "x y")


class Custom:
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Custom and other.x == self.x

    def __repr__(self):
        return f"Custom({self.x!r})"


PICKLES = [
    None, False, True, 0, -1, 2**70, 0.0, float("inf"), 1j, "", "a\r\nb\n", "\ud800", b"", b"\r\n\x00\x1a", (), (1,), [], [None],
    {}, {1: "a", None: [2]}, set(), {1, 2}, frozenset([3]), Point(1, [2]), Custom([1]), dt.datetime(2020, 1, 1), decimal.Decimal("1.0"),
    range(3), len, Custom, Ellipsis, NotImplemented, bytearray(b"x"), "x" * 70000, list(range(3000)), ValueError("x"),
]


def pickle_store(ctx):
    def go(fs):
        ctx.tag("pickle")
        make = make_store(ctx, fs, PickleFileStore, {})
        v = ctx.choose("value", PICKLES)
        u = ctx.choose("wrap", [lambda x: x, lambda x: [x, x], lambda x: {"k": (x,)}])(v)

        def equal(a, b):
            if isinstance(v, ValueError):
                return repr(a) == repr(b) and type(a) is type(b)
            return type(a) is type(b) and a == b

        roundtrip(ctx, fs, make, [u, ["something", "else"], u], equal)

    with_fs(ctx, go)


def binary(ctx, n):
    def go(fs):
        ctx.tag("binary")
        make = make_store(ctx, fs, BinaryFileStore, {})
        items = [ctx.int(f"b{k}", 0, 255) for k in range(n)]
        v = bytes(items) if ctx.concrete else vfs.SymBytes(items)
        if not n and not ctx.concrete:
            v = b""

        def equal(a, b):
            return isinstance(b, (bytes, vfs.SymBytes)) and same_list(a, b)

        roundtrip(ctx, fs, make, [v, b"longer than before", v], equal)

    with_fs(ctx, go)


def binary_long(ctx):
    def go(fs):
        make = make_store(ctx, fs, BinaryFileStore, {})
        v = ctx.choose("v", [b"\r\n" * 20000, b"\x00" * 70000, bytes(range(256)) * 300, b"\x1a", b"\xef\xbb\xbf", b"\n", b"\r"])
        roundtrip(ctx, fs, make, [v], lambda a, b: type(b) is bytes and a == b)

    with_fs(ctx, go)


def touch(ctx):
    def go(fs):
        ctx.tag("touch")
        make = make_store(ctx, fs, TouchFileStore, {})
        roundtrip(ctx, fs, make, [None, None], lambda a, b: b is None)
        store = make()
        bad = ctx.choose("bad", [0, False, "", b"", (), [1]])
        r = attempt(store.write, bad)
        ctx.check(not r.ok or (attempt(store.read).value is not None and type(attempt(store.read).value) is type(bad)), f"{bad!r} was stored as None")

    with_fs(ctx, go)


CLASSES = {
    "text": (TextFileStore, ["a", "b"]),
    "json": (JsonFileStore, [[1], {}]),
    "pickle": (PickleFileStore, [1, ()]),
    "binary": (BinaryFileStore, [b"x", b""]),
    "touch": (TouchFileStore, [None, None]),
}


def mtimes(ctx, case):
    """A history of writes, deletions and reads at symbolic instants in a symbolic zone."""
    cls, values = CLASSES[case]
    fs = vfs.create(ctx)
    forms = Forms(ctx, True)
    lo, hi = (T_DAY - 2) * DAY, (T_DAY + 2) * DAY
    old_tz = os.environ.get("TZ")
    try:
        if ctx.concrete:
            os.environ["TZ"] = posix_tz(int(forms.o1), int(forms.o2), int(forms.T))
            time.tzset()
        with fs.active(None if ctx.concrete else FakeTime(forms)):
            store = make_store(ctx, fs, cls, {})()
            last = None
            now = ctx.int("start", lo, hi)
            stored = False
            for k in range(3):
                step = ctx.choose(f"step{k}", ["write", "delete", "read"] if stored else ["write"])
                if step == "write":
                    now = now + ctx.int(f"wait{k}", 0, DAY)
                    if not ctx.concrete:
                        # The model's clock stands still during the write.
                        t = now + BASE
                        fs.now = lambda t=t: t
                    store.write(values[k % 2])
                    if ctx.concrete:
                        os.utime(fs.path("target"), ns=((BASE + int(now)) * 1000,) * 2)
                    stored = True
                elif step == "delete":
                    os.remove(fs.path("target"))
                    stored = False
                    ctx.tag("deleted")
                else:
                    store.read()
                m = store.get_modified_time()
                if not stored:
                    ctx.check(m is None, f"modified time {m!r} although nothing is stored")
                    continue
                ctx.check(m is not None, "no modified time although a value is stored")
                ctx.check(isinstance(m, dt.datetime), f"modified time {m!r} is no datetime")
                t = m.timestamp()
                if last is not None:
                    ctx.check(t >= last, f"the modified time decreased after {step}")
                if step == "write" and last is not None and not ctx.concrete and ctx.feasible(And(m.fold, m.tzinfo is None) if not isinstance(m.fold, int) else bool(m.fold)):
                    ctx.tag("mtime-fold")
                last = t
    finally:
        if ctx.concrete:
            fs.dispose()
            if old_tz is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = old_tz
            time.tzset()


def absent(ctx):
    """Nothing is stored where the path cannot be reached."""

    def go(fs):
        cls = CLASSES[ctx.choose("class", sorted(CLASSES))][0]
        p = fs.path(ctx.choose("name", ["missing", "no/such/directory/file"]))
        store = cls(pathlib.Path(p) if ctx.choose("path_type", [False, True]) else p)
        ctx.check(store.get_modified_time() is None, "a modified time is reported although nothing is stored")
        ctx.check(not attempt(store.read).ok, "read returned a value although nothing is stored")

    with_fs(ctx, go)


def jobs(tier):
    thorough = tier == "thorough"
    out = []
    for enc in (None, "utf-8", "utf-8-sig", "ascii", "latin-1", "utf-16", "utf-32", "utf-16-le"):
        out.append(Job(f"text1-{enc}", text, dict(encoding=enc, n=1, special=SPECIAL)))
        out.append(Job(f"text2-{enc}", text, dict(encoding=enc, n=2, special=SPECIAL if thorough or enc in (None, "utf-8") else ["\n", "\r", "\ufeff"])))
        if thorough or enc == "utf-8":
            out.append(Job(f"text3-{enc}", text, dict(encoding=enc, n=3, special=["\n", "\r", "a"] if thorough else ["\r"])))
    out.append(Job("text-long", text_long))
    for enc in (None, "utf-8", "utf-16", "ascii"):
        out.append(Job(f"json1-{enc}", json_store, dict(encoding=enc, depth=1)))
    out.append(Job("json2", json_store, dict(encoding=None, depth=2 if thorough else 1)))
    out.append(Job("pickle", pickle_store))
    out += [Job(f"binary{n}", binary, dict(n=n)) for n in range(4)]
    out += [Job("binary-long", binary_long), Job("touch", touch), Job("absent", absent)]
    out += [Job(f"mtime-{c}", mtimes, dict(case=c)) for c in CLASSES]
    return out
