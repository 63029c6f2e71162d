import contextlib
import json
import pathlib
import pickle

from uberjob import stores
from uberjob.stores import BinaryFileStore, JsonFileStore, PickleFileStore, TextFileStore, TouchFileStore
from uberjob.stores import staged_write, staged_write_path
from checks.c18 import FakeTime
from vlib import symdt, vfs
from vlib.run import Job
from vlib.symdt import UTC_ZONE
from vlib.symex import And, Implies, Not, Or

LEVEL = "other"
EXPLANATION = (
    "The real write methods executed on a model file system whose operations fail with OSError or KeyboardInterrupt, or end "
    "the process, at a symbolic position, with a symbolic part of the buffered data flushed; old contents, leftover staging "
    "file and times are symbolic too. Afterwards the solver decides on every path: the target holds the complete old or the "
    "complete new content, its modified time (through the store's own get_modified_time) is unchanged unless the new value is "
    "in place, no new file remains after an exception, and a later write and read work. Counterexamples are replayed with real "
    "files in a scratch directory, death being os._exit in a child process."
)
ASSUMPTIONS = [
    "os.replace is atomic and a failing one has no effect (POSIX); the process, not the machine, dies",
    "at most one fault per write, besides the serialisation error of the value itself",
    "removing the staging file does not itself fail",
]
WITNESSES = ("died", "raised", "ok", "old-kept", "new-in-place", "leftover", "serialisation", "partial")
BOUNDS = {"writes": "one faulty write from any initial state, then one write without fault", "fault position": "any operation (0..30)"}


class Bad:
    def __reduce__(self):
        raise ValueError("cannot be pickled")


def big(x):
    return [x] * 3


CASES = {
    # store class, kwargs, old value, new value, third value, failing value
    "text": (TextFileStore, {}, "old", "new value\r\n", "third", 5),
    "text-utf16": (TextFileStore, {"encoding": "utf-16"}, "old", "new", "", None),
    "text-ascii": (TextFileStore, {"encoding": "ascii"}, "old", "new", "third", "part\u00e9"),
    "json": (JsonFileStore, {}, {"a": [1]}, {"b": [1, 2.5, None, "x"]}, [], {"a": [1, 2], "b": Bad()}),
    "pickle": (PickleFileStore, {}, ("old",), {"new": 1}, None, [big("x"), Bad()]),
    "binary": (BinaryFileStore, {}, b"old", b"new\x00", b"", "text"),
    "touch": (TouchFileStore, {}, None, None, None, 1),
}


def encoded(fs, make, value):
    """The bytes that a write of the value without fault leaves at the path."""
    name = "scratch"
    make(name).write(value)
    if fs.ctx.concrete:
        data = list(fs.raw(name))
        import os

        os.remove(fs.path(name))
    else:
        data = fs.files.pop(fs.path(name)).data
    return data


def harness(ctx, case):
    cls, kw, old, new, third, bad = CASES[case]
    fs = vfs.create(ctx)
    fs.symbolic_time = True
    as_path = ctx.choose("path_type", ["str", "Path"])
    fake = None
    if not ctx.concrete:
        import types

        fake = FakeTime(types.SimpleNamespace(zone=UTC_ZONE))

    def make(name):
        p = fs.path(name)
        return cls(pathlib.Path(p) if as_path == "Path" else p, **kw)

    try:
        with fs.active(fake):
            body(ctx, fs, make, case, old, new, third, bad)
    finally:
        if ctx.concrete:
            fs.dispose()


def body(ctx, fs, make, case, old, new, third, bad):
    old_bytes, new_bytes, third_bytes = (encoded(fs, make, v) for v in (old, new, third))
    store = make("target")
    ctx.check(store.get_modified_time() is None, "a modified time is reported although nothing is stored")
    has_old = ctx.choose("has_old", [False, True])
    if has_old:
        fs.put("target", old_bytes)
    leftover = ctx.choose("leftover", [False, True])
    if leftover:
        ctx.tag("leftover")
        # A staging file of an earlier, killed write: its name is found by killing one.
        fs.fault = "death"
        fs.cut, fs.count = ctx.int("cut0", 0, 20), 0
        outcome, _ = fs.guarded(lambda: store.write(third))
        fs.revive()
        if outcome != "died":
            return
        ctx.check(
            Or(fs.is_content("target", old_bytes) if has_old else "target" not in fs.names(), fs.is_content("target", third_bytes)),
            "the target holds neither the complete old nor the complete new value after the process died",
        )
        if "target" in fs.names() and not (has_old and bool(fs.is_content("target", old_bytes))):
            return  # the killed write had taken effect
    before = set(fs.names())
    before_mtime = store.get_modified_time()
    fs.fault = ctx.choose("fault", ["os", "ki", "death"])
    fs.cut, fs.count = ctx.int("cut", 0, 30), 0
    serialisation = bad is not None and ctx.choose("bad_value", [False, True])
    value = bad if serialisation else new
    outcome, exc = fs.guarded(lambda: store.write(value))
    hit = fs.hit
    fs.revive()
    ctx.tag(outcome)
    ctx.note("case", f"{case} {outcome} at {hit}")
    where = f"({case}, {fs.fault} at {hit[0] if hit else None})"
    names = fs.names()
    is_old = fs.is_content("target", old_bytes) if has_old else "target" not in names
    is_new = fs.is_content("target", new_bytes)
    if serialisation:
        ctx.tag("serialisation")
        ctx.check(outcome != "ok", f"a write of {bad!r} succeeded {where}")
        ctx.check(is_old, f"a failed serialisation damaged the target {where}")
    if not ctx.concrete and any(i.keep is not None for i in fs.files.values()):
        ctx.tag("partial")
    ctx.check(Or(is_old, is_new), f"the target holds neither the complete old nor the complete new value {where}")
    if outcome == "ok":
        ctx.check(is_new, f"the write returned but the new value is not in place {where}")
        ctx.check(set(names) == {"target"}, f"files left after a successful write: {names} {where}")
    mtime = store.get_modified_time()
    ctx.check((mtime is None) == ("target" not in names), f"modified time {mtime} with files {names} {where}")
    if has_old and old_bytes != new_bytes:
        ctx.check(Implies(is_old, mtime == before_mtime), f"the modified time changed although the old value is still there {where}")
    if outcome == "raised":
        extra = set(names) - {"target"}
        if not leftover:
            ctx.check(not extra, f"staging file left behind after the write raised: {extra} {where}")
        else:
            ctx.check(extra <= before - {"target"}, f"files left behind after the write raised: {extra} {where}")
    if ctx.feasible(is_old):
        ctx.tag("old-kept")
    if ctx.feasible(is_new) and outcome != "ok":
        ctx.tag("new-in-place")
    # Whatever is there can be read, and a later write works.
    if "target" in names and value is not bad:
        got = store.read()
        want_old, want_new = old, new
        if bool(is_new):
            ctx.check(got == want_new or (has_old and old_bytes == new_bytes), f"read returned {got!r} {where}")
        else:
            ctx.check(got == want_old, f"read returned {got!r} {where}")
    store.write(third)
    ctx.check(fs.is_content("target", third_bytes), f"a later write did not put its value in place {where}")
    ctx.check(fs.names() == ["target"], f"files after a later write: {fs.names()} {where}")
    got = store.read()
    ctx.check(got == third and type(got) is type(third), f"read after a later write returned {got!r} {where}")


def staged(ctx, form):
    """The staged_write helpers with a body that fails by itself."""
    fs = vfs.create(ctx)
    try:
        with fs.active():
            path = fs.path("target")
            if ctx.choose("path_type", ["str", "Path"]) == "Path":
                path = pathlib.Path(path)
            has_old = ctx.choose("has_old", [False, True])
            if has_old:
                fs.put("target", list(b"old"))
            fs.fault = ctx.choose("fault", ["os", "ki", "death"])
            fs.cut, fs.count = ctx.int("cut", 0, 30), 0
            raises = ctx.choose("body", [None, "before", "middle", "after", "base"])
            mode = ctx.choose("mode", ["w", "wb"])
            new = "one two" if mode == "w" else b"one two"

            def boom(where):
                if raises == where:
                    raise ValueError(where)
                if raises == "base" and where == "middle":
                    raise KeyboardInterrupt()

            def go():
                boom("before")
                if form == "staged_write":
                    with staged_write(path, mode) as f:
                        f.write(new[:3])
                        boom("middle")
                        f.write(new[3:])
                        boom("after")
                else:
                    with staged_write_path(path) as p:
                        with open(p, mode) as f:
                            f.write(new[:3])
                            boom("middle")
                            f.write(new[3:])
                        boom("after")

            outcome, exc = fs.guarded(go)
            hit = fs.hit
            fs.revive()
            where = f"({form}, {fs.fault} at {hit[0] if hit else None}, body raises {raises})"
            names = fs.names()
            is_old = fs.is_content("target", list(b"old")) if has_old else "target" not in names
            is_new = fs.is_content("target", list(b"one two"))
            ctx.check(Or(is_old, is_new), f"the target is neither complete old nor complete new {where}")
            if outcome == "raised":
                ctx.check(set(names) <= {"target"}, f"staging file left behind: {names} {where}")
            if raises:
                ctx.check(outcome != "ok", f"the exception of the body was swallowed {where}")
                ctx.check(is_old, f"published although the body raised {where}")
            if outcome == "ok":
                ctx.check(is_new, f"not published {where}")
    finally:
        if ctx.concrete:
            fs.dispose()


def jobs(tier):
    out = [Job(f"store-{c}", harness, dict(case=c)) for c in CASES]
    out += [Job(f"{f}", staged, dict(form=f)) for f in ("staged_write", "staged_write_path")]
    return out
