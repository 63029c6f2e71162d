import _thread
import datetime as dt
import re
import sys

import uberjob
from uberjob.graph import Call
from uberjob.progress import Progress, ProgressObserver
from vlib.run import Job

LEVEL = "other"
EXPLANATION = (
    "Plans are created by generated user modules (symbolic file, line offset, nesting depth, enclosing construct, creation form) "
    "that record, on the line that creates a node, the real interpreter stack. Then uberjob.run is executed symbolically with a "
    "failure at that node (call, gather, unpack, store write, read-back, source read, modified-time query, output). CallError and "
    "the exception given to the progress observer must name the failing call, its frames must be the recorded ones, innermost "
    "first, up to a limit that is the same everywhere and beyond which (and only then) the traceback is marked truncated, and the "
    "rendered message must list exactly those frames outermost first."
)
ASSUMPTIONS = ["the value of the depth limit itself is free; frames of IPython are outside (their rendering is cut on purpose)"]
WITNESSES = ("truncated", "whole", "observer", "message") 
BOUNDS = {"depth": "0..6 user frames below the creating one, on an otherwise empty stack or on a deep one"}

OLD = dt.datetime(2020, 1, 1)
NEW = dt.datetime(2021, 1, 1)


class Boom(Exception):
    pass


class Store(uberjob.ValueStore):
    def __init__(self, fail=(), time=None, value=None):
        self.fail, self.time, self.value = fail, time, value

    def _may(self, what):
        if what in self.fail:
            raise Boom(what)

    def read(self):
        self._may("read")
        return self.value

    def write(self, value):
        self._may("write")
        self.value = value
        self.time = NEW

    def get_modified_time(self):
        self._may("mtime")
        return self.time


class Kit:
    """What the generated modules use."""

    Store = Store
    OLD = OLD
    NEW = NEW

    def __init__(self):
        self.frames = None
        self.node = None
        self.output = None
        self.marked = 0

    def boom(self, *args, **kwargs):
        raise Boom("call")

    def fine(self, *args, **kwargs):
        return 1

    def unhashable(self):
        return []

    def mark(self, value=None):
        """On the line to which the failure has to be attributed: records the stack. Returns its argument."""
        f = sys._getframe(1)
        self.frames = []
        while f:
            self.frames.append((f.f_code.co_name, f.f_code.co_filename, f.f_lineno))
            f = f.f_back
        self.marked += 1
        return value


# form: (statements, who fails: 'node' (kit.node itself), 'other' (a call made for it), 'synthetic')
FORMS = {
    "call": ("kit.node = kit.output = kit.mark(plan.call(kit.boom))", "node"),
    "call-args": ("x = plan.call(kit.fine)\nkit.node = kit.output = kit.mark(plan.call(kit.boom, 1, x, a=[x], b=2))\ny = plan.call(kit.fine, x)", "node"),
    "call-inner": ("x = kit.node = kit.mark(plan.call(kit.boom))\nkit.output = [plan.call(kit.fine, x)]", "node"),
    "call-dependency": ("x = kit.node = kit.mark(plan.call(kit.boom))\nkit.output = plan.call(kit.fine)\nplan.add_dependency(x, kit.output)", "node"),
    "call-partial": ("import functools\nkit.node = kit.output = kit.mark(functools.partial(plan.call, kit.boom)())", "node"),
    "call-map": ("kit.node = kit.output = kit.mark(list(map(plan.call, [kit.boom]))[0])", "node"),
    "call-comprehension": ("kit.output = [kit.mark(plan.call(kit.boom)) for _ in range(1)]\nkit.node = kit.output[0]", "node"),
    "call-lambda": ("make = lambda: kit.mark(plan.call(kit.boom))\nkit.node = kit.output = make()", "node"),
    "call-generator": ("def gen():\n    yield kit.mark(plan.call(kit.boom))\nkit.node = kit.output = next(gen())", "node"),
    "call-class": ("class K:\n    kit.node = kit.output = kit.mark(plan.call(kit.boom))", "node"),
    "call-scope": ("with plan.scope('a', 1):\n    kit.node = kit.output = kit.mark(plan.call(kit.boom))\npass", "node"),
    "call-nested-arg": ("x = plan.call(kit.unhashable)\nkit.output = kit.mark(plan.call(kit.fine, [1, {x}]))", "other"),
    "call-nested-kwarg": ("x = plan.call(kit.unhashable)\nkit.output = kit.mark(plan.call(kit.fine, k={x: 1}))", "other"),
    "gather": ("x = plan.call(kit.unhashable)\nkit.node = kit.output = kit.mark(plan.gather({x}))", "node"),
    "gather-dict": ("x = plan.call(kit.unhashable)\nkit.node = kit.output = kit.mark(plan.gather({x: 1}))", "node"),
    "gather-nested": ("x = plan.call(kit.unhashable)\nkit.output = kit.mark(plan.gather((1, [{x}])))", "other"),
    "unpack-few": ("x = plan.call(tuple)\nkit.output = kit.mark(plan.unpack(x, 2))[0]", "other"),
    "unpack-many": ("x = plan.call(tuple, 'abc')\na, b = kit.mark(plan.unpack(x, 2))\nkit.output = [b, a]", "other"),
    "unpack-direct": ("x = plan.call(kit.fine)\nkit.output = list(kit.mark(plan.unpack([x, x, x], 2)))", "other"),
    "unpack-gather": ("x = plan.call(kit.unhashable)\nkit.output = list(kit.mark(plan.unpack({x}, 1)))", "other"),
    "write": ("x = plan.call(kit.fine)\nkit.mark(reg.add(x, kit.Store(['write'])))", "other"),
    "write-source-up": ("s = reg.source(plan, kit.Store(time=kit.NEW))\nx = plan.call(kit.fine, s)\nkit.mark(reg.add(x, kit.Store(['write'], kit.OLD)))", "other"),
    "write-lit": ("x = plan.lit(1)\nkit.mark(reg.add(x, kit.Store(['write'])))", "other"),
    "write-gather": ("x = plan.gather([plan.call(kit.fine)])\nkit.mark(reg.add(x, kit.Store(['write'])))", "other"),
    "read-back": ("x = plan.call(kit.fine)\nkit.mark(reg.add(x, kit.Store(['read'])))\nkit.output = x", "other"),
    "read-back-used": ("x = plan.call(kit.fine)\nkit.mark(reg.add(x, kit.Store(['read'])))\nkit.output = [plan.call(kit.fine, x)]", "other"),
    "read-stored": ("x = plan.call(kit.fine)\nkit.mark(reg.add(x, kit.Store(['read'], kit.OLD)))\nkit.output = x", "other"),
    "read-lit": ("x = plan.lit(1)\nkit.mark(reg.add(x, kit.Store(['read'], kit.OLD)))\nkit.output = plan.call(kit.fine, x)", "other"),
    "read-scope": ("with plan.scope('s'):\n    x = plan.call(kit.fine)\nwith plan.scope('t'):\n    kit.mark(reg.add(x, kit.Store(['read'])))\nkit.output = x", "other"),
    "source-read": ("kit.output = kit.mark(reg.source(plan, kit.Store(['read'], kit.OLD)))", "other"),
    "source-used": ("x = kit.mark(reg.source(plan, kit.Store(['read'], kit.OLD)))\ny = plan.call(kit.fine, x)\nreg.add(y, kit.Store())", "other"),
    "source-dependent": (
        "d = plan.call(kit.fine)\nreg.add(d, kit.Store())\nx = kit.mark(reg.source(plan, kit.Store(['read'], kit.OLD)))\nplan.add_dependency(d, x)\nkit.output = x",
        "other",
    ),
    "source-alone": ("kit.node = kit.output = kit.mark(reg.source(plan, kit.Store()))\nkit.no_registry = True", "node"),
    "mtime-call": ("x = kit.node = kit.mark(plan.call(kit.fine))\nreg.add(x, kit.Store(['mtime']))", "node"),
    "mtime-gather": ("y = plan.call(kit.fine)\nx = kit.node = kit.mark(plan.gather([y]))\nreg.add(x, kit.Store(['mtime']))", "node"),
    "mtime-unpack": ("y = plan.call(kit.fine)\nx = kit.node = kit.mark(plan.unpack(y, 2))[1]\nkit.node = x\nreg.add(x, kit.Store(['mtime']))", "node"),
    "mtime-source": ("kit.node = kit.mark(reg.source(plan, kit.Store(['mtime'])))", "node"),
    "mtime-lit": ("x = kit.mark(plan.lit(1))\nreg.add(x, kit.Store(['mtime']))", "synthetic"),
    "mtime-gathered-lit": ("x = kit.mark(plan.gather([1]))\nreg.add(x, kit.Store(['mtime']))", "synthetic"),
    "mtime-downstream": (
        "s = reg.source(plan, kit.Store(time=kit.OLD))\nx = kit.node = kit.mark(plan.call(kit.fine, s))\nreg.add(x, kit.Store(['mtime']))\nkit.output = plan.call(kit.fine, x)",
        "node",
    ),
    "several": (
        "a = plan.call(kit.fine)\nb = plan.call(kit.fine, a)\nc = kit.node = kit.mark(plan.call(kit.boom, b))\nd = plan.call(kit.fine, c)\nkit.output = [a, d, b]",
        "node",
    ),
    "output": ("x = plan.call(kit.unhashable)\nkit.spec = lambda: {x}", "output"),
    "output-nested": ("x = plan.call(kit.unhashable)\nkit.spec = lambda: [1, ({x: 2},)]", "output"),
}

WRAPPERS = {
    "function": ("def create(plan, reg, kit):\n", 4, ""),
    "method": ("class Maker:\n    def create(self, plan, reg, kit):\n", 8, "create = Maker().create\n"),
    "closure": ("def outer():\n    def create(plan, reg, kit):\n", 8, "    return create\ncreate = outer()\n"),
    "coroutine": ("def create(plan, reg, kit):\n    async def inner():\n", 8, "    try:\n        inner().send(None)\n    except StopIteration:\n        pass\n"),
}


def indent(text, n):
    return "".join(" " * n + line + "\n" for line in text.split("\n"))


def user_module(body, wrapper, offset, path):
    head, n, tail = WRAPPERS[wrapper]
    src = "\n" * offset + head + indent(body, n) + tail
    src += "\ndef dig(depth, *args):\n    if depth <= 0:\n        return create(*args)\n    return dig(depth - 1, *args)\n"
    src += "\ndef entry(done, *args):\n    try:\n        dig(*args)\n    finally:\n        done.release()\n"
    ns = {"__name__": "user"}
    exec(compile(src, path, "exec"), ns)
    return ns


class Watching(ProgressObserver):
    def __init__(self):
        self.failed = []

    def __enter__(self):
        pass

    def __exit__(self, *exc):
        pass

    def increment_total(self, *, section, scope, amount):
        pass

    def increment_running(self, *, section, scope):
        pass

    increment_completed = increment_running

    def increment_failed(self, *, section, scope, exception):
        self.failed.append(exception)


def frames_of(ctx, stack_frame):
    """-> (frames innermost first, truncated)"""
    out = []
    while stack_frame is not None:
        if not hasattr(stack_frame, "line"):  # the mark of a truncated traceback
            return out, True
        out.append((stack_frame.name, stack_frame.path, stack_frame.line))
        stack_frame = stack_frame.outer
    return out, False


def rendered(text):
    """The frames a message lists -> (in the order listed, truncated, marker first)"""
    frames, cut = [], None
    for line in text.split("\n"):
        m = re.match(r'\s*File "(.*)", line (\d+), in (.*)$', line)
        if m:
            frames.append((m[3], m[1], int(m[2])))
        elif "truncated" in line:
            cut = len(frames)
    return frames, cut


LIMIT = {}


def limit():
    """The fixed depth limit, measured once: how many frames a plan.call on a deep stack records."""
    if not LIMIT:

        def deep(n):
            return uberjob.Plan().call(int) if n == 0 else deep(n - 1)

        node = deep(60)
        f, n = node.stack_frame, 0
        while hasattr(f, "line"):
            f, n = f.outer, n + 1
        LIMIT["n"] = n
    return LIMIT["n"]


def verify(ctx, error, real, kit, who, what):
    call = error.call
    ctx.check(isinstance(call, Call), f"{what}: call is {call!r}")
    if who == "node":
        ctx.check(call is kit.node, f"{what}: call is {call!r}, not the symbolic call that failed")
    else:
        ctx.check(call is not kit.node and call.fn not in (kit.fine, kit.boom, kit.unhashable), f"{what}: call is {call!r}")
    frames, cut = frames_of(ctx, call.stack_frame)
    n = limit()
    ctx.check(bool(frames) and frames[0] == real[0], f"{what}: the traceback starts at {frames[:1]}, the failing call was created at {real[0]}")
    ctx.check(frames == real[:n], f"{what}: the traceback is {frames}, the stack was {real[:n]}")
    ctx.check(cut == (len(real) > n), f"{what}: truncated={cut}, {len(real)} frames, of which {len(frames)} are kept")
    lines, marker = rendered(str(error))
    ctx.check(lines == frames[::-1], f"{what}: the message lists {lines}, the frames outermost first are {frames[::-1]}")
    ctx.check(marker == (0 if cut else None), f"{what}: truncation marker at {marker}, truncated={cut}")
    ctx.tag("truncated" if cut else "whole")


def harness(ctx, form):
    body, who = FORMS[form]
    kit = Kit()
    kit.no_registry = False
    kit.spec = None
    plan, reg = uberjob.Plan(), uberjob.Registry()
    wrapper = ctx.choose("wrapper", list(WRAPPERS))
    if wrapper == "coroutine" and "yield" in body:
        return
    path = ctx.choose("path", ["/home/user/my plan.py", "<stdin>"])
    ns = user_module(body, wrapper, ctx.choose("offset", [0, 7]), path)
    depth = ctx.int("depth", 0, 6)
    if ctx.choose("shallow", [True, False]):
        # the frames of the user's code are all there is on the stack
        done = _thread.allocate_lock()
        done.acquire()
        _thread.start_new_thread(ns["entry"], (done, depth, plan, reg, kit))
        done.acquire()
    else:
        ns["dig"](depth, plan, reg, kit)
    if who != "output":
        ctx.check(kit.marked == 1, "harness: the module did not run")
    watching = Watching()
    kw = dict(registry=None if kit.no_registry else reg, progress=Progress(lambda: watching), max_workers=ctx.choose("workers", [1, 2]))
    kw["retry"] = ctx.choose("retry", [None, 2])
    copied = ctx.choose("copied", [False, True])
    if copied:
        plan = plan.copy()
        kw["registry"] = kw["registry"] and reg.copy()
    if who == "output":
        launcher = user_module("kit.mark(uberjob.run(plan, output=kit.spec(), **kit.kw))", "function", 3, path)
        # the mark comes too late for a run that raises; so it goes first, on the same line
        launcher = user_module("kit.mark(), uberjob.run(plan, output=kit.spec(), **kit.kw)", "function", 3, path)
        kit.kw = kw
        launcher["uberjob"] = uberjob
        failure = []

        def go():
            try:
                launcher["dig"](depth, plan, reg, kit)
            except uberjob.CallError as e:
                failure.append(e)

        go()
        ctx.check(bool(failure), "run did not raise CallError")
        error = failure[0]
    else:
        try:
            uberjob.run(plan, output=kit.output, **kw)
        except uberjob.CallError as e:
            error = e
        else:
            ctx.fail("run did not raise CallError")
    real = kit.frames
    ctx.note("case", {"form": form, "created at": real[0], "depth of the stack": len(real)})
    verify(ctx, error, real, kit, who, "CallError")
    ctx.check(bool(watching.failed) or who == "synthetic", "the observer was not told of the failure")
    for e in watching.failed[:1]:
        ctx.check(isinstance(e, uberjob.CallError) and e.call is error.call, f"the observer was given {e!r}")
        verify(ctx, e, real, kit, who, "the observer's exception")
        ctx.tag("observer")


def rendering(ctx):
    """The message of a CallError for every length of the symbolic traceback."""
    from uberjob._util.traceback import StackFrame, TruncatedStackFrame

    n = ctx.int("frames", 0, 8)
    cut = ctx.choose("cut", [False, True])
    frame = TruncatedStackFrame if cut else None
    real = []
    i = 0
    while n > i:
        # lines are solver variables
        line = ctx.int(f"line{i}", 1, 9)
        line = next(v for v in range(1, 10) if line == v) if i == 0 else i
        real.append((f"f{i}", f"/p/m{i % 2}.py", line))
        frame = StackFrame(name=f"f{i}", path=f"/p/m{i % 2}.py", line=line, outer=frame)
        i += 1
    call = Call(len, scope=(), stack_frame=frame)
    error = uberjob.CallError(call)
    lines, marker = rendered(str(error))
    ctx.check(lines == real, f"the message lists {lines}, the frames outermost first are {real}")
    ctx.check(marker == (0 if cut else None), f"truncation marker at {marker}, truncated={cut}")
    ctx.check("len" in str(error).split("\n")[0], "the message does not name the function")
    ctx.tag("message")


def jobs(tier):
    out = [Job(form, harness, dict(form=form)) for form in FORMS]
    out.append(Job("rendering", rendering))
    return out
