import builtins
import contextlib
import html
import io
import os
import re
import sys
import tempfile
import threading
import time

import uberjob
import uberjob.progress as up
from uberjob.graph import Call
from vlib.run import Job
from vlib.symex import And, SymNum, sym_int
from vlib.world import symbolic_random

LEVEL = "other"
EXPLANATION = (
    "The bundled displays (console_progress, html_progress, ipython_progress, composites) are driven with every well-formed "
    "sequence of notifications up to a length, over sections and scopes, with symbolic totals and a symbolic clock; the update "
    "thread is real, its waiting is controlled by the harness. After every update and at the end the emitted text (or widget "
    "tree) is parsed: counts must be the current ones, as formulas over the symbolic totals, nothing may raise in any thread, "
    "and the rendered elapsed times must add up to the time during which something was running, as formulas over the symbolic "
    "instants. Unorderable, odd and unprintable scope values and exceptions, and encodings that cannot represent them, are "
    "enumerated."
)
ASSUMPTIONS = [
    "the clock does not run backwards",
    "rendered times are whole seconds: sums are compared up to one second per scope",
    "IPython widgets carry concrete totals (ipywidgets accepts nothing else)",
    "lists of more exceptions than 300, and more than 300 scopes, are not explored",
    "writing to the console or file itself does not fail",
]
WITNESSES = ("updated", "final", "elapsed", "two-running", "odd-scope", "odd-exception", "run", "ascii", "all-done", "many", "raced")
BOUNDS = {"notifications": "sequences of 5 (quick: 4) over 3 of (section, scope) after their totals", "totals": "1..10^6 (IPython: 1..4)"}

REAL_CLOCKS = (time.time, time.monotonic, time.perf_counter)


class SymIntMeta(type):
    def __call__(cls, *args):
        return sym_int(*args)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymNum))


class SymInt(builtins.int, metaclass=SymIntMeta):
    pass


class GatedEvent(threading.Event):
    """Waiting with a timeout ends when the harness says so, or when the event is set."""

    current = None  # the list of those that exist

    def __init__(self):
        super().__init__()
        self.cv = threading.Condition()
        self.parked = False
        self.go = False
        # threads have events of their own, which are none of the harness's business
        self.gated = GatedEvent.current is not None and sys._getframe(1).f_globals["__name__"] != "threading"
        if self.gated:
            GatedEvent.current.append(self)

    def wait(self, timeout=None):
        if timeout is None or not self.gated:
            return super().wait(timeout)
        with self.cv:
            self.parked = True
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.go or self.is_set(), 60)
            self.parked = self.go = False
            return self.is_set()

    def set(self):
        super().set()
        with self.cv:
            self.cv.notify_all()


class Display:
    """A bundled display under control of the harness: clock, update thread, and what it emits."""

    def __init__(self, ctx, kind, tmp=None, encoding=None):
        self.ctx = ctx
        self.kind = kind
        self.tmp = tmp
        self.encoding = encoding
        self.now = ctx.real("t0", 0, 10**6)
        self.died = []
        self.outputs = []  # what was emitted, in order
        self.widgets = []

    def clock(self, real):
        def clock():
            # the harness, the solver and the standard library keep the real time
            if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "uberjob":
                return self.now
            return real()

        return clock

    @contextlib.contextmanager
    def controlled(self, gated=True):
        patched = []

        def patch(obj, name, value):
            patched.append((obj, name, obj.__dict__.get(name, patched)))
            setattr(obj, name, value)

        clocks = {c: self.clock(c) for c in REAL_CLOCKS}
        for c in REAL_CLOCKS:
            patch(time, c.__name__, clocks[c])
        for modname, mod in list(sys.modules.items()):
            if modname == "uberjob" or modname.startswith("uberjob."):
                for name, value in list(vars(mod).items()):
                    if any(value is c for c in REAL_CLOCKS):
                        patch(mod, name, clocks[value])
                    elif gated and value is threading.Event:
                        patch(mod, name, GatedEvent)
                if modname.startswith("uberjob.progress"):
                    patch(mod, "int", SymInt)
        event = threading.Event
        if gated:
            patch(threading, "Event", GatedEvent)
            GatedEvent.current = self.gates = []
            patch(threading, "excepthook", lambda args: self.died.append(args.exc_value))
        out = sys.stdout
        if self.encoding:
            self.raw = io.BytesIO()
            sys.stdout = io.TextIOWrapper(self.raw, encoding=self.encoding, errors="strict", write_through=True)
        else:
            sys.stdout = self.text = io.StringIO()
        import IPython.display

        patch(IPython.display, "display", lambda w: self.widgets.append(w))
        try:
            yield
        finally:
            sys.stdout = out
            GatedEvent.current = None
            for obj, name, value in reversed(patched):
                if value is patched:
                    delattr(obj, name)
                else:
                    setattr(obj, name, value)
            assert threading.Event is event

    def progress(self):
        if self.kind == "console":
            return up.console_progress
        if self.kind == "html":
            return up.html_progress(lambda b: self.outputs.append(b.decode("utf8")))
        if self.kind == "html-file":
            return up.html_progress(os.path.join(self.tmp, "progress.html"))
        return up.ipython_progress

    def emitted(self):
        """All that has been emitted so far, the last rendering last."""
        if self.kind == "console":
            return self.raw.getvalue().decode(self.encoding) if self.encoding else self.text.getvalue()
        if self.kind == "html":
            return self.outputs[-1] if self.outputs else ""
        if self.kind == "html-file":
            p = os.path.join(self.tmp, "progress.html")
            return open(p, encoding="utf8").read() if os.path.exists(p) else ""
        return self.widgets[0] if self.widgets else None

    def alive(self):
        self.ctx.check(not self.died, f"{self.kind}: the thread that updates the display died: {self.died[:1]!r}")

    def update(self):
        """One turn of every update thread. False if they cannot be controlled."""
        ok = False
        for g in self.gates:
            with g.cv:
                if not g.cv.wait_for(lambda: g.parked or self.died, 5) or self.died:
                    continue
                g.go = True
                g.cv.notify_all()
                for _ in range(600):
                    if g.cv.wait_for(lambda: (g.parked and not g.go) or self.died, 0.05):
                        break
                ok = True
        self.alive()
        return ok


# What the displays show


def number(ctx, text):
    if text.startswith("~"):
        return ctx.marker_value(text)
    return int(text)


N = r"(~\d+~|-?\d+)"
PROGRESS = re.compile(rf"^\s*(?:\({N} \+ {N}\)|{N}) / {N}(?:,\s*{N} failed)?\s*$")
ELAPSED = re.compile(rf"^\s*(?:(?:{N}h)?{N}m)?{N}s\s*$")


def counts(ctx, text):
    """-> (completed, running, failed, total), running None if not shown"""
    m = PROGRESS.match(text)
    if m is None:
        ctx.fail(f"cannot read the counts {text!r}")
    a, r, c, t, f = m.groups()
    return (number(ctx, a or c), number(ctx, r) if r else None, number(ctx, f) if f else 0, number(ctx, t))


def seconds(ctx, text):
    m = ELAPSED.match(text)
    if m is None:
        ctx.fail(f"cannot read the elapsed time {text!r}")
    h, mi, s = m.groups()
    return (number(ctx, h) if h else 0) * 3600 + (number(ctx, mi) if mi else 0) * 60 + number(ctx, s)


TITLES = {"stale": "Determining stale value stores", "run": "Running graph"}


def shown(ctx, d):
    """-> {(section, scope text): (counts text, elapsed text)} of the latest rendering (console: latest of each)."""
    out = {}
    e = d.emitted()
    if d.kind == "console":
        section = None
        for line in e.split("\n"):
            if line in ("stale:", "run:"):
                section = line[:-1]
            elif section and line.startswith("  ") and line.count(" | ") >= 2:
                p, el, scope = line.split(" | ", 2)
                out[section, scope] = (p, el)
            else:
                section = None
    elif d.kind.startswith("html"):
        for section, title in TITLES.items():
            m = re.search(rf"<h3[^>]*>{title}</h3>(.*?)</table>", e, re.S)
            for row in re.findall(r"<tr class=.*?</tr>", m[1], re.S) if m else []:
                cells = [html.unescape(re.sub(r"<[^>]*>", "", c)).strip() for c in re.findall(r"<td[^>]*>(.*?)</td>", row, re.S)]
                out[section, cells[-1].replace("\u200b", "")] = (cells[-3], cells[-2])
    elif e is not None:
        section = None
        for child in e.children:
            text = getattr(child, "value", None)
            if isinstance(text, str):
                section = next((s for s, t in TITLES.items() if t in text), section)
            kids = getattr(child, "children", ())
            if section and len(kids) == 2 and hasattr(kids[0], "max"):
                p, el, scope = kids[1].value.split("; ", 2)
                out[section, scope.replace("\u200b", "")] = (p, el)
                out["bar", section, scope.replace("\u200b", "")] = (kids[0].value, kids[0].max)
    return out


class Model:
    """The reference: counts and time."""

    def __init__(self):
        self.state = {}  # (section, scope) -> [completed, running, failed, total]
        self.busy = 0  # time during which something was running

    def running(self):
        return sum(s[1] for s in self.state.values())


def text(scope):
    return ", ".join(str(v) for v in scope)


def compare(ctx, d, model, when, elapsed=True):
    got = shown(ctx, d)
    for (section, scope), (c, r, f, t) in model.state.items():
        entry = got.get((section, text(scope)))
        if entry is None:
            ctx.fail(f"{d.kind} {when}: {section} {scope!r} is not shown")
        gc, gr, gf, gt = counts(ctx, entry[0])
        ctx.check(
            And(gc == c, gf == f, gt == t, gr == r if gr is not None else r == 0 or c + f == t),
            f"{d.kind} {when}: {section} {scope!r} is shown as {entry[0]!r}, it is {c} completed, {r} running, {f} failed of {t}",
        )
        bar = got.get(("bar", section, text(scope)))
        if bar is not None:
            ctx.check(bar == (c + f, t), f"{d.kind} {when}: the bar of {section} {scope!r} is at {bar}, it is {(c + f, t)}")
    for section in TITLES:
        entry = got.get((section, "Total"))
        if entry is not None:
            rows = [counts(ctx, e[0]) for k, e in got.items() if k[0] == section and k[1] != "Total"]
            gc, gr, gf, gt = counts(ctx, entry[0])
            c, f, t = (sum(r[i] for r in rows) for i in (0, 2, 3))
            ctx.check(And(gc == c, gf == f, gt == t), f"{d.kind} {when}: the total of {section} is shown as {entry[0]!r}, it is {c}, {f} of {t}")
    if elapsed:
        n = len(model.state)
        total = 0
        for section, scope in model.state:
            total = total + seconds(ctx, got[section, text(scope)][1])
        ctx.check(
            And(total <= model.busy, model.busy < total + n),
            f"{d.kind} {when}: the elapsed times of the scopes do not add up to the time during which something was running",
        )
        ctx.tag("elapsed")


PLACES = [("run", ("alpha",)), ("run", ("beta", 1)), ("stale", ("alpha",))]


class Failure(Exception):
    pass


def call_error(cause):
    e = uberjob.CallError(Call(len, scope=(), stack_frame=None))
    e.__cause__ = cause
    return e


def raised(exc):
    try:
        raise exc
    except BaseException as e:
        return e


def sequence(ctx, kind, steps, most):
    """Notifications in every well-formed order."""
    with contextlib.ExitStack() as stack:
        tmp = stack.enter_context(tempfile.TemporaryDirectory()) if kind == "html-file" else None
        d = Display(ctx, kind, tmp)
        model = Model()
        places = PLACES[: 1 if most > 100 else ctx.choose("places", [1, 3])]

        def pass_time(i):
            dtime = ctx.real(f"dt{i}", 0, most)
            if model.running():
                model.busy = model.busy + dtime
            d.now = d.now + dtime

        with d.controlled():
            observer = d.progress().observer()
            with observer:
                for i, (section, scope) in enumerate(places):
                    t = (3 if i else ctx.choose("total0", [1, 3])) if kind == "ipython" else ctx.int(f"total{i}", 1, 10**6)
                    model.state[section, scope] = [0, 0, 0, t]
                    observer.increment_total(section=section, scope=scope, amount=t)
                changed = True
                for i in range(steps):
                    ops = [("update", None)] if changed else [("update", None)] if i == steps - 1 else []
                    for p in places:
                        c, r, f, t = model.state[p]
                        ops.append(("running", p))
                        if r:
                            ops += [("completed", p), ("failed", p)]
                    what, p = ctx.choose(f"step{i}", ops)
                    pass_time(i)
                    if what == "update":
                        if d.update() and changed:
                            compare(ctx, d, model, f"after {i} notifications", elapsed=kind != "console")
                            ctx.tag("updated")
                        changed = False
                        continue
                    changed = True
                    s = model.state[p]
                    if what == "running":
                        ctx.assume(s[3] >= s[0] + s[1] + s[2] + 1)
                        s[1] += 1
                        observer.increment_running(section=p[0], scope=p[1])
                        if model.running() > 1:
                            ctx.tag("two-running")
                    elif what == "completed":
                        s[1] -= 1
                        s[0] += 1
                        observer.increment_completed(section=p[0], scope=p[1])
                    else:
                        s[1] -= 1
                        s[2] += 1
                        observer.increment_failed(section=p[0], scope=p[1], exception=call_error(raised(Failure(f"step {i}"))))
                pass_time(steps)
            d.alive()
            # without any change since the last rendering, there may be no further one; its times are those of then
            compare(ctx, d, model, "at the end", elapsed=kind != "console" and (changed or not model.running()))
            ctx.tag("final")


def finished(ctx, kind, n, work, most):
    """Everything gets done, in some order; the last rendering shows it."""
    d = Display(ctx, kind)
    model = Model()
    places = PLACES[:n]
    with d.controlled():
        observer = d.progress().observer()
        with observer:
            for section, scope in places:
                model.state[section, scope] = [0, 0, 0, work]
                observer.increment_total(section=section, scope=scope, amount=work)
            left = {p: work for p in places}
            i = 0
            while any(left.values()):
                p = ctx.choose(f"which{i}", [q for q in places if left[q]])
                left[p] -= 1
                for what in ("running", ctx.choose(f"how{i}", ["completed", "failed"])):
                    dtime = ctx.real(f"dt{i}{what == 'running'}", 0, most)
                    if model.running():
                        model.busy = model.busy + dtime
                    d.now = d.now + dtime
                    s = model.state[p]
                    kw = dict(section=p[0], scope=p[1])
                    if what == "running":
                        s[1] += 1
                        observer.increment_running(**kw)
                    else:
                        s[1] -= 1
                        s[0 if what == "completed" else 2] += 1
                        if what == "failed":
                            kw["exception"] = call_error(raised(Failure(str(i))))
                        getattr(observer, "increment_" + what)(**kw)
                if ctx.choose(f"update{i}", [False, True]):
                    d.update()
                i += 1
        d.alive()
        compare(ctx, d, model, "at the end", elapsed=kind != "console")
        ctx.tag("all-done")


WARM = set()


def raced(ctx, kind, plan, bounds):
    """
    Threads notify the observer while its own thread updates the display, under a symbolic schedule.
    plan: per thread, the indices of the places it works on
    """
    from vlib.sched import Sched

    if kind not in WARM:  # what libraries do once
        WARM.add(kind)
        d = Display(ctx, kind)
        d.now = 1000
        with d.controlled(gated=False):
            observer = d.progress().observer()
            with observer:
                observer.increment_total(section="run", scope=("warm",), amount=1)
                observer.increment_running(section="run", scope=("warm",))
                observer.increment_failed(section="run", scope=("warm",), exception=call_error(raised(Failure("warm"))))
    d = Display(ctx, kind)
    d.now = 1000
    model = Model()
    s = Sched(ctx, within=("_simple_progress_observer.py",), **bounds)

    def notify(what, p, **kw):
        s.yield_()
        if live:
            model.busy += 7
        d.now += 7
        if what == "running":
            live.append(p)
        else:
            live.remove(p)
        getattr(observer, "increment_" + what)(section=p[0], scope=p[1], **kw)

    def work(n, indices):
        for k, i in enumerate(indices):
            p = PLACES[i]
            notify("running", p)
            if hows[n, k] == "completed":
                notify("completed", p)
            else:
                notify("failed", p, exception=call_error(raised(Failure(f"{n} {k}"))))

    live = []
    hows = {}
    for n, indices in enumerate(plan):
        for k, i in enumerate(indices):
            hows[n, k] = ctx.choose(f"how{n}{k}", ["completed", "failed"]) if n == 0 else "completed"
            c = model.state.setdefault(PLACES[i], [0, 0, 0, 0])
            c[3] += 1
            c[0 if hows[n, k] == "completed" else 2] += 1
    with d.controlled(gated=False):
        with s:
            observer = d.progress().observer()
            with observer:
                for (section, scope), c in model.state.items():
                    observer.increment_total(section=section, scope=scope, amount=c[3])
                threads = [threading.Thread(target=work, args=(n, indices)) for n, indices in enumerate(plan) if n]
                for t in threads:
                    t.start()
                work(0, plan[0])
                for t in threads:
                    t.join()
        ctx.note("schedule", s.describe_schedule())
        s.check(f"{kind}: the run with this display")
        ctx.check(not s.leftover, f"{kind}: a thread of the display is left running: {s.left}")
        compare(ctx, d, model, "at the end", elapsed=len(plan) == 1 and kind != "console")
        if s.used:
            ctx.tag("raced")


def many(ctx, kind, n):
    """Many failures, in one scope or in as many as there are failures; the display is updated before, between and after the last."""
    scopes = ctx.choose("scopes", [1, n])
    d = Display(ctx, kind)
    model = Model()
    section = ctx.choose("section", ["run", "stale"])
    last = ctx.choose("last", ["failed", "completed", "running"])
    early = ctx.choose("early", [False, True])  # is all but the last failure shown before it?
    between = ctx.choose("between", [False, True])  # is the display updated while the last call runs?
    with d.controlled():
        observer = d.progress().observer()
        with observer:
            total = n + 2
            for k in range(scopes):
                p = section, (f"s{k}", k)
                model.state[p] = [0, 0, 0, total]
                observer.increment_total(section=p[0], scope=p[1], amount=total)
            for i in range(n):
                p = section, (f"s{i % scopes}", i % scopes)
                observer.increment_running(section=p[0], scope=p[1])
                observer.increment_failed(section=p[0], scope=p[1], exception=call_error(raised(Failure(f"failure {i}"))))
                model.state[p][2] += 1
            if early:
                d.update()
                compare(ctx, d, model, f"after {n} failures", elapsed=False)
            observer.increment_running(section=p[0], scope=p[1])
            model.state[p][1] += 1
            if between:
                d.update()
                compare(ctx, d, model, f"after {n} failures, with one call running", elapsed=False)
            kw = {"exception": call_error(raised(Failure("the last")))} if last == "failed" else {}
            if last != "running":
                getattr(observer, "increment_" + last)(section=p[0], scope=p[1], **kw)
                model.state[p][1] -= 1
                model.state[p][0 if last == "completed" else 2] += 1
        d.alive()
        compare(ctx, d, model, "at the end", elapsed=False)
        ctx.tag("many")


class Plain:
    """Hashable and equatable, nothing else."""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, other):
        return isinstance(other, Plain) and self.name == other.name

    def __repr__(self):
        return self.name


class Refuses(Plain):
    """Comparing raises."""

    def __lt__(self, other):
        raise RuntimeError("no order")

    __gt__ = __lt__


class Vague(Plain):
    """Comparing gives something that is neither true nor false."""

    def __lt__(self, other):
        class No:
            def __bool__(self):
                raise ValueError("ambiguous")

        return No()

    __gt__ = __lt__


ODD = [
    [(Plain("p"),), (Plain("q"),)],
    [(Plain("p"),), (1,), ("1",), (None,)],
    [(Refuses("p"),), (Refuses("q"),)],
    [(Vague("p"),), (Vague("q"),), ()],
    [(1,), ("a",), ((1, 2),), (frozenset([1]),), (frozenset([2]),)],
    [(1j,), (2j,), (1,)],
    [((1, "a"),), (("a", 1),)],
    [(float("nan"),), (1.0,)],
    [("a", Plain("x")), ("a",), ("a", Plain("y"), 2)],
    [("<b>&amp;",), ("a | b",), ("tab\there",)],
    [("\u00fcnic\u00f6de \U0001f600",), ("plain",)],
    [("lone \ud800",), ("plain",)],
    [(type, len), (int,)],
    [(True,), (0,)],
]


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("no text")


def odd_exceptions():
    loop = ValueError("loop")
    other = KeyError("other")
    loop.__cause__ = other
    other.__cause__ = loop
    noted = ValueError("noted")
    noted.add_note("a note \ud800")
    try:
        compile("1 +", "<x>", "exec")
    except SyntaxError as e:
        syntax = e
    return [
        ValueError("never raised"),
        raised(BadStr()),
        raised(ValueError("\ud800 lone")),
        raised(ValueError("<script> | ; &")),
        raised(loop),
        raised(ExceptionGroup("group", [ValueError(1), TypeError(2)])),
        noted,
        syntax,
        raised(Failure()),
        raised(OSError(2, "No such file", "x" * 10)),
        raised(UnicodeDecodeError("utf8", b"\xff", 0, 1, "bad")),
        raised(KeyboardInterrupt()),
    ]


def odd(ctx, kind):
    """Scope values, exceptions and encodings that are hard to show."""
    scopes = ctx.choose("scopes", ODD)
    which = ctx.choose("exception", [None, *range(len(odd_exceptions()))] if any(scopes is o for o in (ODD[0], ODD[11])) else [None, 0])
    encoding = ctx.choose("encoding", [None, "ascii", "latin-1", "utf8"]) if kind == "console" else None
    with contextlib.ExitStack() as stack:
        tmp = stack.enter_context(tempfile.TemporaryDirectory()) if kind == "html-file" else None
        d = Display(ctx, kind, tmp, encoding)
        model = Model()
        section = ctx.choose("section", ["run", "stale"])
        with d.controlled():
            observer = d.progress().observer()
            with observer:
                for s in scopes:
                    model.state[section, s] = [0, 0, 0, 2]
                    observer.increment_total(section=section, scope=s, amount=2)
                d.update()
                for s in scopes:
                    observer.increment_running(section=section, scope=s)
                    model.state[section, s][1] = 1
                d.update()
                s = scopes[-1]
                if which is not None:
                    observer.increment_failed(section=section, scope=s, exception=call_error(odd_exceptions()[which]))
                    model.state[section, s][1:3] = [0, 1]
                    ctx.tag("odd-exception")
                d.update()
            d.alive()
            ctx.tag("odd-scope")
            if encoding == "ascii":
                ctx.tag("ascii")
            plain = all(re.fullmatch(r"[\w ,]*", text(s), re.A) for s in scopes) and len({text(s) for s in scopes}) == len(scopes)
            if plain:
                compare(ctx, d, model, "at the end", elapsed=False)
            else:
                last = d.emitted()
                ctx.check(bool(last), f"{kind}: nothing was emitted")
            if kind.startswith("html"):
                ctx.check("</html>" in last if not plain else True, "html: the document is not complete")


def through_run(ctx, kinds, most):
    """Real runs with bundled displays: the last rendering shows what happened."""
    ds = [Display(ctx, k) for k in kinds]
    d0 = ds[0]
    fail = ctx.choose("fail", [None, 0, 1, 2])
    model = Model()
    plan = uberjob.Plan()
    clock = {"n": 0}

    def work(i, *args):
        clock["n"] += 1
        dtime = ctx.real(f"work{i}", 0, most)
        d0.now = d0.now + dtime
        model.busy = model.busy + dtime
        for d in ds:
            d.now = d0.now
        if ctx.choose(f"update{i}", [False, True]):
            d0.update()
        s = model.state["run", (*scopes[i], "work")]
        s[2 if fail == i else 0] += 1
        if fail == i:
            raise Failure(f"call {i}")

    work.__module__ = None
    work.__qualname__ = "work"
    scopes = [("a",), ("a",), (Plain("b"),)]
    nodes = []
    for i in range(3):
        with plan.scope(*scopes[i]):
            nodes.append(plan.call(work, i, *nodes[-1:]) if i != 2 or ctx.choose("linked", [True, False]) else plan.call(work, i))
    from uberjob._util import fully_qualified_name

    name = fully_qualified_name(work)
    for i in range(3):
        model.state.setdefault(("run", (*scopes[i], "work")), [0, 0, 0, 0])[3] += 1
    for d in ds[1:]:
        d.controlled = None
    with d0.controlled():
        for d in ds[1:]:
            d.gates, d.text, d.widgets, d.encoding = d0.gates, d0.text, d0.widgets, None
        try:
            with symbolic_random(ctx):
                uberjob.run(plan, output=nodes, max_workers=1, max_errors=None, scheduler="random", progress=[d.progress() for d in ds])
            ok = True
        except uberjob.CallError:
            ok = False
        ctx.check(ok == (fail is None), f"run: ok={ok}")
        d0.alive()
        model.state = {(sec, (*s[:-1], name)): v for (sec, s), v in model.state.items()}
        for d in ds:
            compare(ctx, d, model, "after the run", elapsed=d.kind != "console")
    ctx.tag("run")


def jobs(tier):
    thorough = tier == "thorough"
    out = []
    short, long = 10, 10**6  # seconds between notifications; above a minute, minutes and hours are shown
    for kind in ("console", "html", "ipython"):
        out.append(Job(f"sequence-{kind}", sequence, dict(kind=kind, steps=5 if thorough else 4, most=short)))
        out.append(Job(f"sequence-{kind}-long", sequence, dict(kind=kind, steps=4 if thorough else 3, most=long)))
        for n, work in ((1, 1), (1, 3), (2, 2), (3, 1)) if thorough else ((1, 2), (2, 1)):
            out.append(Job(f"finished-{kind}-{n}-{work}", finished, dict(kind=kind, n=n, work=work, most=short)))
        out.append(Job(f"finished-{kind}-1-1-long", finished, dict(kind=kind, n=1, work=1, most=long)))
        out.append(Job(f"odd-{kind}", odd, dict(kind=kind)))
        # displays keep a limited number of exceptions (128)
        for n in (40, 127, 128, 129, 300) if thorough else (40, 128):
            out.append(Job(f"many-{kind}-{n}", many, dict(kind=kind, n=n)))
        for name, plan in (("one", ((0,),)), ("one-two", ((0, 0),)), ("two", ((0,), (0,))), ("apart", ((0,), (1,)))):
            if thorough or (kind, name) in (("console", "one"), ("html", "two"), ("ipython", "one")):
                bounds = dict(preemptions=2 if thorough and name == "one" else 1, yields=5 if thorough else 3, timeouts=2 if thorough or name == "one" else 1)
                out.append(Job(f"raced-{kind}-{name}", raced, dict(kind=kind, plan=plan, bounds=bounds), path_timeout=60))
    out.append(Job("sequence-html-file", sequence, dict(kind="html-file", steps=2, most=short)))
    out.append(Job("odd-html-file", odd, dict(kind="html-file")))
    for kinds in (["console"], ["html"], ["ipython"], ["html", "console", "ipython"]):
        out.append(Job("run-" + "-".join(kinds), through_run, dict(kinds=kinds, most=long if thorough else short)))
    return out
