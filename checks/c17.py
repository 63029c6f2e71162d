import threading

import uberjob
from checks.c15 import Recorder, check_log
from uberjob.progress import Progress
from vlib import shapes
from vlib.gated import Gates
from vlib.interrupt import AtOpcode, Interrupt, at_rest, warm
from vlib.plain import PlainWorld, threaded_jobs
from vlib.run import Job
from vlib.storecheck import BOUNDS_TEXT, make_world, store_jobs
from vlib.symex import And
from vlib.world import Injected, symbolic_random

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically with KeyboardInterrupt delivered to the calling thread at a symbolic point: while it "
    "waits, after a symbolically chosen number and order of calls have finished; at every bytecode boundary of uberjob's own "
    "code from the start of the first thread on; and during a symbolically chosen operation of a run over stores in a symbolic "
    "state. The calls in flight are held at gates and finish, or fail, in a symbolic order. Nothing may start afterwards, all "
    "in-flight calls must be complete when run ends, no thread may be left, the observer must be exited exactly once and "
    "last, KeyboardInterrupt itself must come out of run, and what the stores hold must be correct where it counts as up to "
    "date; the next run must repair the rest."
)
ASSUMPTIONS = [
    "one interrupt per run, while calls (or store operations) are executing; Thread.start and the methods of the standard "
    "library's Queue and Condition are not interrupted half-way, except where they wait",
    "what starts between the delivery and the first wait of the interrupted thread is not counted as further work; in these "
    "harnesses all workers are busy or idle at that time",
]
WITNESSES = ("blocked", "blocked-failed", "position", "prevented", "stores", "stale-phase", "kept", "in-flight-failed", "scheduled", "scheduled-failed")
BOUNDS = {
    "plans": "fixed shapes of 3 to 5 calls, 1 to 4 workers; with stores: " + BOUNDS_TEXT,
    "positions": "every bytecode boundary of uberjob's code in the calling thread while calls execute",
}

SHAPES = [
    ("flat", "CCC", {}),
    ("chain", "CCC", {(0, 1): "a", (1, 2): "a"}),
    ("fan-out", "CCCC", {(0, 1): "a", (0, 2): "a", (0, 3): "d"}),
    ("fan-in", "CCCC", {(0, 3): "a", (1, 3): "a", (2, 3): "d"}),
    ("pairs", "CCCC", {(0, 1): "a", (2, 3): "a"}),
    ("lit", "CCLCC", {(0, 2): "d", (1, 2): "d", (2, 3): "d", (2, 4): "d"}),
]


QUICK = {"flat": (1, 2, 3), "chain": (1, 2), "fan-out": (1, 2, 4), "fan-in": (1, 2, 4), "pairs": (2, 4), "lit": (2, 4)}


class GatedWorld(PlainWorld):
    gates = None
    failing = ()

    def on_call(self, i, args, kwargs):
        self.started.append(i)
        self.events.append(("call", i))
        self.gates.enter(i)
        if i in self.failing:
            exc = Injected(f"call {i}")
            self.raised_exc.append((i, exc))
            raise exc
        self.finished.append(i)
        return ("f", i)


def interrupted(ctx, w, recorder, before, at_start, outcome, value):
    left = set(threading.enumerate()) - before
    ctx.check(not left, f"threads still alive after the interrupted run: {sorted(t.name for t in left)}")
    ctx.check(outcome == "ki", f"KeyboardInterrupt did not propagate: {outcome} {value!r}")
    new = [i for i in w.started if i not in at_start]
    ctx.check(not new, f"calls {new} started after the interrupt")
    over = set(w.finished) | {i for i, _ in w.raised_exc}
    ctx.check(set(w.started) == over, f"calls {sorted(set(w.started) - over)} were still executing when run ended")
    check_log(ctx, recorder.log, False, False)


def outcome_of(fn):
    try:
        return "ok", fn()
    except KeyboardInterrupt as e:
        return "ki", e
    except BaseException as e:
        return "error", e


def setup(ctx, kinds, edges):
    w = GatedWorld(ctx, kinds, edges)
    w.gates = Gates()
    w.reset()
    return w, [w.nodes[i] for i in range(w.n)], Recorder()


def runner(ctx, w, spec, rec, workers, schedulers=("default", "random"), **kw):
    scheduler = ctx.choose("scheduler", list(schedulers) if workers == 1 else ["default"])

    def go():
        return uberjob.run(w.plan, output=spec, max_workers=workers, progress=Progress(lambda: rec), scheduler=scheduler, **kw)

    def run():
        if scheduler == "random":
            with symbolic_random(ctx):
                return outcome_of(go)
        return outcome_of(go)

    return run


def finish_all(ctx, w, intr, symbolic=True):
    """After the interrupt: let the calls in flight finish in a symbolic order, one by one."""
    g = w.gates
    k = 0
    while g.waiting:
        waiting = sorted(g.waiting)
        g.release(ctx.choose(f"last{k}", waiting) if symbolic else waiting[0])
        intr.rest()
        k += 1


def blocked(ctx, kinds, edges, workers, full):
    """The interrupt arrives while the calling thread waits."""
    w, spec, rec = setup(ctx, kinds, edges)
    bad = ctx.choose("failing", [None, *w.calls()] if full else [None, 0, w.calls()[-1]])
    w.failing = () if bad is None else (bad,)
    run = runner(ctx, w, spec, rec, workers, max_errors=ctx.choose("max_errors", [0, None]) if bad is not None else 0)
    before = set(threading.enumerate())
    intr = Interrupt(before)
    g = w.gates
    state = {}

    def script():
        k = 0
        while True:
            intr.rest()
            if not g.waiting:
                return
            if ctx.choose(f"now{k}", [True, False]):
                state["at_start"] = list(w.started)
                state["left"] = len(w.calls()) - len(w.started)
                intr.send()
                intr.rest()
                break
            g.release(ctx.choose(f"first{k}", sorted(g.waiting)))
            k += 1
        in_flight = sorted(g.waiting)
        finish_all(ctx, w, intr)
        if bad in in_flight:
            ctx.tag("in-flight-failed")

    with intr:
        what, value = g.during(run, script)
    if not intr.delivered:
        return
    ctx.note("run", {"events": w.events, "workers": workers})
    interrupted(ctx, w, rec, before, state["at_start"], what, value)
    ctx.tag("blocked")
    if w.raised_exc:
        ctx.tag("blocked-failed")
    if state["left"]:
        ctx.tag("prevented")


def position(ctx, kinds, edges, workers, stage):
    """The interrupt arrives at some bytecode boundary of the calling thread while calls execute."""
    warm(again=True)
    w, spec, rec = setup(ctx, kinds, edges)
    # (choices of a worker would race with those of the traced thread)
    run = runner(ctx, w, spec, rec, workers, ("default",))
    before = set(threading.enumerate())
    intr = Interrupt(before)
    g = w.gates
    at = ctx.int("at", 0, 2000)
    state = {}

    def ready():
        at_rest(intr.others)
        if not g.waiting:
            return False
        state["at_start"] = list(w.started)
        return True

    def script():
        k = 0
        while True:
            intr.rest()
            if intr.delivered:
                break
            if not g.waiting:
                return
            g.release(sorted(g.waiting)[0 if stage == "first" else -1])
            k += 1
        finish_all(ctx, w, intr, symbolic=False)

    with intr:
        def traced():
            with AtOpcode(intr, lambda k: at == k, ready) as op:
                state["op"] = op
                return run()

        what, value = g.during(traced, script)
    if not intr.delivered:
        return
    ctx.note("run", {"events": w.events, "workers": workers, "at": state["op"].where})
    interrupted(ctx, w, rec, before, state["at_start"], what, value)
    ctx.tag("position")


def stores(ctx, kinds, codes, edges):
    """The interrupt arrives during an operation of a run with stores in a symbolic state."""
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    w.symbolic_state(invariant=True)
    before = set(threading.enumerate())
    intr = Interrupt(before)
    at = ctx.int("at", 0, 60)
    spec, want, out = w.output(few=True)
    n = [0]
    after = []
    where = []

    def op(what, i):
        k = n[0]
        n[0] += 1
        if intr.delivered:
            after.append((what, i))
        elif at == k:
            where.append((what, i))
            # The calling thread has to be waiting.
            intr.rest()
            intr.send()
            intr.rest()

    w.op_hook = op
    rec = Recorder()
    w.events = []
    with intr:
        what, value = outcome_of(
            lambda: uberjob.run(w.plan, output=spec, registry=w.registry, max_workers=1, progress=Progress(lambda: rec))
        )
    w.op_hook = None
    ctx.note("world", {**w.describe(), "interrupted at": where})
    if not intr.delivered:
        return
    left = set(threading.enumerate()) - before
    ctx.check(not left, f"threads still alive after the interrupted run: {sorted(t.name for t in left)}")
    ctx.check(what == "ki", f"KeyboardInterrupt did not propagate: {what} {value!r}")
    check_log(ctx, rec.log, False, False)
    # What was going on may complete; nothing else may start.
    op0, i0 = where[0]
    rest = {"call": [("call-after", i0)], "read": [("read-after", i0)], "write": [("write-after", i0)]}.get(op0, [])
    ctx.check(after == rest, f"interrupted during {op0} {i0}; {after} happened afterwards")
    ctx.tag("stores")
    if op0 == "mtime":
        ctx.tag("stale-phase")
    w.assert_inv("after the interrupt")
    written = {i for i, s in w.stores.items() if not s.initial and w.kinds[i] in "RM"}
    r = w.run(spec)
    ctx.check(r.ok, f"the next run failed: {r!r}")
    ctx.check(r.value == want, f"output {r.value!r} of the next run differs from the from-scratch value {want!r}")
    for i, s in sorted(w.stores.items()):
        if w.kinds[i] in "RM":
            ctx.check(And(s.present, s.correct()), f"store {i} does not hold its from-scratch value after the next run")
    for i in sorted(written):
        if not any(w.count("side", u) or w.count("write", u) for u in w.timed_up(i)):
            ctx.check(w.count("write", i) == 0, f"store {i} was written before the interrupt and is recomputed by the next run")
            ctx.tag("kept")


class Scheduled(PlainWorld):
    """Calls under a symbolic schedule: what is executing and what started after the interrupt."""

    executing = 0
    late = ()

    def on_call(self, i, args, kwargs):
        self.executing += 1
        if self.sched is not None and self.sched.interrupted is not None:
            self.late.append(i)
        try:
            return super().on_call(i, args, kwargs)
        finally:
            self.executing -= 1


def scheduled(ctx, kinds, edges, codes, threads, fail=False, observer="recorder"):
    """The interrupt arrives at any point of any schedule while calls are executing."""
    w = Scheduled(ctx, kinds, edges)
    w.threads(**threads, interrupt=lambda: w.executing > 0)
    w.late = []
    if fail:
        w.symbolic_failures()
    rec = Recorder()
    scheduler = ctx.choose("scheduler", ["default", "random"])
    what, value = outcome_of(
        lambda: w.run(list(w.nodes), scheduler, progress=Progress(lambda: rec), max_errors=ctx.choose("max_errors", [0, None]) if fail else 0)
    )
    if what == "ok":
        what, value = ("ok", value.value) if value.ok else ("error", value.exc)
    s = w.last_sched
    ctx.note("run", {"events": w.events, "interrupted": s.interrupted, "schedule": s.describe_schedule()})
    s.check("the interrupted run")
    if s.interrupted is None:
        return
    ctx.check(what == "ki", f"KeyboardInterrupt did not propagate: {what} {value!r}")
    ctx.check(not s.leftover, f"threads still alive after the interrupted run: {s.left}")
    ctx.check(w.executing == 0 and len(w.started) == len(w.finished) + len(w.raised_exc), "calls were still executing when run ended")
    # A worker that was stopped on its way to a call (after it has looked at the flag) may go on to start it.
    on_their_way = s.used + ("at yield" not in s.interrupted)
    ctx.check(len(w.late) <= on_their_way, f"calls {w.late} started after the interrupt ({s.interrupted}, {s.where})")
    check_log(ctx, rec.log, False, False)
    ctx.tag("scheduled")
    if w.raised_exc:
        ctx.tag("scheduled-failed")


def jobs(tier):
    thorough = tier == "thorough"
    out = []
    for name, kinds, edges in SHAPES:
        for workers in (1, 2, 3, 4) if thorough else QUICK[name]:
            if workers <= len(kinds):
                out.append(Job(f"blocked-{name}-{workers}", blocked, dict(kinds=kinds, edges=edges, workers=workers, full=thorough)))
    for name, kinds, edges in SHAPES if thorough else SHAPES[:2]:
        for workers in (1, 2, 3):
            for stage in ("first", "last") if thorough else ("first",):
                out.append(Job(f"position-{name}-{workers}-{stage}", position, dict(kinds=kinds, edges=edges, workers=workers, stage=stage)))
    for plans, fail in ((("pair", "join", "fork") + ("ladder",) * thorough, False), (("pair",), True)):
        for j in threaded_jobs(scheduled, tier, plans, fail=fail):
            t = j.params["threads"]
            if not thorough:
                t["yields"] = min(t["yields"], 5)
            j.name += "-fail" * fail
            out.append(j)
    for n, workers in ((4, 2), (5, 3)) if thorough else ((4, 2),):
        # more calls than workers: what is left must not start
        b = dict(workers=workers, preemptions=0, yields=4 if thorough else 3, ops=False)
        out.append(Job(f"parallel-flat{n}", scheduled, dict(kinds="C" * n, edges={}, codes=(), threads=b), path_timeout=60))
    some = [s for s in shapes.STORED if s[0] in ("chain-SCRC-a", "chain-SRCR-a", "diamond-R", "dsource", "dsource-call", "src-shared", "stored-lit")]
    for j in store_jobs(stores, {1: "CRSDLM", 2: "CRS"} if not thorough else {1: "CRSDLM", 2: "CRSDLM"}, stored=some if not thorough else None):
        j.name = "stores-" + j.name
        out.append(j)
    return out
