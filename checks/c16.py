import gc
import weakref

import uberjob
from checks.c05 import demanded
from checks.c15 import Recorder
from uberjob.progress import Progress
from vlib import shapes
from vlib.gated import Gates, eventually
from vlib.plain import MEETINGS, SHAPE_TEXT, PlainWorld, plain_jobs, plain_world
from vlib.run import Job
from vlib.sched import Sched
from vlib.storecheck import MEETINGS as STORE_MEETINGS
from vlib.storecheck import make_world
from vlib.world import Injected, WorldStore, attempt, symbolic_random

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically over plan shapes with calls whose results are only weakly referenced by the harness. At "
    "the start of every call and of every store operation, and when run ends, each result all of whose consumers have finished "
    "and that is not part of the output must be gone, for symbolic processing orders, failures, failing attempts and store "
    "states (one worker), and for every symbolically chosen order in which concurrently executing calls finish (several real "
    "workers, held at gates by the harness)."
)
ASSUMPTIONS = [
    "reference counting (CPython): what is unreachable is gone at once, or, if it is part of a cycle, when garbage is collected",
    "what the exceptions of calls that failed for good keep through frames of the user's functions is not held against uberjob "
    "(the harness's failing functions drop their arguments; those that only fail an attempt also come without that, modes -held)",
    "with several workers a result may live on while the thread that ran its last consumer is still on its way back (3 s)",
]
WITNESSES = ("released", "gated-released", "after-failure", "store-write", "store-read", "output-kept", "flaky", "unconsumed", "scheduled")
BOUNDS = {"plans": SHAPE_TEXT, "workers": "1 with every processing order; 2, 3 and more than calls with every order of completion"}


class Token:
    __slots__ = ("__weakref__", "name")

    def __init__(self, name):
        self.name = name


class LiveStore(WorldStore):
    """Keeps nothing; reads return fresh objects."""

    def read(self):
        self.world.enter("read", self.i)
        return self.world.token(("read", self.i))

    def write(self, value):
        del value
        w = self.world
        w.enter("write", self.i)
        self.present = True
        self.mtime = w.tick()
        w.finish(("write", self.i))


class LiveWorld(PlainWorld):
    store_class = LiveStore
    gates = None
    flaky = None
    hold = False  # do the functions keep their arguments while they run, and so do, in their traceback, the exceptions they raise?

    def fn(self, i):
        def call(*args, **kwargs):
            if not self.hold:
                del args, kwargs  # (those of the caller are in no frame of ours, either)
            return self.execute(i)

        call.__name__ = call.__qualname__ = f"f{i}"
        return call

    def lit_value(self, i):
        return ("lit", i)

    def reset(self):
        super().reset()
        self.refs = {}
        self.done = set()

    def token(self, key):
        t = Token(key)
        self.refs[key] = weakref.ref(t)
        return t

    def enter(self, what, i):
        self.events.append((what, i))
        if self.gates is None:
            self.released(f"at the start of {what} {i}")
            self.pause()
            if self.sched is not None:
                self.released(f"in the middle of {what} {i}")
        else:
            self.gates.enter(i)

    def finish(self, key):
        self.done.add(key)

    def execute(self, i):
        n = self.attempts[i] = self.attempts.get(i, 0) + 1
        if n == 1:
            self.started.append(i)
        self.enter("call", i)
        if self.flaky is not None and n == 1 and self.flaky[i]:
            self.ctx.tag("flaky")
            raise Injected(f"first attempt of {i}")
        if self.failing is not None and self.failing[i]:
            self.raised_exc.append((i, None))
            self.finish(("call", i))
            raise Injected(f"call {i}")
        self.finished.append(i)
        token = self.token(("call", i))
        self.finish(("call", i))
        return token

    # -- the oracle
    def consumers(self, key):
        """Keys of the operations that receive the result."""
        what, i = key
        if what == "call" and self.kinds[i] == "R":
            return {("write", i)}
        return {
            ("call", j)
            for j in self.succs(i)
            if self.kinds[j] in "CR" and any(c in "agk" for c in self.edges[i, j]) and self.executed[j]
        }

    def due(self):
        """Results that nobody needs any more."""
        out = []
        for key, ref in sorted(list(self.refs.items())):
            what, i = key
            kept = i in self.out and not (what == "call" and self.kinds[i] == "R")
            if kept:
                if ref() is not None and self.consumers(key) and self.consumers(key) <= self.done:
                    self.ctx.tag("output-kept")
                continue
            need = self.consumers(key)
            if need <= self.done:
                out.append((key, ref, need))
        return out

    def released(self, when):
        for key, ref, need in self.due():
            if ref() is not None and self.gates is not None:
                eventually(lambda: ref() is None)
            if ref() is not None:
                gc.collect()
            self.ctx.check(ref() is None, f"{when}: the result of {key} is still referenced although {sorted(need)} have finished")
            self.ctx.tag("gated-released" if self.gates is not None and need else "released" if need else "unconsumed")
            if key[0] == "read":
                self.ctx.tag("store-read")
            elif ("write", key[1]) in need:
                self.ctx.tag("store-write")
            if self.raised_exc and when == "when run ended":
                self.ctx.tag("after-failure")

    def plan_for(self, out, ood=None):
        self.out = set(out)
        if ood is None:
            need = set(self.needed(out))
            self.executed = [i in need for i in range(self.n)]
        else:
            run, _ = demanded(self, ood, out)
            self.executed = [bool(run[i]) for i in range(self.n)]


def ended(ctx, w, r):
    w.released("when run ended")
    if r.ok:
        r.value = None
        left = [key for key, ref in sorted(w.refs.items()) if ref() is not None]
        if left:
            gc.collect()
            left = [key for key, ref in sorted(w.refs.items()) if ref() is not None]
        ctx.check(not left, f"results of {left} are still referenced after the output was dropped")


def launch(ctx, w, spec, scheduler=None, **kw):
    if w.gates is None:
        w.reset()
    kw.setdefault("max_workers", 1)
    kw.setdefault("registry", None)
    kw.setdefault("progress", None)
    gc.disable()
    try:
        if scheduler == "random":
            with symbolic_random(ctx):
                return attempt(uberjob.run, w.plan, output=spec, scheduler=scheduler, **kw)
        return attempt(uberjob.run, w.plan, output=spec, scheduler=scheduler, **kw)
    finally:
        gc.enable()


def harness(ctx, kinds, edges, codes, mode):
    w = plain_world(ctx, kinds, edges, codes, LiveWorld)
    kw = {}
    if mode.endswith("-held"):
        w.hold = True
        mode = mode[:-5]
    if mode == "fail":
        w.symbolic_failures()
        kw["max_errors"] = None
    elif mode == "flaky":
        w.flaky = {i: ctx.bool(f"flaky{i}") for i in w.calls()}
        kw["retry"] = 2
    elif mode == "progress":
        rec = Recorder()
        kw["progress"] = Progress(lambda: rec)
    spec, want, out = w.output(allow_none=False, few=len(kinds) > 4)
    w.plan_for(out)
    r = launch(ctx, w, spec, ctx.choose("scheduler", ["random", "default"]) if mode == "plain" else "random", **kw)
    ctx.note("world", w.describe())
    if mode != "fail":
        ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    ended(ctx, w, r)


def stored(ctx, kinds, codes, edges, order=False):
    w = make_world(ctx, kinds, codes, edges, cls=LiveWorld)
    if w is None:
        return
    for i, s in w.stores.items():
        pure = w.kinds[i] == "S" or (w.kinds[i] == "D" and i not in w.producers)
        s.present = True if pure else ctx.choose(f"present{i}", [False, True])
        s.mtime = i
    if "D" in kinds and any(w.kinds[i] == "D" and i in w.producers and w.out_of_date(i) for i in w.stores):
        return  # its producer would have to fill it
    w.base = 100
    spec, want, out = w.output(few=order)
    memo = {}
    w.plan_for(out, {i: w.out_of_date(i, None, memo) for i in sorted(w.stores)})
    r = launch(ctx, w, spec, "random" if order else None, registry=w.registry)
    ctx.note("world", w.describe())
    ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    ended(ctx, w, r)


def gated(ctx, kinds, edges, workers, fail=False):
    """The harness lets concurrently executing calls finish in a symbolic order."""
    w = plain_world(ctx, kinds, edges, (), LiveWorld)
    spec, want, out = w.output(allow_none=False, few=True)
    w.plan_for(out)
    needed = set(w.needed(out))
    if fail:
        bad = ctx.choose("failing", sorted(needed))
        w.failing = {i: i == bad for i in range(w.n)}
    w.reset()
    g = w.gates = Gates()

    def script():
        failed, live = set(), set(needed)
        while True:
            done = {i for what, i in w.done if what == "call"}
            ready = {i for i in live - done if not any(p in live - done for p in w.ancestors(i))}
            if not ready:
                return
            want = min(workers, len(ready))
            at, ok = g.await_waiting(want)
            ctx.check(ok, f"only {at} started, of {sorted(ready)} that are ready with max_workers={workers}")
            w.released(f"while {at} are executing")
            pick = ctx.choose("finish", at)
            g.release(pick)
            ctx.check(eventually(lambda: ("call", pick) in w.done), f"call {pick} does not finish")
            if fail and pick == bad:
                live = {i for i in live if bad not in w.ancestors(i)}

    def go():
        return launch(ctx, w, spec, max_workers=workers, max_errors=None)

    r = g.during(go, script)
    ctx.check(r.ok != fail, f"run: {r!r}")
    ended(ctx, w, r)


def scheduled(ctx, kinds, edges, codes, threads, mode="plain"):
    """
    Several workers under a symbolic schedule. Threads change only in the middle of calls and where they wait, so that nobody
    is on the way back from a call while another thread looks.
    """
    w = plain_world(ctx, kinds, edges, (), LiveWorld)
    kw = dict(max_errors=None)
    if mode == "fail":
        w.symbolic_failures()
    elif mode == "flaky":
        w.flaky = {i: ctx.bool(f"flaky{i}") for i in w.calls()}
        kw["retry"] = 2
    elif mode == "progress":
        kw["progress"] = Progress(Recorder)
    spec, want, out = w.output(allow_none=False, few=len(kinds) > 3)
    w.plan_for(out)
    workers = threads["workers"]
    s = w.sched = Sched(ctx, **{k: v for k, v in threads.items() if k != "workers"}, ops=False)
    with s:
        r = launch(ctx, w, spec, ctx.choose("scheduler", ["default", "random"]) if mode == "plain" else None, max_workers=workers, **kw)
    w.sched = None
    ctx.note("world", {**w.describe(), "schedule": s.describe_schedule()})
    s.check()
    ctx.check(r.ok == (not w.raised_exc), f"{w.raised_exc} were raised, run: {r!r}")
    ended(ctx, w, r)
    ctx.tag("scheduled")


def scheduled_stores(ctx, kinds, edges, threads):
    w = make_world(ctx, kinds, (), edges, cls=LiveWorld)
    for i, st in w.stores.items():
        pure = w.kinds[i] == "S"
        st.present = True if pure else ctx.choose(f"present{i}", [False, True])
        st.mtime = i
    w.base = 100
    spec, want, out = w.output(few=True)
    memo = {}
    w.plan_for(out, {i: w.out_of_date(i, None, memo) for i in sorted(w.stores)})
    s = w.sched = Sched(ctx, **{k: v for k, v in threads.items() if k != "workers"}, ops=False)
    with s:
        r = launch(ctx, w, spec, None, registry=w.registry, max_workers=threads["workers"])
    w.sched = None
    ctx.note("world", {**w.describe(), "schedule": s.describe_schedule()})
    s.check()
    ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    ended(ctx, w, r)


def jobs(tier):
    thorough = tier == "thorough"
    out = plain_jobs(harness, tier, mode="plain", sizes=None if thorough else [(1, ("",)), (2, ("", "a", "d", "ad")), (3, ("", "a", "d"))])
    small = [s for s in shapes.PLAIN if len(s[1]) <= (6 if thorough else 4)]
    for mode in ("fail", "flaky", "progress", "flaky-held"):
        for j in plain_jobs(harness, tier, mode=mode, sizes=[(2, ("", "a", "d")), (3, ("", "a") if thorough else ("", "a"))], shape=small):
            if mode.startswith("flaky") and "gathered" in j.name and not thorough:
                continue
            j.name = f"{mode}-{j.name}"
            out.append(j)
    for n in (1, 2, 3) if thorough else (1, 2):
        from vlib.storecheck import kind_lists

        out.append(Job(f"stored-{n}", stored, dict(kinds=kind_lists(n, "CRSL"), codes=("", "a", "d"), edges=None)))
    for name, kinds, edges in shapes.STORED:
        out.append(Job(f"stored-{name}", stored, dict(kinds=kinds, codes=(), edges=edges, order=thorough)))
    for name, kinds, edges in [*MEETINGS, *(shapes.PLAIN if thorough else ())]:
        if name in ("flat5",) or len(kinds) > 6:
            continue
        for workers in (2, 3) if thorough else (2,):
            b = dict(workers=workers, preemptions=0, yields=8 if thorough else 4)
            for mode in ("plain", "fail", "flaky", "progress") if len(kinds) < 4 or thorough else ("plain",):
                out.append(Job(f"parallel{workers}-{mode}-{name}", scheduled, dict(kinds=kinds, edges=edges, codes=(), threads=b, mode=mode), path_timeout=60))
    for name, kinds, edges in STORE_MEETINGS:
        if "D" not in kinds:
            b = dict(workers=2, preemptions=0, yields=8 if thorough else 4)
            out.append(Job(f"parallel-stores-{name}", scheduled_stores, dict(kinds=kinds, edges=edges, threads=b), path_timeout=60))
    for name, kinds, edges in shapes.PLAIN:
        if len(kinds) <= (7 if thorough else 5):
            for workers in (2, 3, 8) if thorough or len(kinds) < 5 else (2, 8):
                out.append(Job(f"gated{workers}-{name}", gated, dict(kinds=kinds, edges=edges, workers=workers)))
            if len(kinds) < 5:
                out.append(Job(f"gated-fail-{name}", gated, dict(kinds=kinds, edges=edges, workers=8, fail=True)))
    return out
