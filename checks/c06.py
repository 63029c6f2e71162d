import uberjob
from uberjob import CallError
from uberjob._errors import NodeError
from uberjob.progress import Progress
from checks.c09 import through_plain
from checks.c15 import Recorder
from vlib import shapes
from vlib.plain import SCHEDULE_TEXT, SHAPE_TEXT, PlainWorld, plain_jobs, plain_world, threaded_jobs
from vlib.run import Job
from vlib.storecheck import fresh_time, make_world, store_jobs
from vlib.world import Injected, InjectedBase, World, attempt

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically over plan shapes with a symbolic set of failing calls, symbolic kinds of exceptions "
    "(including falsy ones, BaseExceptions, uberjob's own error types, one object raised twice, C functions), max_errors, retry, "
    "scheduler and processing order; with a registry, a fault at a symbolic store operation or call. Nothing downstream of a "
    "failure starts; run raises CallError; its call is one that raised, its cause is the very exception, the first one that failed."
)
ASSUMPTIONS = [SCHEDULE_TEXT]
WITNESSES = ("failed", "several", "ok", "base", "store-op", "retried")
BOUNDS = {"plans": SHAPE_TEXT, "retry": "1..3", "max_errors": "0, 1, None"}


class Falsy(Exception):
    def __bool__(self):
        return False


class Equal(Exception):
    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


class Slotted(Exception):
    __slots__ = ()

    def __init__(self, a, b):
        super().__init__(a, b)


class EmptyError(Exception):
    def __len__(self):
        return 0

    def __str__(self):
        raise RuntimeError("no text")

    __repr__ = __str__


SHARED = Injected("one object, raised by several calls")
NODE = uberjob.Plan().call(len, ())
KINDS = {
    "injected": lambda i: Injected(i),
    "base": lambda i: InjectedBase(i),
    "ki": lambda i: KeyboardInterrupt(i),
    "exit": lambda i: SystemExit(i),
    "falsy": lambda i: Falsy(i),
    "equal": lambda i: Equal(i),
    "slotted": lambda i: Slotted(i, 2),
    "empty": lambda i: EmptyError(i),
    "stop": lambda i: StopIteration(i),
    "shared": lambda i: SHARED,
    "node-error": lambda i: NodeError(NODE),
    "call-error": lambda i: CallError(NODE),
    "chained": lambda i: chained(i),
    "assertion": lambda i: AssertionError(),
}


def chained(i):
    e = Injected(i)
    e.__cause__ = ValueError("the cause of the cause")
    return e


class FailWorld(PlainWorld):
    kind_names = ("injected",)

    def make_exception(self, i):
        return KINDS[self.ctx.choose(f"kind{i}", self.kind_names)](i)


def attempt_any(fn, *a, **kw):
    from vlib.symex import PathAbort, Violation

    try:
        return True, fn(*a, **kw)
    except (Violation, PathAbort):
        raise
    except BaseException as e:
        return False, e


def verify(ctx, w, ok, result):
    """The events of a run against its outcome."""
    failed = set()
    for e in w.events:
        if e[0] == "call":
            bad = failed & w.ancestors(e[1])
            ctx.check(not bad, f"call {e[1]} started after call {sorted(bad)}, on which it depends, failed")
        elif e[0] == "raise":
            failed.add(e[1])
    if not w.raised_exc:
        ctx.check(ok, f"run raised although nothing failed: {type(result)}")
        ctx.tag("ok")
        return
    ctx.tag("failed")
    ctx.check(not ok, f"run returned {result!r} although a call failed" if ok else "")
    ctx.check(isinstance(result, CallError), f"run raised {type(result).__name__} instead of CallError")
    cause = result.__cause__
    who = [i for i, e in w.raised_exc if w.nodes[i] is result.call]
    ctx.check(bool(who), "the call named by CallError did not raise in this run")
    ctx.check(any(cause is e for i, e in w.raised_exc if i == who[0]), f"the cause {type(cause).__name__} is not the exception that the call raised")
    if len(set(i for i, e in w.raised_exc)) > 1:
        ctx.tag("several")
    return who[0], cause


def harness(ctx, kinds, edges, codes, names=("injected",), retry=False, threads=None):
    w = plain_world(ctx, kinds, edges, codes, FailWorld)
    if threads:
        w.threads(**threads)
    w.kind_names = names
    kw = {}
    n = 1
    if retry:
        n = kw["retry"] = ctx.choose("retry", [2, 3])
        w.fail_counts = {i: ctx.int(f"fails{i}", 0, 4) for i in w.calls()}
    else:
        w.symbolic_failures()
    spec, want, out = w.output(allow_none=False, few=len(kinds) > 3) if not threads else (list(w.nodes), None, range(w.n))
    kw["max_errors"] = ctx.choose("max_errors", [0, None] if threads else [0, 1, 2, None])
    scheduler = "default" if threads else ctx.choose("scheduler", ["random", "default"])
    kw["progress"] = None
    if names != ("injected",) and not threads:
        rec = Recorder()
        kw["progress"] = ctx.choose("progress", [None, Progress(lambda: rec)])
    w.reset()
    ok, result = attempt_any(w_run, w, spec, scheduler, kw)
    ctx.note("world", w.describe())
    if retry:
        settled = []  # attempts that were not the last ones do not count
        per = {}
        for i, e in w.raised_exc:
            per.setdefault(i, []).append(e)
        if any(len(v) > 1 for v in per.values()):
            ctx.tag("retried")
        w.raised_exc = [(i, e) for k, (i, e) in enumerate(w.raised_exc) if i not in w.finished and e is per[i][-1]]
        w.events = [e for e in w.events if e[0] != "raise" or any(e[2] is x for _, x in w.raised_exc)]
        # later attempts of a call are starts of that call, not of something downstream
    got = verify(ctx, w, ok, result)
    if got is not None:
        first_i, first_e = w.raised_exc[0]
        # (with several threads, which of them was first is not defined)
        ctx.check(threads or got[0] == first_i and got[1] is first_e, f"call {got[0]} is named, but call {first_i} failed first")
        if not isinstance(first_e, Exception):
            ctx.tag("base")


def w_run(w, spec, scheduler, kw):
    import uberjob
    from vlib.world import symbolic_random

    w.events = []
    if w.under:
        r = w.run(spec, scheduler, **kw)
        if not r.ok:
            raise r.exc
        return r.value
    if scheduler == "random":
        with symbolic_random(w.ctx):
            return uberjob.run(w.plan, output=spec, scheduler="random", max_workers=1, **kw)
    return uberjob.run(w.plan, output=spec, scheduler=scheduler, max_workers=1, **kw)


def builtin(ctx):
    """Failing C functions, with and without retry."""
    plan = uberjob.Plan()
    what = ctx.choose("what", ["int", "next", "dict", "unpack", "gather"])
    if what == "int":
        node = plan.call(int, "x")
    elif what == "next":
        node = plan.call(next, plan.call(iter, ()))
    elif what == "dict":
        node = plan.call({}.__getitem__, 1)
    elif what == "unpack":
        node = plan.unpack(plan.lit((1, 2)), ctx.choose("n", [1, 3]))[0]
    else:
        node = plan.gather({plan.lit(()): {plan.call(list)}})
    ran = []
    after = plan.call(ran.append, node)
    r = attempt(uberjob.run, plan, output=after, max_workers=1, progress=None, retry=ctx.choose("retry", [None, 1, 2]))
    ctx.check(not r.ok and isinstance(r.exc, CallError), f"{what}: {r!r}")
    ctx.check(not ran, "a call downstream of a failed one ran")
    ctx.check(isinstance(r.exc.__cause__, (ValueError, StopIteration, KeyError, TypeError)), f"cause {r.exc.__cause__!r}")


def stores(ctx, kinds, codes, edges):
    """A failing call or store operation in a run with a registry."""
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    w.symbolic_state(invariant=False)
    w.fault_exc = None
    w.cut = ctx.int("cut", 0, 60)
    raised = []
    spec, want, out = w.output(few=True)
    ok, result = attempt_any(store_run, w, spec, dict(max_errors=ctx.choose("max_errors", [0, None])))
    ctx.note("world", w.describe())
    if not w.raised:
        ctx.check(ok, f"run raised although nothing failed: {result!r}")
        return
    ctx.check(not ok and isinstance(result, CallError), f"run did not raise CallError although {w.raised} failed: {result!r}")
    what = [f[0] for f in w.faults]
    fn = result.call.fn
    cause = result.__cause__
    ctx.check(cause is not None, "CallError without cause")
    if w.faults:
        kind, i = w.faults[0]
        kind = kind.removesuffix("-after")
        if kind == "call":
            ctx.check(result.call is w.nodes[i], f"call {i} raised, but {result.call!r} is named")
        elif kind in ("read", "write"):
            ctx.tag("store-op")
            ctx.check(fn.__name__ == kind, f"{kind} of store {i} raised, but {fn!r} is named")
        else:
            ctx.check(result.call is w.nodes[i] or fn.__name__ == "get_modified_time", f"modified time query of {i} raised, but {result.call!r} is named")
        ctx.check(isinstance(cause, (Injected, InjectedBase)), f"cause {cause!r}")
        # What depends on the failed operation without another store in between does not start afterwards.
        if kind == "read":
            after = {j for j in w.succs(i) if set(w.edges[i, j]) & set("agk")}
        else:
            after = through_plain(w, i) if kind in ("call", "write") else set()
        for e in w.events:
            if e[0] == "call":
                ctx.check(not (e[1] in after and w.after_fault(e)), f"call {e[1]} started after {kind} of {i}, on which it depends, failed")


def store_run(w, spec, kw):
    mark = []
    old = w.op

    def op(what, i):
        try:
            old(what, i)
        except BaseException:
            mark.append(len(w.events))
            raise

    w.op = op
    # what was appended after the fault came later
    w.after_fault = lambda e: bool(mark) and any(x is e for x in w.events[mark[0] :])
    w.events = []
    return uberjob.run(w.plan, output=spec, registry=w.registry, max_workers=1, progress=None, **kw)


def jobs(tier):
    thorough = tier == "thorough"
    out = []
    small = [s for s in shapes.PLAIN if len(s[1]) <= (5 if thorough else 4) and s[0] not in ("gathered",)]
    for j in plain_jobs(harness, tier, sizes=[(1, ("",)), (2, ("", "a", "d", "ad")), (3, ("", "a", "d") if thorough else ("", "d"))], shape=small):
        out.append(j)
    for name, kinds, edges in [("one", "C", {}), ("pair", "CC", {(0, 1): "a"}), ("apart", "CC", {}), ("lit", "CLC", {(0, 1): "d", (1, 2): "d"})]:
        out.append(Job(f"kinds-{name}", harness, dict(kinds=kinds, edges=edges, codes=(), names=tuple(KINDS))))
    for name, kinds, edges in [("pair", "CC", {(0, 1): "a"}), ("apart", "CC", {}), ("fan", "CCC", {(0, 1): "a", (0, 2): "d"})]:
        out.append(Job(f"retry-{name}", harness, dict(kinds=kinds, edges=edges, codes=(), retry=True)))
    out.append(Job("builtin", builtin))
    st = [s for s in shapes.STORED if s[0] in ("parallel-R", "diamond-C", "stored-lit", "dsource", "chain-RLRC-d", "dep-through-call")]
    for j in store_jobs(stores, {1: "CRSM", 2: "CRSM"}, stored=st):
        j.name = "stores-" + j.name
        out.append(j)
    out += threaded_jobs(harness, tier, ("pair", "join", "fork") + ("ladder", "diamond") * thorough)
    out += [j for j in threaded_jobs(harness, tier, ("pair",), names=("injected", "base", "falsy")) if j.params["threads"]["preemptions"] == 0]
    out[-1].name += "-kinds"
    return out
