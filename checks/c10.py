import functools
import threading

import uberjob
from uberjob import CallError
from uberjob._errors import NodeError
from vlib import shapes
from vlib.plain import SCHEDULE_TEXT, SHAPE_TEXT, PlainWorld, plain_jobs, plain_world, threaded_jobs
from vlib.run import Job
from vlib.sched import Sched
from vlib.storecheck import make_world
from vlib.symex import And, Implies, Ite, Not, Or, SymNum
from vlib.world import Injected, InjectedBase, World, attempt, symbolic_random

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically: per call (store operation, modified time query) the number of failing attempts is a "
    "symbolic integer, the set of failing calls, max_errors, the scheduler and the processing order are symbolic. With one "
    "worker exactly min(k + 1, failing calls whose dependencies did not fail) calls fail, a formula over all failing bits; with "
    "max_errors=None everything not downstream of a failure is executed; attempts are min(failing + 1, retry), the last "
    "exception is reported. Parallelism: all that is ready rendezvous, up to max_workers and no more."
)
ASSUMPTIONS = [
    SCHEDULE_TEXT,
    "exact counts of failures with one worker; with several, bounds, under symbolic schedules and at rendezvous",
    "the 'parallel-calls/read/write/stale' jobs run real threads; what they check does not depend on which of them proceeds",
]
WITNESSES = ("limit-hit", "all-errors", "retried", "exhausted", "rendezvous", "store-retry", "stale-workers", "met", "preempted", "store-errors", "base-errors", "arguments")
BOUNDS = {"plans": SHAPE_TEXT, "retry": "1..4 attempts, 0..5 failing ones", "max_errors": "0..3, None", "workers at rendezvous": "1..4"}


def total(bits):
    s = 0
    for b in bits:
        s = Ite(b, 1, 0) + s
    return s


class Odd(Exception):
    """Without a truth value, equal to everything."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


class MixedWorld(PlainWorld):
    mix = None

    def make_exception(self, i):
        return self.mix[i % len(self.mix)](f"call {i}")


def errors(ctx, kinds, edges, codes, mixes=((Injected,),)):
    w = plain_world(ctx, kinds, edges, codes, MixedWorld)
    w.mix = ctx.choose("exceptions", list(mixes))
    if len(w.mix) > 1:
        ctx.tag("base-errors")
    w.symbolic_failures()
    spec, want, out = w.output(allow_none=False, few=True)
    k = ctx.choose("max_errors", [0, 1, 2, None])
    r = w.run(spec, ctx.choose("scheduler", ["random", "default"]), max_errors=k)
    ctx.note("world", w.describe())
    needed = [i for i in w.needed(out)]
    failed = sorted({i for i, _ in w.raised_exc})
    eligible = [And(w.failing[i], Not(w.blocked(i))) for i in needed]
    if k is None:
        for i in needed:
            ctx.check(Or(w.blocked(i), i in w.started), f"call {i} was not executed although max_errors is None and nothing it depends on failed")
            ctx.check(Or(Not(w.blocked(i)), i not in w.started), f"call {i} was executed although something it depends on failed")
        if len(failed) > 1:
            ctx.tag("all-errors")
    t = total(eligible)
    n = len(failed)
    limit = t if k is None else Ite(t < k + 1, t, k + 1) if not isinstance(t, int) else min(t, k + 1)
    ctx.check(limit == n, f"{n} calls failed with max_errors={k}, not min(k + 1, failing calls whose dependencies did not fail)")
    if k is not None and n == k + 1:
        ctx.tag("limit-hit")
    ctx.check(r.ok == (not failed), f"{n} calls failed, run: {r!r}")


def concurrent(w):
    """The largest number of calls that were executing at once."""
    inside = most = 0
    for e in w.events:
        if e[0] in ("call", "end", "raise"):
            inside += 1 if e[0] == "call" else -1
            most = max(most, inside)
    return most


def threaded(ctx, kinds, edges, codes, threads, what):
    """Limits with several workers under a symbolic schedule."""
    w = plain_world(ctx, kinds, edges, codes)
    w.threads(**threads)
    workers = threads["workers"]
    if what in ("errors", "all-fail"):
        w.symbolic_failures()
        if what == "all-fail":
            w.failing = {i: True for i in w.failing}
        k = ctx.choose("max_errors", [0, 1, None]) if what == "errors" else 1
        r = w.run(list(w.nodes), max_errors=k)
        ctx.note("world", w.describe())
        n = len({i for i, _ in w.raised_exc})
        ctx.check(k is None or n <= k + workers, f"{n} calls failed with max_errors={k} and {workers} workers")
        for i in w.calls():
            if k is None:
                ctx.check(Or(w.blocked(i), i in w.started), f"call {i} was not executed although max_errors is None and nothing it depends on failed")
            if r.ok:
                ctx.check(i in w.finished, f"call {i} was not executed although run returned")
        # With no more failures than are allowed, everything that can be executed is.
        if k is not None and n <= k:
            for i in w.calls():
                ctx.check(Or(w.blocked(i), i in w.started), f"call {i} was not executed although only {n} calls failed with max_errors={k}")
    else:
        w.fail_counts = {i: ctx.int(f"fails{i}", 0, 3) for i in w.calls()}
        r = w.run(list(w.nodes), max_errors=None, retry=2)
        ctx.note("world", w.describe())
        for i in w.calls():
            a = w.attempts.get(i, 0)
            ctx.check(Or(a == 0, Ite(w.fail_counts[i] < 2, w.fail_counts[i] + 1, 2) == a), f"call {i} was attempted {a} times, retry=2")
            ctx.check(Implies(w.fail_counts[i] < 2, Or(a == 0, i in w.finished)), f"call {i} did not count as successful")
    ctx.check(concurrent(w) <= workers, f"{concurrent(w)} calls executed at once with {workers} workers")


def threaded_rendezvous(ctx, n, root, threads, sched):
    """Calls that wait until as many are inside as can be: under every schedule they meet."""
    workers = threads["workers"]
    plan = uberjob.Plan()
    s = Sched(ctx, **{k: v for k, v in threads.items() if k != "workers"})
    state = {"inside": 0, "most": 0}
    size = min(n, workers)
    r = None
    with s:
        cv = threading.Condition()

        def meet(*args):
            with cv:
                state["inside"] += 1
                state["most"] = max(state["most"], state["inside"])
                cv.notify_all()
                cv.wait_for(lambda: state["most"] >= size)
            s.yield_()
            with cv:
                state["most"] = max(state["most"], state["inside"])
                state["inside"] -= 1

        first = plan.call(tuple) if root else None
        nodes = [plan.call(meet, *([first] if root else [])) for _ in range(n)]
        with symbolic_random(ctx):
            r = attempt(uberjob.run, plan, output=nodes, max_workers=workers, progress=None, scheduler=sched)
    ctx.check(s.deadlock is None, f"only {state['most']} of {n} independent calls run at once with {workers} workers: {s.deadlock}")
    ctx.check(r.ok, f"{r!r}")
    ctx.check(state["most"] == size, f"{state['most']} calls executed at once, {n} calls, {workers} workers")
    ctx.tag("met")


def retries(ctx, kinds, edges, codes, form):
    """Symbolic numbers of failing attempts."""
    w = plain_world(ctx, kinds, edges, codes)
    w.fail_counts = {i: ctx.int(f"fails{i}", 0, 5) for i in w.calls()}
    spec, want, out = w.output(allow_none=False, few=True)
    n = ctx.choose("retry", [1, 2, 3, 4] if form == "int" else [2])
    decorated = []

    def decorator(f):
        decorated.append(f)

        @functools.wraps(f)
        def wrapper(*a, **k):
            try:
                return f(*a, **k)
            except Injected:
                return f(*a, **k)

        return wrapper

    k = ctx.choose("max_errors", [0, None])
    r = w.run(spec, ctx.choose("scheduler", ["random", "default"]), max_errors=k, retry=n if form == "int" else decorator)
    ctx.note("world", w.describe())
    last = {}
    for i, e in w.raised_exc:
        last[i] = e
    for i in w.calls():
        a = w.attempts.get(i, 0)
        if a:
            want_n = Ite(w.fail_counts[i] < n, w.fail_counts[i] + 1, n)
            ctx.check(want_n == a, f"call {i} was attempted {a} times, retry={n}")
            ctx.check(Implies(w.fail_counts[i] < n, i in w.finished), f"call {i} did not count as successful")
            ctx.check(a == 1 or i not in w.finished or w.events.count(("end", i)) == 1, f"attempts of call {i} after its success")
            if a > 1:
                ctx.tag("retried")
            if i not in w.finished:
                ctx.tag("exhausted")
    exhausted = [i for i in last if i not in w.finished]
    ctx.check(r.ok == (not exhausted), f"exhausted: {exhausted}, run: {r!r}")
    if not r.ok:
        ctx.check(isinstance(r.exc, CallError) and r.exc.__cause__ is last[exhausted[0]], "the exception reported is not the one of the last attempt")
    elif k is None or True:
        for i in w.needed(out):
            ctx.check(r.ok and i in w.finished or not r.ok, f"call {i} was not executed although everything it depends on succeeded eventually")
        ctx.check(r.value == want_value(w, out, spec), f"run returned {r.value!r}")


def want_value(w, out, spec):
    if len(out) == 1:
        return w.consumed(out[0])
    a, b = out
    return {"x": [w.consumed(a), 7], "y": (w.consumed(b), w.consumed(a))}


def stores(ctx, kinds, edges):
    """Failing attempts of store operations and modified time queries."""
    w = World(ctx, kinds, edges)
    w.symbolic_state(invariant=False)
    counts = {}
    done = {}
    limits = {}
    for i in sorted(w.stores):
        for what in ("mtime", "read", "write"):
            if what != "write" or kinds[i] in "RM":
                limits[what, i] = ctx.int(f"fails_{what}{i}", 0, 3) if ctx.choose(f"flaky_{what}{i}", [False, True]) else 0
    last = {}

    def op(what, i):
        if (what, i) in limits:
            ctx.check(not done.get((what, i)), f"{what} of store {i} was attempted again after it succeeded")
            c = counts[what, i] = counts.get((what, i), 0) + 1
            if bool(limits[what, i] >= c):
                last[what, i] = e = Injected(f"{what} {i} attempt {c}")
                raise e
            done[what, i] = True

    w.op_hook = op
    n = ctx.choose("retry", [1, 2, 3])
    spec, want, out = w.output(few=True)
    r = w.run(spec, retry=n)
    ctx.note("world", w.describe())
    for key, c in counts.items():
        ctx.check(Ite(limits[key] < n, limits[key] + 1, n) == c, f"{key[0]} of store {key[1]} was attempted {c} times, retry={n}")
        if c > 1:
            ctx.tag("store-retry")
    exhausted = [key for key in last if not done.get(key)]
    ctx.check(r.ok == (not exhausted) or not exhausted and w.raised, f"exhausted {exhausted}, run: {r!r}")
    if exhausted:
        ctx.check(not r.ok and isinstance(r.exc, CallError) and r.exc.__cause__ is last[exhausted[0]], f"reported {r!r}, last attempt raised {last[exhausted[0]]!r}")


def physical(w, out):
    """
    The operations of a run in which every stored value is missing, and what each one waits for: {(what, i): [operations]}.
    Sources are read, stored values are written and, where they are consumed, read back.
    """
    ops = {}

    def value(p):
        if w.kinds[p] == "C":
            return add("call", p)
        return add("read", p)

    def add(what, i):
        if (what, i) not in ops:
            ops[what, i] = deps = []
            if what == "read":
                deps.extend([add("write", i)] if w.kinds[i] == "R" else [])
            elif what == "write":
                deps.append(add("call", i))
            else:
                for p in w.preds(i):
                    for c in w.edges[p, i]:
                        if c != "d":
                            deps.append(value(p))
                        elif w.kinds[p] != "S":
                            deps.append(add("write" if w.kinds[p] == "R" else "call", p))
        return what, i

    for i in w.stores:
        if w.kinds[i] == "R":
            add("write", i)
    for i in out:
        value(i)
    return ops


def store_errors(ctx, kinds, edges):
    """Reads and writes count like calls."""
    w = World(ctx, kinds, edges)
    for i, s in w.stores.items():
        s.present = kinds[i] == "S"
        s.mtime = i
    spec, want, out = w.output(few=True)
    ops = physical(w, out)
    fails = {op: ctx.bool(f"fails_{op[0]}{op[1]}") for op in sorted(ops)}
    base = ctx.choose("base", [False, True])
    log = []

    def hook(what, i):
        if (what, i) in fails:
            log.append((what, i))
            if bool(fails[what, i]):
                failed.append((what, i))
                raise (InjectedBase if base else Injected)(f"{what} {i}")

    failed = []
    w.op_hook = hook
    k = ctx.choose("max_errors", [0, 1, None])
    r = w.run(spec, ctx.choose("scheduler", ["random", "default"]), max_errors=k)
    ctx.note("world", w.describe())

    def blocked(op):
        return Or(False, *[Or(fails[d], blocked(d)) for d in ops[op]])

    t = total([And(fails[op], Not(blocked(op))) for op in ops])
    n = len(failed)
    limit = t if k is None else Ite(t < k + 1, t, k + 1) if not isinstance(t, int) else min(t, k + 1)
    ctx.check(limit == n, f"{failed} failed with max_errors={k}, which are not min(k + 1, those whose dependencies did not fail)")
    ctx.check(len(log) == len(set(log)), f"operations executed twice: {log}")
    ctx.check(r.ok == (not failed), f"{failed} failed, run: {r!r}")
    if k is None:
        for op in ops:
            ctx.check(Or(op in log, blocked(op)), f"{op} was not executed although max_errors is None and nothing it depends on failed")
    for op in log:
        ctx.check(Not(blocked(op)), f"{op} was executed although something it depends on failed")
    ctx.tag("store-errors")


class Meeting:
    """
    Calls block until as many are inside as can be at once, then all leave. The party that should form is known; whoever
    waits for longer than the patience gives up, and the check fails.
    """

    patience = 20

    def __init__(self, size):
        self.cv = threading.Condition()
        self.size = size
        self.inside = 0
        self.most = 0
        self.missed = None

    def call(self, *args):
        with self.cv:
            self.inside += 1
            self.most = max(self.most, self.inside)
            self.cv.notify_all()
            if not self.cv.wait_for(lambda: self.most >= self.size, self.patience) and self.missed is None:
                self.missed = self.most
                self.most = self.size
                self.cv.notify_all()
        # A moment in which one more call could start, if it were allowed to.
        self.pause.wait(0.02)
        with self.cv:
            self.most = max(self.most, self.inside)
            self.inside -= 1

    pause = threading.Event()


def parallel(ctx, what):
    """n independent calls (store operations, queries) and a limit: min(n, limit) run at once, and never more."""
    n = ctx.choose("n", [1, 2, 3, 5])
    limit = ctx.choose("max_workers", [1, 2, 3, 4])
    size = min(n, limit)
    m = Meeting(size)
    plan = uberjob.Plan()
    registry = None
    kw = dict(max_workers=limit, progress=None)
    if what == "stale":
        kw["stale_check_max_workers"] = limit
        kw["max_workers"] = ctx.choose("run_workers", [None, 1, 7])
        if ctx.choose("defaulted", [False, True]):
            kw["max_workers"] = limit
            del kw["stale_check_max_workers"]
        ctx.tag("stale-workers")
    else:
        kw["scheduler"] = ctx.choose("scheduler", ["default", "random"])
        # a limit for the queries is no limit for the calls
        other = ctx.choose("stale_workers", [None, 1])
        if other:
            kw["stale_check_max_workers"] = other
    shape = ctx.choose("shape", ["flat", "after-one", "after-lit", "after-two", "after-three"]) if what == "calls" else "flat"
    root = plan.call(tuple) if shape != "flat" else None
    roots = [root, *[plan.call(tuple) for _ in range({"after-two": 1, "after-three": 2}.get(shape, 0))]]
    if shape == "after-lit":
        lit = plan.lit(None)
        plan.add_dependency(root, lit)
        root = lit

    class Store(uberjob.ValueStore):
        def __init__(self, what):
            self.what = what

        def read(self):
            if what == "read":
                m.call()
            return 1

        def write(self, value):
            if what == "write":
                m.call()

        def get_modified_time(self):
            if what == "stale":
                m.call()
            return None if what == "write" else uberjob_time

    import datetime as dt

    uberjob_time = dt.datetime(2020, 1, 1)
    nodes = []
    if what != "calls":
        registry = uberjob.Registry()
    for _ in range(n):
        if what == "calls":
            node = plan.call(m.call)
            if root is not None:
                plan.add_dependency(roots[len(nodes) % len(roots)] if len(roots) > 1 else root, node)
        elif what == "read":
            node = registry.source(plan, Store(what))
        elif what == "write":
            node = plan.call(tuple)
            registry.add(node, Store(what))
        else:
            node = registry.source(plan, Store(what)) if ctx.choose("kind", ["source", "stored"]) == "source" else plan.call(tuple)
            if registry.get(node) is None:
                registry.add(node, Store(what))
        nodes.append(node)
    r = attempt(uberjob.run, plan, output=nodes if what != "write" else None, registry=registry, **kw)
    ctx.check(r.ok, f"{r!r}")
    ctx.check(m.missed is None, f"{what}: only {m.missed} of {n} independent ones ran at once, max_workers={limit}")
    ctx.check(m.most <= limit, f"{what}: {m.most} ran at once, max_workers={limit}")
    ctx.tag("rendezvous")


class Own(Exception):
    pass


def arguments(ctx):
    """Every attempt of a call gets the arguments, whatever the ones before did and raised."""
    types = [Own, Odd, StopIteration, RuntimeError, TimeoutError, AssertionError, CallError, NodeError]
    fails = ctx.int("fails", 0, 4)
    n = ctx.choose("retry", [1, 2, 3])
    first, later = ctx.choose("first", types), ctx.choose("later", [Own, Odd, StopIteration])
    shared = ctx.choose("one_object", [False, True])
    names = ctx.choose("names", [(), ("x",), ("x", "self"), ("f", "args", "kwargs", "attempts")])
    plan, registry = uberjob.Plan(), uberjob.Registry()
    a, inner = plan.call(object), plan.call(list)
    seen, raised = [], []

    def make(kind):
        if issubclass(kind, (CallError, NodeError)):
            return kind(inner)
        return kind("attempt")

    def f(*args, **kwargs):
        seen.append((args, dict(kwargs)))
        kwargs.clear()
        if bool(fails >= len(seen)):
            if not (shared and raised):
                raised.append(make(later if raised else first))
            raise raised[-1]
        return seen

    node = plan.call(f, a, [a], 5, **{k: a for k in names})
    last = plan.call(id, node)
    with symbolic_random(ctx):
        r = attempt(uberjob.run, plan, output=[a, last], retry=n, max_workers=1, progress=None, scheduler="random")
    want = Ite(fails < n, fails + 1, n)
    ctx.check(want == len(seen), f"a call with keyword arguments {names} that raised {first.__name__} was attempted {len(seen)} times, retry={n}")
    for args, kwargs in seen:
        ctx.check(len(args) == 3 and args[0] is seen[0][0][0] and args[1] == [args[0]] and args[2] == 5, f"an attempt received {args}, the first one {seen[0]}")
        ctx.check(list(kwargs) == list(names) and all(v is args[0] for v in kwargs.values()), f"an attempt received {kwargs}, the first one {seen[0]}")
    ctx.check(Implies(fails < n, r.ok), f"the call succeeded, the run: {r!r}")
    ctx.check(Implies(fails >= n, not r.ok and isinstance(r.exc, CallError) and r.exc.call is node and r.exc.__cause__ is raised[-1]), f"reported: {r!r}")
    ctx.tag("arguments")


def limits(ctx):
    """Arguments that make no sense are refused; attempts of a failing call under every accepted one."""
    what, value = ctx.choose(
        "arg", [("max_workers", 0), ("max_workers", -1), ("max_errors", -1), ("retry", 0), ("retry", -1), ("stale_check_max_workers", 0)]
    )
    plan = uberjob.Plan()
    ran = []
    node = plan.call(ran.append, 1)
    try:
        uberjob.run(plan, output=node, progress=None, **{what: value})
    except (ValueError, TypeError):
        ctx.check(not ran, "a call ran although the arguments were refused")
        return
    ctx.fail(f"{what}={value} was accepted")


def jobs(tier):
    thorough = tier == "thorough"
    small = [s for s in shapes.PLAIN if len(s[1]) <= (6 if thorough else 5) and (thorough or s[0] != 'gathered')]
    out = [
        j
        for j in plain_jobs(errors, tier, sizes=[(1, ("",)), (2, ("", "a")), (3, ("", "a", "d") if thorough else ("", "d"))], shape=small)
    ]
    mixes = ((InjectedBase, InjectedBase), (InjectedBase, Injected), (Injected, InjectedBase), (Odd, Odd), (KeyboardInterrupt, SystemExit), (StopIteration, Odd))
    for name, kinds, edges in [("flat", "CCC", {}), ("fan", "CCC", {(0, 1): "a", (0, 2): "d"}), ("join", "CCC", {(0, 2): "a", (1, 2): "d"})]:
        out.append(Job(f"kinds-{name}", errors, dict(kinds=kinds, edges=edges, codes=(), mixes=mixes)))
    for name, kinds, edges in [
        ("pair", "RR", {}),
        ("sources", "SSC", {(0, 2): "a", (1, 2): "a"}),
        ("chain", "SRC", {(0, 1): "a", (1, 2): "a"}),
        ("dep", "RRC", {(0, 1): "d", (1, 2): "d"}),
        ("join", "RCR", {(0, 2): "a", (1, 2): "a"}),
        ("fork", "RCC", {(0, 1): "a", (0, 2): "d"}),
    ][: None if thorough else 5]:
        out.append(Job(f"store-errors-{name}", store_errors, dict(kinds=kinds, edges=edges)))
    for form in ("int", "decorator"):
        for name, kinds, edges in [("one", "C", {}), ("pair", "CC", {(0, 1): "a"}), ("fan", "CCC", {(0, 1): "a", (0, 2): "d"}), ("lit", "CLC", {(0, 1): "d", (1, 2): "d"})]:
            out.append(Job(f"retry-{form}-{name}", retries, dict(kinds=kinds, edges=edges, codes=(), form=form)))
    for name, kinds, edges in [("one", "R", {}), ("source", "SC", {(0, 1): "a"}), ("pair", "SR", {(0, 1): "a"}), ("lit", "MC", {(0, 1): "a"})]:
        out.append(Job(f"store-retry-{name}", stores, dict(kinds=kinds, edges=edges)))
    for what in ("calls", "read", "write", "stale"):
        out.append(Job(f"parallel-{what}", parallel, dict(what=what), path_timeout=60))
    for what in ("errors", "retry"):
        for j in threaded_jobs(threaded, tier, ("pair", "join", "fork") if what == "errors" or thorough else ("pair",), what=what):
            j.name += "-" + what
            out.append(j)
    for y in (4, 6) if thorough else (4,):
        # every call fails: no failure may be lost in the count
        b = dict(workers=2, preemptions=1, yields=y, within="run_function_on_graph.py")
        out.append(Job(f"preempted1-flat4-{y}-all-fail", threaded, dict(kinds="CCCC", edges={}, codes=(), threads=b, what="all-fail"), path_timeout=60))
    for n, root in ((2, True), (3, False)) if not thorough else ((2, True), (3, True), (3, False), (4, True)):
        for sched in ("default", "random"):
            for workers in (2, 3):
                b = dict(workers=workers, preemptions=1 if workers == 2 else 0, yields=2 * thorough + 4 * (workers == 3))
                out.append(Job(f"meet-{n}-{workers}-{root}-{sched}", threaded_rendezvous, dict(n=n, root=root, threads=b, sched=sched), path_timeout=60))
    out.append(Job("limits", limits))
    out.append(Job("arguments", arguments))
    return out
