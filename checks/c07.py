import datetime as dt
import threading

import uberjob
from uberjob.progress import Progress, ProgressObserver
from checks.c06 import KINDS, FailWorld, attempt_any
from vlib import shapes
from vlib.plain import SCHEDULE_TEXT, SHAPE_TEXT, PlainWorld, plain_jobs, plain_world, threaded_jobs
from vlib.run import Job
from vlib.storecheck import make_world, store_jobs
from vlib.world import Injected, World, attempt, symbolic_random

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically over acyclic plans (symbolic failures of every kind, max_errors, processing order, worker "
    "count, a worker thread that cannot be started, an observer that raises, nested runs) and over arbitrary cyclic plans (all "
    "edge sets, self loops, literals, stores). Every path must terminate (a path that does not is a violation), with no thread "
    "left and nothing running or starting later; a cycle among the nodes to be examined must raise before any call or store "
    "access."
)
ASSUMPTIONS = [
    SCHEDULE_TEXT,
    "other paths with more than one worker run real threads (their failures are fixed beforehand)",
    "the nodes a run has to examine: all of them with a registry, those the output depends on without",
]
WITNESSES = ("failed", "ok", "cycle", "irrelevant-cycle", "literal-cycle", "no-thread", "observer", "nested", "stored-cycle", "scheduled", "scheduled-failed", "preempted", "deep")
BOUNDS = {"plans": SHAPE_TEXT, "cyclic plans": "all edge sets over up to 3 nodes (self loops included)", "workers": "1, 2, 5, default"}


def threads():
    return set(threading.enumerate())


def settled(ctx, before, w=None):
    left = threads() - before
    ctx.check(not left, f"threads still alive when run ended: {sorted(t.name for t in left)}")


def acyclic(ctx, kinds, edges, codes, names=("injected",)):
    w = plain_world(ctx, kinds, edges, codes, FailWorld)
    w.kind_names = names
    w.symbolic_failures()
    workers = ctx.choose("workers", [1, 2, 5, None])
    scheduler = ctx.choose("scheduler", ["random", "default"] if workers == 1 else ["default"])
    spec, want, out = w.output(few=True)
    if workers != 1:
        w.failing = {i: bool(b) for i, b in w.failing.items()}
        chosen = {i: ctx.choose(f"kind{i}", names) for i in w.failing}
        w.make_exception = lambda i: KINDS[chosen[i]](i)
    before = threads()
    w.events = []
    w.reset()
    kw = dict(output=spec, scheduler=scheduler, max_workers=workers, progress=None, max_errors=ctx.choose("max_errors", [0, None]))
    if scheduler == "random":
        with symbolic_random(ctx):
            ok, result = attempt_any(uberjob.run, w.plan, **kw)
    else:
        ok, result = attempt_any(uberjob.run, w.plan, **kw)
    n = len(w.started)
    ctx.note("world", w.describe())
    settled(ctx, before)
    ctx.check(ok == (not w.raised_exc), f"run: {result!r}")
    ctx.check(len(w.finished) + len(w.raised_exc) == len(w.started), "a call was still executing when run ended")
    ctx.check(len(w.started) == n, "a call started after run ended")
    ctx.tag("ok" if ok else "failed")


def thread_failure(ctx, kinds, edges):
    """A worker thread cannot be started."""
    w = plain_world(ctx, kinds, edges, ())
    workers = ctx.choose("workers", [1, 2, 3])
    bad = ctx.choose("bad", [0, 1, 2])
    spec, want, out = w.output(allow_none=False, few=True)
    real = threading.Thread.start
    n = [0]

    def start(self):
        n[0] += 1
        if n[0] - 1 == bad:
            ctx.tag("no-thread")
            raise RuntimeError("can't start new thread")
        return real(self)

    before = threads()
    threading.Thread.start = start
    try:
        r = w.run(spec, max_workers=workers)
    finally:
        threading.Thread.start = real
    settled(ctx, before)
    if bad < workers:
        ctx.check(not r.ok or r.value == want, f"run: {r!r}")
    else:
        ctx.check(r.ok, f"run: {r!r}")


class Raising(ProgressObserver):
    def __init__(self, ctx):
        self.cut = ctx.int("observer_cut", 0, 30)
        self.n = 0
        self.lock = threading.Lock()

    def _op(self):
        k = self.n
        self.n += 1
        if self.cut == k:
            raise Injected("observer")

    def __enter__(self):
        self._op()

    def __exit__(self, *exc):
        pass

    def increment_total(self, **k):
        self._op()

    increment_running = increment_completed = increment_failed = increment_total


def observer(ctx, kinds, edges, codes):
    w = plain_world(ctx, kinds, edges, codes)
    w.symbolic_failures()
    before = threads()
    r = w.run(w.output(allow_none=False, few=True)[0], progress=Progress(lambda: Raising(ctx)), max_errors=ctx.choose("max_errors", [0, None]))
    settled(ctx, before)
    ctx.check(len(w.finished) + len(w.raised_exc) == len(w.started), "a call was still executing when run ended")
    ctx.tag("observer")


def nested(ctx):
    """Runs inside calls, of the same plan or another one."""
    inner = uberjob.Plan()
    fail = ctx.choose("fail", [False, True])

    def leaf():
        if fail:
            raise Injected("inner")
        return 1

    x = inner.call(leaf)
    outer = uberjob.Plan()
    depth = ctx.choose("depth", [1, 2])
    workers = ctx.choose("workers", [1, 2])

    def go():
        return uberjob.run(inner, output=x, max_workers=workers, progress=None)

    y = outer.call(go)
    if depth == 2:
        z = uberjob.Plan()
        q = z.call(lambda outer=outer, y=y: uberjob.run(outer, output=y, max_workers=workers, progress=None))
        outer, y = z, q
    before = threads()
    r = attempt(uberjob.run, outer, output=[y, y], max_workers=workers, progress=None)
    settled(ctx, before)
    ctx.check(r.ok != fail and (fail or r.value == [1, 1]), f"{r!r}")
    ctx.tag("nested")


class Busy(FailWorld):
    executing = 0

    def on_call(self, i, args, kwargs):
        self.executing += 1
        try:
            return super().on_call(i, args, kwargs)
        finally:
            self.executing -= 1


def scheduled(ctx, kinds, edges, codes, threads, fail=False, names=("injected",)):
    """Under every schedule run ends, and every thread it created has ended by then."""
    w = Busy(ctx, kinds, edges)
    w.threads(**threads)
    w.kind_names = names
    if fail:
        w.symbolic_failures()
    k = ctx.choose("max_errors", [0, None]) if fail else 0
    scheduler = ctx.choose("scheduler", ["default", "random"]) if not fail or w.n == 1 else "default"
    ok, r = attempt_any(w.run, list(w.nodes), scheduler, max_errors=k)
    s = w.last_sched
    ctx.note("world", {**w.describe(), "schedule": s.describe_schedule()})
    s.check()  # no deadlock, no dead thread
    if ok:
        ok, r = r.ok, r.value if r.ok else r.exc
    ctx.check(not s.leftover, f"threads still alive when run ended: {s.left}")
    ctx.check(w.executing == 0 and len(w.finished) + len(w.raised_exc) == len(w.started), "a call was still executing when run ended")
    ctx.check(ok == (not w.raised_exc), f"{w.raised_exc} were raised, run: {r!r}")
    if ok:
        ctx.check(len(w.finished) == len(w.calls()), f"run returned, but only {w.finished} were executed")
    ctx.tag("scheduled" if ok else "scheduled-failed")


# Cycles


def find_cycles(n, edges):
    """Nodes on a cycle."""
    reach = {i: {j for a, j in edges if a == i} for i in range(n)}
    for k in range(n):
        for i in range(n):
            if k in reach[i]:
                reach[i] |= reach[k]
    return {i for i in range(n) if i in reach[i]}, reach


def cyclic(ctx, kinds, registry, workers=1, density=None):
    n = len(kinds)
    plan = uberjob.Plan()
    reg = uberjob.Registry()
    w = World(ctx, "", {})
    from vlib.world import WorldStore

    w.kinds = kinds
    ran = []
    nodes = []

    def store(i):
        s = WorldStore(w, i)
        s.present = ctx.choose(f"present{i}", [False, True])
        s.mtime = i
        s.good = True
        s.initial = True
        return s

    for i, k in enumerate(kinds):
        if k in "CR":
            def fn(*a, i=i):
                ran.append(i)
                return i

            # a forward argument edge, perhaps
            arg = [nodes[i - 1]] if i and kinds[i - 1] != "S" and ctx.choose(f"arg{i}", [False, True]) else []
            node = plan.call(fn, *arg)
            if k == "R":
                reg.add(node, store(i))
            nodes.append(node)
        elif k == "S":
            nodes.append(reg.source(plan, store(i)))
        else:
            nodes.append(plan.lit(i))
            if k == "M":
                reg.add(nodes[-1], store(i))
    edges = {(i - 1, i) for i in range(1, n) if kinds[i] in "CR" and nodes[i - 1] in set(plan.graph.predecessors(nodes[i]))}
    for i in range(n):
        for j in range(n):
            if ctx.choose(f"dep{i}{j}", [False, True]):
                plan.add_dependency(nodes[i], nodes[j])
                edges.add((i, j))
    on, reach = find_cycles(n, edges)
    out = ctx.choose("output", [None, 0, n - 1]) if n > 1 else ctx.choose("output", [None, 0])
    spec = None if out is None else nodes[out] if ctx.choose("wrapped", [False, True]) else [nodes[out]]
    registry = registry and len(reg) > 0  # an empty registry counts as none
    examined = set(range(n)) if registry else {i for i in range(n) if out is not None and (i == out or out in reach[i])}
    w.events = []
    before = threads()
    kw = dict(dry_run=ctx.choose("dry", [False, True])) if density is None else {}
    r = attempt(uberjob.run, plan, output=spec, registry=reg if registry else None, max_workers=workers, progress=None, **kw)
    settled(ctx, before)
    ctx.note("cycle", {"kinds": kinds, "edges": sorted(edges), "output": out})
    if on & examined:
        ctx.tag("cycle")
        if all(kinds[i] in "LM" for i in on):
            ctx.tag("literal-cycle")
        if registry and any(kinds[i] in "RSM" for i in on):
            ctx.tag("stored-cycle")
        ctx.check(not r.ok, f"a cycle over {sorted(on)} was not reported (edges {sorted(edges)}): run returned {r.value!r}")
        ctx.check(not ran, f"calls {ran} executed before the cycle was reported")
        ctx.check(not w.events, f"stores were accessed before the cycle was reported: {w.events}")
    else:
        if on:
            ctx.tag("irrelevant-cycle")
        if "S" in kinds and not registry:
            return
        if r.ok and not kw.get("dry_run"):
            want = None if out is None else nodes[out].value if kinds[out] in "LM" else out
            if registry and out is not None and kinds[out] in "SRM":
                return
            ctx.check(r.value == (want if not isinstance(spec, list) else [want]), f"returned {r.value!r} instead of {want!r}")
        if not on:
            missing = registry and any(kinds[i] == "S" for i in range(n))
            ctx.check(r.ok or missing, f"an acyclic plan was refused: {r!r}")


def ring(ctx, size):
    """Long cycles, entered from outside."""
    plan = uberjob.Plan()
    ran = []
    nodes = []
    for i in range(size):
        nodes.append(plan.call(lambda *a: ran.append(1)) if ctx.choose(f"lit{i}", [False, True]) is False else plan.lit(i))
    entry = plan.call(lambda: ran.append(0))
    for i in range(size):
        plan.add_dependency(nodes[i], nodes[(i + 1) % size])
    plan.add_dependency(entry, nodes[0])
    exit_ = plan.call(lambda: ran.append(2))
    plan.add_dependency(nodes[-1], exit_)
    spec = ctx.choose("output", [exit_, [nodes[1]], entry])
    before = threads()
    r = attempt(uberjob.run, plan, output=spec, max_workers=ctx.choose("workers", [1, 2]), progress=None)
    settled(ctx, before)
    if spec is entry:
        ctx.check(r.ok and ran == [0], f"{r!r}, ran {ran}")
    else:
        ctx.check(not r.ok and not ran, f"{r!r}, ran {ran}")
        ctx.tag("cycle")


class Cell(uberjob.ValueStore):
    def __init__(self, value=None, time=None):
        self.value, self.time = value, time

    def read(self):
        return self.value

    def write(self, value):
        self.value, self.time = value, dt.datetime(2001, 1, 1)

    def get_modified_time(self):
        return self.time


def deep(ctx, size):
    """Plans much deeper than the interpreter's recursion limit, and as wide; a cycle may be closed at either end."""
    plan, registry = uberjob.Plan(), uberjob.Registry()
    link = ctx.choose("link", ["argument", "dependency", "literal", "stored", "wide"])
    end = ctx.choose("end", ["plain", "stored", "cycle", "dry"])
    fail = end in ("plain", "stored") and ctx.choose("fail", [None, 0, size // 2])
    ran = []

    def call(i, *args):
        ran.append(i)
        if i == fail and fail is not None and fail is not False:
            raise Injected(i)
        return i

    first = node = plan.call(call, 0)
    wide = [first]
    for i in range(1, size):
        if link == "wide":
            wide.append(plan.call(call, i))
            continue
        if link == "stored" and i % 100 == 1:
            registry.add(node, Cell())
        before = node
        if link == "literal":
            lit = plan.lit(i)
            plan.add_dependency(before, lit)
            before = lit
        node = plan.call(call, i, *([before] if link in ("argument", "stored") else []))
        if link not in ("argument", "stored"):
            plan.add_dependency(before, node)
    if link == "wide":
        node = plan.call(call, size, *wide)
        for w in wide:
            plan.add_dependency(w, node)
    if end == "stored":
        registry.add(node, Cell())
    if end == "cycle":
        plan.add_dependency(node, first)
    total = size + (link == "wide")
    threads_before = threads()
    kw = dict(registry=registry if ctx.choose("registry", [True, False]) or end == "stored" else None, max_workers=ctx.choose("workers", [1, 2]), progress=None)
    r = attempt(uberjob.run, plan, output=node, dry_run=end == "dry", **kw)
    settled(ctx, threads_before)
    if end == "cycle":
        ctx.check(not r.ok and not ran, f"a cycle through {size} calls: {r!r}, {len(ran)} were executed")
        ctx.tag("cycle")
    elif end == "dry":
        ctx.check(r.ok and not ran, f"dry run of a plan of depth {size}: {r!r}")
    elif fail is None or fail is False:
        ctx.check(r.ok and r.value == total - 1 and sorted(ran) == list(range(total)), f"run of a plan of {total} calls ({link}): {'ok' if r.ok else repr(r)}, {len(ran)} executed")
        ctx.check(link == "wide" or ran == list(range(total)), "the calls of a chain were not executed in order")
    else:
        ctx.check(not r.ok and isinstance(r.exc.__cause__, Injected) and (link == "wide" or ran == list(range(fail + 1))), f"call {fail} of a plan of {total} failed: {r!r}, {len(ran)} executed")
    ctx.tag("deep")


def jobs(tier):
    thorough = tier == "thorough"
    out = []
    small = [s for s in shapes.PLAIN if len(s[1]) <= (5 if thorough else 4) and s[0] != "gathered"]
    for j in plain_jobs(acyclic, tier, sizes=[(1, ("",)), (2, ("", "a", "ad"))], shape=small):
        j.path_timeout = 10
        out.append(j)
    for name, kinds, edges in [("one", "C", {}), ("apart", "CC", {}), ("pair", "CC", {(0, 1): "a"})]:
        out.append(Job(f"kinds-{name}", acyclic, dict(kinds=kinds, edges=edges, codes=(), names=tuple(KINDS)), path_timeout=10))
        out.append(Job(f"thread-{name}", thread_failure, dict(kinds=kinds, edges=edges), path_timeout=10))
        out.append(Job(f"observer-{name}", observer, dict(kinds=kinds, edges=edges, codes=()), path_timeout=10))
    for plans, fail in ((("pair", "join", "fork") + ("lit-join", "ladder", "diamond") * thorough, False), (("pair",) + ("join",) * thorough, True)):
        for j in threaded_jobs(scheduled, tier, plans, fail=fail):
            t = j.params["threads"]
            if not thorough:
                t["yields"] = min(t["yields"], 6)
            j.name += "-fail" * fail
            out.append(j)
    # more workers than calls, and more calls than workers
    for name, kinds, edges, workers in [("pair", "CC", {}, 3), ("one", "C", {}, 3), ("flat4", "CCCC", {}, 2), ("chain", "CCC", {(0, 1): "a", (1, 2): "a"}, 3)]:
        for fail in (False, True):
            b = dict(workers=workers, preemptions=0, yields=6 if thorough else 3 if fail else 4)
            p = dict(kinds=kinds, edges=edges, codes=(), threads=b, fail=fail)
            if fail:
                p["names"] = ("injected", "base") if thorough else ("base",)
            out.append(Job(f"parallel-{workers}-{name}" + "-fail" * fail, scheduled, p, path_timeout=60))
    out.append(Job("nested", nested, path_timeout=10))
    for kinds in ("C", "L", "CC", "CL", "LC", "LL"):
        out.append(Job(f"cycle-{kinds}", cyclic, dict(kinds=kinds, registry=False), path_timeout=10))
    for kinds in ("R", "M", "CR", "RR", "RL", "LM", "MM", "SR", "LC"):
        out.append(Job(f"cycle-reg-{kinds}", cyclic, dict(kinds=kinds, registry=True), path_timeout=10))
    for kinds in ("CLC", "LLC", "CLL", "CCC", "LLL") if thorough else ("CLC", "LLC"):
        out.append(Job(f"cycle-{kinds}", cyclic, dict(kinds=kinds, registry=False, density=1), path_timeout=10))
    for kinds in ("RLC", "RLR", "CRC", "LLR") if thorough else ("LLR",):
        out.append(Job(f"cycle-reg-{kinds}", cyclic, dict(kinds=kinds, registry=True, density=1), path_timeout=10))
    out.append(Job("deep", deep, dict(size=6000 if thorough else 2500), path_timeout=60))
    out += [Job(f"ring-{n}", ring, dict(size=n), path_timeout=10) for n in (3, 4, 6)]
    return out
