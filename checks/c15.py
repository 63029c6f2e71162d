import collections

import uberjob
from uberjob.progress import Progress, ProgressObserver, composite_progress
from vlib import shapes
from vlib.plain import PlainWorld, threaded_jobs
from vlib.run import Job
from vlib.storecheck import BOUNDS_TEXT, make_world, store_jobs, stored, threaded_store_jobs, with_threads
from vlib.symex import And
from vlib.world import Injected, InjectedBase, World, attempt

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically with a recording observer: store states, the fault position, the fault kind, the "
    "scopes of the nodes and the observer combination are symbolic. On every path the notification sequence is checked: "
    "entered first, exited once and last, totals announced before anything runs, running/finished pairing per section and "
    "scope, nothing running at the end, totals equal to what was executed and examined, equal streams for every member of "
    "a composite."
)
ASSUMPTIONS = [
    "one worker; pairing under interleavings follows because running/completed/failed are issued by the thread that runs "
    "the call around it (the concurrent interleavings of that code are explored under C06/C10)",
]
WITNESSES = ("ok", "failed", "composite", "stale", "base")
BOUNDS = {"plans": BOUNDS_TEXT, "scopes": "per node one of (), (a), (a, 1), (object,)", "faults": "0 or 1 at any operation"}


class Recorder(ProgressObserver):
    def __init__(self):
        self.log = []

    def __enter__(self):
        self.log.append(("enter",))
        return self

    def __exit__(self, *exc):
        self.log.append(("exit", exc[0] is not None))

    def increment_total(self, *, section, scope, amount):
        self.log.append(("total", section, scope, amount))

    def increment_running(self, *, section, scope):
        self.log.append(("running", section, scope))

    def increment_completed(self, *, section, scope):
        self.log.append(("completed", section, scope))

    def increment_failed(self, *, section, scope, exception):
        self.log.append(("failed", section, scope, exception))


class Yielding(Recorder):
    """Other threads may go on in the middle of a notification."""

    def __init__(self, world):
        super().__init__()
        self.world = world

    def increment_running(self, **kw):
        super().increment_running(**kw)
        self.world.pause()


class Scope:
    """A scope value that is merely hashable and equatable."""


OBJ = Scope()
SCOPES = [(), ("a",), ("a", 1), (OBJ,)]


def check_log(ctx, log, ok, base):
    ctx.check(bool(log) and log[0] == ("enter",), f"the first notification is {log[:1]}, not entering the observer")
    ctx.check(sum(e[0] == "enter" for e in log) == 1, "the observer was entered more than once")
    ctx.check(sum(e[0] == "exit" for e in log) == 1, f"the observer was exited {sum(e[0] == 'exit' for e in log)} times")
    ctx.check(log[-1][0] == "exit", f"a notification came after exiting the observer: {log[-1]}")
    total = collections.Counter()
    running = collections.Counter()
    done = collections.Counter()
    failed = collections.Counter()
    for e in log:
        if e[0] == "total":
            ctx.check(e[3] > 0, f"total incremented by {e[3]}")
            ctx.check(
                not running[e[1:3]] and not done[e[1:3]] and not failed[e[1:3]],
                f"total for {e[1:3]} announced after something in it was reported running",
            )
            total[e[1:3]] += e[3]
        elif e[0] == "running":
            running[e[1:3]] += 1
            ctx.check(total[e[1:3]] > 0, f"{e[1:3]} reported running before its total was announced")
        elif e[0] in ("completed", "failed"):
            running[e[1:3]] -= 1
            ctx.check(running[e[1:3]] >= 0, f"{e[1:3]} reported {e[0]} without running")
            (done if e[0] == "completed" else failed)[e[1:3]] += 1
        k = e[1:3]
        if e[0] in ("running", "completed", "failed"):
            ctx.check(running[k] + done[k] + failed[k] <= total[k], f"more reported for {k} than its total")
    if not base:
        ctx.check(not +running, f"still reported running when run returned: {dict(+running)}")
    if ok:
        ctx.check(not failed, f"successful run reported failures {dict(failed)}")
        ctx.check(done == total, f"after a successful run completed {dict(done)} differs from total {dict(total)}")
    return total, done, failed


def name(i):
    return f"vlib.world.f{i}"


def harness(ctx, kinds, codes, edges, fault=False, scopes=False, composite=False):
    sc = {}
    w = None
    if scopes:
        n = len(kinds) if isinstance(kinds, str) else max(map(len, kinds))
        sc = {i: ctx.choose(f"scope{i}", SCOPES if i < 2 else SCOPES[:2]) for i in range(n)}
    w = make_world(ctx, kinds, codes, edges, scopes=sc)
    if w is None:
        return
    same_fn = scopes and ctx.choose("same_fn", [False, True])
    w.symbolic_state(invariant=False)
    kw = {}
    if fault:
        w.fault_exc = None
        w.cut = ctx.int("cut", 0, 60)
        kw["max_errors"] = ctx.choose("max_errors", [0, None])
    spec, want, out = w.output(few=True)
    made = []

    def factory():
        made.append(Recorder())
        return made[-1]

    p = Progress(factory)
    form = ctx.choose("progress", ["plain", "list", "nested"] if composite else ["plain"])
    progress = {"plain": p, "list": [p, p], "nested": composite_progress(p, composite_progress(p, p))}[form]
    r = w.run(spec, progress=progress, **kw)
    ctx.note("world", w.describe())
    ctx.check(len(made) == {"plain": 1, "list": 2, "nested": 3}[form], f"{len(made)} observers were created")
    base = w.fault_exc is InjectedBase
    for m in made:
        ctx.check(len(m.log) == len(made[0].log) and all(x == y for x, y in zip(m.log, made[0].log)), "members of a composite received different notifications")
    if form != "plain":
        ctx.tag("composite")
    log = made[0].log
    ctx.check(r.ok or bool(w.raised), f"run raised although nothing failed: {r!r}")
    total, done, failed = check_log(ctx, log, r.ok, base)
    raised = len(w.faults)
    if raised and not base:
        # A modified-time query on behalf of a literal is no call: nothing is announced for it.
        expected = sum(not (what == "mtime" and w.kinds[i] == "M") for what, i in w.faults)
        ctx.check(sum(failed.values()) == expected, f"{expected} calls raised, {sum(failed.values())} reported failed")
        for e in log:
            if e[0] == "failed":
                ctx.check(isinstance(e[3], Exception), f"failed reported with {e[3]!r}")
                ctx.check(e[3].__cause__ is not None and isinstance(e[3].__cause__, Injected), f"reported failure {e[3]!r} is not caused by the exception that was raised")
    ctx.tag("ok" if r.ok else "failed")
    if base:
        ctx.tag("base")
    # stale: every call of the plan (with the output) is examined.
    copy = w.plan.copy()
    if spec is not None:
        copy.gather(spec)
    examined = collections.Counter()
    for node in copy.graph.nodes():
        if type(node) is uberjob.graph.Call:
            i = next((i for i, n in enumerate(w.nodes) if n is node), None)
            if i is None or w.kinds[i] in "SD":
                examined[None] += 1
            else:
                examined[(*sc.get(i, ()), name(i))] += 1
    got = collections.Counter()
    for (section, scope), c in total.items():
        if section == "stale":
            key = next((k for k in examined if k is not None and scope[: len(k)] == k), None)
            got[key] += c
    ctx.check(got == examined, f"stale totals {dict(got)} differ from the calls examined {dict(examined)}")
    ctx.tag("stale")
    if r.ok:
        executed = collections.Counter()
        store_ops = collections.Counter()
        for e in w.events:
            if e[0] == "call":
                executed[(*sc.get(e[1], ()), name(e[1]))] += 1
            elif e[0] in ("read", "write"):
                store_ops[e[1]] += 1
        reported = {k[1]: c for k, c in total.items() if k[0] == "run"}
        for scope, c in executed.items():
            ctx.check(reported.get(scope) == c, f"run total for {scope} is {reported.get(scope)}, {c} calls were executed")
        others = {s: c for s, c in reported.items() if s not in executed and not str(s[-1]).startswith(("uberjob.", "gather_"))}
        ctx.check(
            sum(others.values()) == sum(store_ops.values()),
            f"run totals {others} differ from the {dict(store_ops)} store operations performed",
        )


def failures(ctx):
    """The observer is entered and exited once whatever makes run fail."""
    plan = uberjob.Plan()
    x = plan.call(dict)
    y = plan.call(dict, a=x)
    registry = uberjob.Registry()
    rec = Recorder()
    how = ctx.choose("how", ["cycle", "transform", "transform-cycle", "none", "base"])
    kw = {}

    def boom(p, o):
        raise Injected("transform")

    def loop(p, o):
        p = p.copy()
        p.add_dependency(y, x)
        return p, o

    if how == "cycle":
        plan.add_dependency(y, x)
    elif how == "transform":
        kw["transform_physical"] = boom
    elif how == "transform-cycle":
        kw["transform_physical"] = loop
    elif how == "base":
        def raise_base():
            raise InjectedBase("x")

        z = plan.call(raise_base)
        plan.add_dependency(z, x)
    reg = ctx.choose("registry", [None, registry])
    dry = ctx.choose("dry", [False, True])
    r = attempt(uberjob.run, plan, output=y, registry=reg, dry_run=dry, max_workers=1, progress=Progress(lambda: rec), **kw)
    check_log(ctx, rec.log, r.ok and not dry, how == "base")
    ctx.check(r.ok == (how == "none" or (dry and how in ("transform-cycle", "base")) or (dry and how == "cycle" and r.ok)), f"{how}: {r!r}")


def parallel(ctx, kinds, edges):
    """Several calls with one scope: counts add up."""
    w = World(ctx, kinds, edges)

    def shared(*args, **kwargs):
        return None

    plan = uberjob.Plan()
    n = 0
    nodes = []
    for i in range(4):
        with plan.scope(*ctx.choose(f"scope{i}", SCOPES)):
            nodes.append(plan.call(shared, *nodes[:1]))
    made = []

    def factory():
        made.append(Recorder())
        return made[-1]

    member = Progress(factory)
    form = ctx.choose("progress", ["plain", "tuple", "generator", "dict", "empty"])
    progress = {"plain": member, "tuple": (member, member), "generator": (m for m in [member, member]), "dict": {member: 1}, "empty": [composite_progress(), member]}[form]
    kw = {}
    if ctx.choose("transform", [False, True]):

        def transform_physical(physical, node):
            with physical.scope("a"):
                nodes.append(physical.call(shared, *nodes[:1]))
            return physical, node

        kw["transform_physical"] = transform_physical
    r = attempt(uberjob.run, plan, output=list(nodes), max_workers=1, progress=progress, **kw)
    ctx.check(r.ok, f"{r!r}")
    ctx.check(len(made) == (2 if form in ("tuple", "generator") else 1), f"{len(made)} observers were created for progress given as {form}")
    ctx.check(all(m.log == made[0].log for m in made), "members of a composite received different notifications")
    rec = made[0]
    total, done, failed = check_log(ctx, rec.log, True, False)
    want = collections.Counter((*x.scope, uberjob._util.fully_qualified_name(shared)) for x in nodes)
    got = {k[1]: c for k, c in total.items() if k[1] in want}
    ctx.check(got == dict(want), f"run totals {got} differ from {dict(want)}")


def threaded(ctx, kinds, edges, codes, threads, fail):
    """Notifications of several workers; scopes shared and not."""
    w = PlainWorld(ctx, kinds, edges, scopes={i: ("a",) for i in range(2)})
    w.threads(**threads)
    if fail:
        w.symbolic_failures()
    recs = []

    def factory():
        recs.append(Yielding(w) if len(recs) == 0 else Recorder())
        return recs[-1]

    p = Progress(factory)
    r = w.run(list(w.nodes), max_errors=ctx.choose("max_errors", [0, None]) if fail else 0, progress=[p, p] if not fail else p)
    ctx.note("world", w.describe())
    ctx.check(r.ok == (not w.raised_exc), f"{w.raised_exc} were raised, run: {r!r}")
    for rec in recs:
        total, done, failed = check_log(ctx, rec.log, r.ok, False)
        ctx.check(sum(failed.values()) == len(w.raised_exc), f"{len(w.raised_exc)} calls raised, {sum(failed.values())} reported failed")
        ctx.check(sum(e[0] == "running" and e[1] == "run" and "gather" not in str(e[2]) for e in rec.log) == len(w.started), "running notifications differ from the calls started")
    if len(recs) > 1:
        a, b = (collections.Counter(map(str, rec.log)) for rec in recs)
        ctx.check(a == b, f"members of a composite received different notifications: {a - b} {b - a}")
    want = collections.Counter((*(("a",) if i < 2 else ()), name(i)) for i in range(w.n))
    got = {k[1]: c for k, c in total.items() if k[1] in want and k[0] == "run"}
    ctx.check(got == dict(want), f"run totals {got} differ from {dict(want)}")


def threaded_stale(ctx, kinds, edges, codes, threads):
    """The account of the staleness check by several workers."""
    w = World(ctx, kinds, edges)
    w.symbolic_state(invariant=False)
    with_threads(w, threads)
    rec = Recorder()
    r = w.run(None, progress=Progress(lambda: rec))
    ctx.check(r.ok, f"{r!r}")
    total, done, failed = check_log(ctx, rec.log, True, False)
    n = sum(c for (section, _), c in total.items() if section == "stale")
    ctx.check(n == sum(k in "CRSD" for k in kinds), f"stale totals add up to {n}, plan {kinds}")


def jobs(tier):
    thorough = tier == "thorough"
    sizes = {1: "CRSDLM", 2: "CRSDLM"}
    if thorough:
        sizes[3] = "CRSDL"
    out = store_jobs(harness, sizes)
    small = [s for s in shapes.STORED if s[0] in ("parallel-R", "dsource-lit", "gathered-R", "stored-lit", "diamond-C", "hub-R")]
    for j in store_jobs(harness, {1: "CRSDLM", 2: "CRSD"}, fault=True, stored=small):
        j.name = "fault-" + j.name
        out.append(j)
    for j in store_jobs(harness, {1: "CR", 2: "CR"}, codes=("a", "d"), scopes=True, fault=thorough, stored=[s for s in small if len(s[1]) < 4]):
        j.name = "scopes-" + j.name
        out.append(j)
    for j in store_jobs(harness, {1: "CR", 2: "CR"}, codes=("a",), fault=True, composite=True, stored=small[:1]):
        j.name = "composite-" + j.name
        out.append(j)
    for fail in (False, True):
        for j in threaded_jobs(threaded, tier, ("pair", "join") if fail else ("pair", "fork"), fail=fail):
            j.name += "-fail" if fail else ""
            out.append(j)
    out += [j for j in threaded_store_jobs(threaded_stale, tier, ("pair-S", "pair-R")) if thorough or "preempted" in j.name]
    out.append(Job("failures", failures))
    out.append(Job("shared-scope", parallel, dict(kinds="C", edges={})))
    return out
