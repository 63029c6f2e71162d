import collections

import uberjob
from vlib import shapes, weird
from vlib.plain import SCHEDULE_TEXT, SHAPE_TEXT, plain_jobs, plain_world, threaded_jobs
from vlib.run import Job
from vlib.symex import And, Implies, Ite, Not, Or, SymNum
from vlib.world import attempt, symbolic_random

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically over plan shapes: output, failing calls, max_errors, retry, scheduler and processing "
    "order are symbolic. In a successful run the calls executed are exactly those the output transitively depends on, each "
    "once; in any run no call is executed more often than retry allows, and nothing else is executed."
)
ASSUMPTIONS = [SCHEDULE_TEXT]
WITNESSES = ("unneeded", "failed", "retried", "no-output", "odd")
BOUNDS = {"plans": SHAPE_TEXT, "retry": "1..3 attempts", "results": "terms; None, falsy, uncomparable and exception values on three shapes", "max_errors": "0, 1, None"}


def harness(ctx, kinds, edges, codes, fail, threads=None):
    w = plain_world(ctx, kinds, edges, codes)
    if threads:
        w.threads(**threads)
    attempts = 1
    if fail == "retry":
        attempts = ctx.choose("retry", [2, 3]) if not threads else 2
        w.fail_counts = {i: ctx.int(f"fails{i}", 0, 4) for i in w.calls()}
    elif fail:
        w.symbolic_failures()
    spec, want, out = w.output(few=len(kinds) > 4, allow_none=not threads) if not threads else (list(w.nodes), None, range(w.n))
    scheduler = "default" if threads else ctx.choose("scheduler", ["random", "default"] if fail or len(kinds) < 4 else ["random"])
    r = w.run(spec, scheduler, max_errors=ctx.choose("max_errors", [0, None] if threads else [0, 1, None]) if fail else 0, retry=attempts if fail == "retry" else None)
    ctx.note("world", w.describe())
    needed = w.needed(out)
    if len(needed) < len(w.calls()):
        ctx.tag("unneeded")
    if not out:
        ctx.tag("no-output")
    counts = collections.Counter(w.started)
    ends = collections.Counter(w.finished)
    for i in w.calls():
        n = counts[i]
        ctx.check(n == 0 or i in needed, f"call {i} was executed although the output does not depend on it")
        if fail == "retry":
            # As many attempts as needed, but no more than allowed.
            allowed = Ite(w.fail_counts[i] < attempts, w.fail_counts[i] + 1, attempts)
            ctx.check(Or(n == 0, allowed == n), f"call {i} was attempted {n} times of {attempts}")
            if n > 1:
                ctx.tag("retried")
        else:
            ctx.check(n <= 1, f"call {i} was executed {n} times")
        ctx.check(ends[i] <= 1, f"call {i} finished {ends[i]} times")
        if r.ok and i in needed:
            ctx.check(ends[i] == 1, f"call {i}, on which the output depends, was not executed although run returned")
    if not fail:
        ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    if not r.ok:
        ctx.tag("failed")
    # A second run of the same plan is a run like the first.
    if fail is None and not threads and ctx.choose("again", [False, True]):
        w.run(spec, "default")
        ctx.check(sorted(w.started) == needed, f"a second run executed {sorted(w.started)}, needed {needed}")


def odd(ctx, kinds, edges):
    """Calls that return values of all kinds (and the same one) are executed once all the same."""
    value = ctx.choose("value", weird.kinds())
    retry = ctx.choose("retry", [None, 1, 3])
    counts = collections.Counter()

    def make(i):
        def call(*args, **kwargs):
            counts[i] += 1
            return value

        return call

    plan = uberjob.Plan()
    same = make(0) if ctx.choose("same", [False, True]) else None
    nodes = []
    for j in range(len(kinds)):
        args = [nodes[i] for i in range(j) if "a" in edges.get((i, j), "")]
        nodes.append(plan.call(same or make(j), *args))
        for i in range(j):
            if "d" in edges.get((i, j), ""):
                plan.add_dependency(nodes[i], nodes[j])
    plan.call(make("extra"), nodes[0])
    with symbolic_random(ctx):
        r = attempt(uberjob.run, plan, output=nodes[-1], retry=retry, max_workers=1, progress=None, scheduler=ctx.choose("scheduler", ["default", "random"]))
    ctx.check(r.ok and r.value is value, f"run of {kinds} {edges}: {'ok' if r.ok else repr(r)}")
    needed, todo = {len(kinds) - 1}, [len(kinds) - 1]
    while todo:
        j = todo.pop()
        for i in range(j):
            if (i, j) in edges and i not in needed:
                needed.add(i)
                todo.append(i)
    want = {0: len(needed)} if same else {i: 1 for i in needed}
    ctx.check(dict(counts) == want, f"calls that return {type(value).__name__}: executed {dict(counts)}, needed {want}")
    ctx.tag("odd")


def jobs(tier):
    out = plain_jobs(harness, tier, fail=None, sizes=None if tier == "thorough" else [(1, ("",)), (2, ("", "a", "d", "ad")), (3, ("", "a", "d"))])
    small = [s for s in shapes.PLAIN if len(s[1]) <= (6 if tier == "thorough" else 4) and s[0] != "gathered"]
    for j in plain_jobs(harness, tier, sizes=[(2, ("", "a", "d")), (3, ("", "a", "d") if tier == "thorough" else ("", "d"))], shape=small, fail="fail"):
        j.name = "fail-" + j.name
        out.append(j)
    for j in plain_jobs(harness, tier, sizes=[(2, ("", "a"))], shape=[s for s in small if s[0] in ("diamond", "hub22")], fail="retry"):
        j.name = "retry-" + j.name
        out.append(j)
    for fail in (None, "fail", "retry"):
        names = {None: ("pair", "join", "fork", "ladder", "lit-join"), "fail": ("join", "fork"), "retry": ("pair",)}[fail]
        if tier == "thorough":
            names += ("diamond", "join3") if fail is None else ("ladder",)
        for j in threaded_jobs(harness, tier, names, fail=fail):
            j.name += "-" + fail if fail else ""
            out.append(j)
    for name, kinds, edges in (("chain", "CCC", {(0, 1): "a", (1, 2): "d"}), ("join", "CCC", {(0, 2): "a", (1, 2): "ad"}), ("diamond", "CCCC", {(0, 1): "a", (0, 2): "a", (1, 3): "a", (2, 3): "a"})):
        out.append(Job(f"odd-{name}", odd, dict(kinds=kinds, edges=edges)))
    return out
