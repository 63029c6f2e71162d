from vlib import shapes
from vlib.plain import SCHEDULE_TEXT, SHAPE_TEXT, PlainWorld, plain_jobs, plain_world, threaded_jobs
from vlib.run import Job
from vlib.world import World

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically over plan shapes: output, failing calls, max_errors, scheduler and the order in which "
    "ready nodes are processed are symbolic. Whenever a call starts, every call it depends on - through arguments, plain "
    "dependencies and literals, directly or not - must have finished successfully before."
)
ASSUMPTIONS = [SCHEDULE_TEXT]
WITNESSES = ("waited", "after-failure", "through-literal")
BOUNDS = {"plans": SHAPE_TEXT}


def ordered(ctx, w):
    done = set()
    for e in w.events:
        if e[0] == "end":
            done.add(e[1])
        elif e[0] == "call":
            for p in sorted(w.ancestors(e[1])):
                if w.kinds[p] in "CR":
                    ctx.check(p in done, f"call {e[1]} started before call {p}, on which it depends, had finished successfully")
                    ctx.tag("waited")
                elif any(w.kinds[q] in "CR" for q in w.preds(p)):
                    ctx.tag("through-literal")


def harness(ctx, kinds, edges, codes, fail, threads=None):
    w = plain_world(ctx, kinds, edges, codes)
    if threads:
        w.threads(**threads)
    if fail:
        w.symbolic_failures()
    spec, want, out = w.output(allow_none=False, few=threads or edges is not None and len(kinds) > 5)
    if threads:
        scheduler = threads.get("scheduler", "default")
    else:
        scheduler = ctx.choose("scheduler", ["random", "default"] if fail or len(kinds) < 4 else ["random"])
    r = w.run(spec, scheduler, max_errors=ctx.choose("max_errors", [None, 1] if fail else [0]))
    ctx.note("world", w.describe())
    ordered(ctx, w)
    if not fail:
        ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    elif w.raised_exc and len(w.started) > len(w.raised_exc):
        ctx.tag("after-failure")


def stored(ctx, kinds, edges):
    """With a registry from empty stores everything is rebuilt, in the order of all dependencies."""
    w = World(ctx, kinds, edges)
    w.symbolic_state(invariant=False)
    for i, s in w.stores.items():
        s.present = kinds[i] == "S"
    spec, want, out = w.output(few=True)
    r = w.run(spec, ctx.choose("scheduler", ["random", "default"]))
    ctx.note("world", w.describe())
    if "D" not in kinds:
        ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    ordered(ctx, w)


def jobs(tier):
    out = plain_jobs(harness, tier, fail=False)
    small = [s for s in shapes.PLAIN if len(s[1]) <= (6 if tier == "thorough" else 5)]
    for j in plain_jobs(harness, tier, sizes=[(2, ("", "a", "d")), (3, ("", "a", "d") if tier == "thorough" else ("", "d"))], shape=small, fail=True):
        j.name = "fail-" + j.name
        out.append(j)
    for name, kinds, edges in shapes.STORED:
        if tier == "thorough" or (len(kinds) < 5 and name != "gathered-R"):
            out.append(Job(f"stored-{name}", stored, dict(kinds=kinds, edges=edges)))
    out += threaded_jobs(harness, tier, ("join", "fork", "ladder", "lit-join") + ("diamond", "join3") * (tier == "thorough"), fail=True)
    return out
