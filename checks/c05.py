from vlib import shapes
from vlib.run import Job
from vlib.storecheck import threaded_store_jobs, with_threads
from vlib.symex import And, Iff, Implies, Not, Or
from vlib.world import RANGE, TIMED, World, choose_edges

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically (path by path, z3) on plans whose store state is symbolic: presence bits, pairwise "
    "distinct modified times and fresh_time are solver variables. On every path the solver decides that the set of "
    "rewritten stores equals the declarative out-of-date formula, and that calls and reads are exactly the needed ones."
)
ASSUMPTIONS = [
    "modified times pairwise distinct, fresh_time not later than the run, sources present",
    "a dependent source is produced by one unregistered call with no other consumer, which depends on all its stored upstream",
    "dependent sources without a stored upstream are not combined with fresh_time",
]
WITNESSES = ("rebuilt", "kept", "repeat", "threads", "preempted")


def demanded(w, ood, out):
    """Formulas: which unregistered nodes / calls must execute, which stores must be read."""
    run = {}  # node -> formula: its function executes (or, for literals, it is part of what runs)
    for i in reversed(range(w.n)):
        k = w.kinds[i]
        if k in "RMD":
            run[i] = ood[i]
        elif k == "S":
            run[i] = False
        else:
            terms = [i in out]
            for j in w.succs(i):
                terms.append(run[j])
            run[i] = Or(*terms)
    read = {}
    for i in w.stores:
        terms = [i in out]
        for j in w.succs(i):
            code = w.edges[i, j]
            if w.kinds[j] in "CR" and any(c in "agk" for c in code):
                terms.append(run[j])
        read[i] = Or(*terms)
    return run, read


def harness(ctx, kinds, codes, sched, fresh, edges=None, outputs=True, threads=None):
    kinds = ctx.choose("kinds", kinds) if isinstance(kinds, (list, tuple)) else kinds
    edges = edges if edges is not None else choose_edges(ctx, kinds, codes)
    w = World(ctx, kinds, edges)
    if not w.sensible():
        return
    w.symbolic_state(invariant=False)
    with_threads(w, threads)
    f = None
    if fresh and ctx.choose("has_fresh", [False, True]):
        if any(w.kinds[i] == "D" and w.preds(i) and not w.timed_up(i) for i in w.stores):
            return
        f = ctx.int("fresh", 0, RANGE)
    spec, want, out = w.output(few=bool(threads)) if outputs else (None, None, ())
    memo = {}
    ood = {i: w.out_of_date(i, f, memo) for i in sorted(w.stores)}
    need, read = demanded(w, ood, out)
    from vlib import symdt

    ft = None if f is None else symdt.instant(ctx, f)
    r = w.run(spec, sched, fresh_time=ft)
    ctx.note("world", w.describe())
    if not r.ok:
        ctx.fail(f"run raised although nothing failed: {r!r}")
    for i in sorted(w.stores):
        k = w.kinds[i]
        writes = w.count("write", i)
        if k in "RM":
            ctx.check(writes <= 1, f"store {i} written {writes} times")
            ctx.check(Iff(ood[i], writes == 1), f"store {i} rewritten={writes} does not match its being out of date")
            ctx.tag("rebuilt" if writes else "kept")
        else:
            ctx.check(writes == 0, f"source {i} written")
        reads = w.count("read", i)
        ctx.check(reads <= 1, f"store {i} read {reads} times")
        ctx.check(Iff(read[i], reads == 1), f"store {i}: read={reads} does not match its being consumed")
        ctx.check(w.count("mtime", i) <= 1, f"store {i}: modified time queried more than once")
    for i in range(w.n):
        if w.kinds[i] in "CR":
            c = w.count("call", i)
            ctx.check(c <= 1, f"call {i} executed {c} times")
            ctx.check(Iff(need[i], c == 1), f"call {i} executed={c} does not match its being needed")
    if any(p == o or (w.kinds[o] == "L" and p in w.ancestors(o)) for p in w.producers.values() for o in out):
        return  # the caller asked for a call that updates a source
    w.under = None
    # Repeating the run immediately with no output does nothing.
    r2 = w.run(None, sched, fresh_time=ft)
    if not r2.ok:
        ctx.fail(f"repeated run raised: {r2!r}")
    bad = [e for e in w.events if e[0] in ("call", "read", "write")]
    ctx.check(not bad, f"repeated run performed {bad[:3]}")
    ctx.tag("repeat")


BOUNDS = {
    "nodes": "all plans with up to 3 nodes (quick: at most one dependent source or literal among 3) over {call, stored call, source, dependent source, literal, stored literal} and "
    "edges {none, positional, dependency}; selected larger shapes (see jobs)",
    "fresh_time": "absent or any instant",
    "workers": "1; 2 in the 'parallel' (any order of operations) and 'preempted' (one preemption anywhere) jobs",
}


def jobs(tier):
    import itertools

    out = []
    for n in (1, 2, 3):
        kinds = ["".join(k) for k in itertools.product("CRSDLM", repeat=n) if any(c in TIMED for c in k)]
        if n == 3 and tier != "thorough":
            kinds = [k for k in kinds if sum(c in "DLM" for c in k) <= 1]
        out.append(Job(f"all-{n}", harness, dict(kinds=kinds, codes=("", "a", "d"), sched=None, fresh=True)))
    for name, kinds, edges in shapes.STORED:
        out.append(Job(f"shape-{name}", harness, dict(kinds=kinds, codes=(), edges=edges, sched=None, fresh=True)))
    for j in threaded_store_jobs(harness, tier, ("join-R", "fork-R", "pair-R") + ("chain-R", "dsource-R", "pair-S") * (tier == "thorough"), sched=None, fresh=False):
        out.append(j)
    return out
