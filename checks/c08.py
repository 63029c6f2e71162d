from vlib.storecheck import BOUNDS_TEXT, fresh_time, make_world, store_jobs, stored, threaded_store_jobs, with_threads
from vlib.symex import And

LEVEL = "other"
EXPLANATION = (
    "From an arbitrary symbolic store state satisfying 'not out of date => from-scratch value', uberjob.run is executed "
    "symbolically with a symbolic cut position k over all environment operations (call start/end, store read/write before "
    "and after it took effect, modified-time query), as a raised Exception, a raised BaseException, or process death (no "
    "later operation takes effect). The solver decides that the invariant holds in the state left behind. A second, uncut run "
    "from that state must succeed with the from-scratch output and stores, and must not recompute values whose write "
    "completed before the cut."
)
ASSUMPTIONS = [
    "deterministic calls, stores return what was written, modified times distinct and increasing with every write",
    "a dependent source is produced by one unregistered call with no other consumer, which depends on all its stored upstream",
    "one worker, with symbolic processing order of ready nodes in the 'order' jobs; two workers, whose operations alternate in any way within the bounds, in the 'parallel' jobs",
    "process death inside a file-backed store's write is decided under C11 (atomic replacement); here a store write is one step",
]
WITNESSES = ("cut", "kept-after-cut", "death", "threads")
BOUNDS = {"plans": BOUNDS_TEXT, "cuts": "one cut, at any operation of the run", "follow-up": "one complete run"}


def harness(ctx, kinds, codes, edges, order=False, threads=None):
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    w.symbolic_state(invariant=True)
    with_threads(w, threads)
    w.fault_exc = None
    mode = ctx.choose("mode", ["stop", "death", "keep-going"] if not threads else ["death", "keep-going"])
    w.death = mode == "death"
    kw = {"max_errors": None if mode == "keep-going" else 0}
    w.cut = ctx.int("cut", 0, 60)
    spec, want, out = w.output(few=True)
    r = w.run(spec, "random" if order else None, **kw)
    ctx.note("world", w.describe())
    if not w.faults:
        return  # the cut is beyond the end of the run: C03
    ctx.check(not r.ok, f"run succeeded although {w.faults} failed")
    ctx.tag("cut")
    if w.dead:
        ctx.tag("death")
    w.assert_inv("after the cut")
    written = {i for i, s in w.stores.items() if not s.initial and w.kinds[i] in "RM"}
    at = {i: s.mtime for i, s in w.stores.items()}
    # The next run.
    w.under = None
    w.cut = None
    w.dead = False
    r = w.run(spec)
    ctx.check(r.ok, f"the next run failed: {r!r}")
    ctx.check(r.value == want, f"output {r.value!r} of the next run differs from the from-scratch value {want!r}")
    for i, s in sorted(w.stores.items()):
        if w.kinds[i] in "RM":
            ctx.check(And(s.present, s.correct()), f"store {i} does not hold its from-scratch value after the next run")
    for i in sorted(written):
        if not any(w.count("side", u) or w.count("write", u) for u in w.timed_up(i)):
            ctx.check(w.count("write", i) == 0 and w.count("call", i) == 0, f"store {i} was completely written before the cut and is recomputed by the next run")
            ctx.tag("kept-after-cut")
        elif not any(w.kinds[u] == "D" for u in w.timed_up(i)):
            ctx.fail(f"store {i} was completely written before the cut while something upstream of it still had to be rebuilt")


def jobs(tier):
    thorough = tier == "thorough"
    sizes = {1: "CRSDLM", 2: "CRSDLM"}
    if thorough:
        sizes[3] = "CRSD"
    out = store_jobs(harness, sizes, stored=stored(tier))
    for j in store_jobs(harness, {2: "CRS"}, order=True, stored=stored(tier, order=True)):
        j.name = "order-" + j.name
        out.append(j)
    for j in threaded_store_jobs(harness, tier, ("fork-R", "pair-R") + ("join-R", "chain-R") * thorough, preempt=thorough):
        t = j.params["threads"]
        t["yields"] = min(t["yields"], 5 if thorough else 2)
        out.append(j)
    return out
