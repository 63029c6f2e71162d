from vlib.run import Job
from vlib.storecheck import BOUNDS_TEXT, fresh_time, make_world, store_jobs, stored, threaded_store_jobs, with_threads
from vlib.symex import And, Implies, Not
from vlib.world import World

LEVEL = "other"
EXPLANATION = (
    "Inductive step over histories: the store state before the run is arbitrary (symbolic presence, distinct symbolic "
    "modified times, symbolic correctness bit per stored value) subject to the invariant 'a stored value that is not out "
    "of date is the from-scratch value'. One uberjob.run is executed symbolically, with a symbolic fault position or none; "
    "afterwards the solver decides that the invariant holds again and, if the run succeeded, that the output and every "
    "non-source store equal their from-scratch values. Separate harnesses decide that a source update, a deletion "
    "and the empty state satisfy the invariant. Together: histories of any length over plans within the bounds."
)
ASSUMPTIONS = [
    "deterministic calls, stores return what was written, modified times distinct and increasing with every write (as the property states)",
    "a dependent source is produced by one unregistered call with no other consumer, which depends on all its stored upstream",
    "one worker; the processing order of ready nodes is symbolic in the 'order' jobs; interleavings are decided under C01/C09",
]
WITNESSES = ("ok", "cut", "order")
BOUNDS = {"plans": BOUNDS_TEXT, "history": "any (inductive)", "faults per run": "0 or 1 at any operation, Exception or BaseException"}


def harness(ctx, kinds, codes, edges, fresh, fault, order=False, threads=None):
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    w.symbolic_state(invariant=True)
    with_threads(w, threads)
    f, ft = fresh_time(ctx, w, fresh)
    kw = {}
    if fault:
        w.fault_exc = None  # symbolic kind
        kw["max_errors"] = ctx.choose("max_errors", [0, None])
        w.cut = ctx.int("cut", 0, 60)
    spec, want, out = w.output(few=fault or threads)
    r = w.run(spec, "random" if order else None, fresh_time=ft, **kw)
    ctx.note("world", w.describe())
    if r.ok:
        ctx.check(not w.faults, f"run succeeded although {w.faults} failed")
        ctx.check(r.value == want, f"output {r.value!r} differs from the from-scratch value {want!r}")
        for i, s in sorted(w.stores.items()):
            if w.kinds[i] in "RM":
                ctx.check(And(s.present, s.correct()), f"store {i} does not hold its from-scratch value after a successful run")
        ctx.tag("ok")
        if order:
            ctx.tag("order")
    else:
        ctx.check(bool(w.raised), f"run raised although nothing failed: {r!r}")
        ctx.tag("cut")
    w.assert_inv("after the run")


def events(ctx, kinds, codes, edges):
    """The other steps of a history keep the invariant."""
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    if ctx.choose("start", ["empty", "arbitrary"]) == "empty":
        for i, s in w.stores.items():
            s.present = w.kinds[i] == "S"
            s.mtime = w.tick()
            s.good = False if w.kinds[i] in "RM" else True
        w.assert_inv("initially")
        return
    w.symbolic_state(invariant=True)
    i = ctx.choose("which", sorted(w.stores))
    s = w.stores[i]
    pure = w.kinds[i] == "S" or (w.kinds[i] == "D" and i not in w.producers)
    if pure:
        # The source's content changes: whatever was computed from the old content is no longer right.
        for j, t in w.stores.items():
            if i in w.ancestors(j):
                t.good = False
        s.mtime = w.tick()
        w.assert_inv("after a source update")
    else:
        s.present = False
        w.assert_inv("after a deletion")


def jobs(tier):
    thorough = tier == "thorough"
    sizes = {1: "CRSDLM", 2: "CRSDLM", 3: "CRSDLM" if thorough else "CRSL"}
    out = store_jobs(harness, sizes, fresh=True, fault=False)
    fsizes = {1: "CRSDLM", 2: "CRSDLM"}
    if thorough:
        fsizes[3] = "CRSD"
    for j in store_jobs(harness, fsizes, fresh=False, fault=True, stored=stored(tier)):
        j.name = "fault-" + j.name
        out.append(j)
    for j in store_jobs(harness, {2: "CRS"}, fresh=False, fault=True, order=True, stored=stored(tier, order=True)):
        j.name = "order-" + j.name
        out.append(j)
    out += threaded_store_jobs(harness, tier, ("join-R", "fork-R") + ("chain-R", "dsource-R") * thorough, fresh=False, fault=False)
    for j in threaded_store_jobs(harness, tier, ("pair-R",), preempt=thorough, fresh=False, fault=True):
        j.name += "-fault"
        out.append(j)
    for j in store_jobs(events, {1: "CRSDLM", 2: "CRSDLM", 3: "CRSDLM" if thorough else "CRSD"}):
        j.name = "events-" + j.name
        out.append(j)
    return out
