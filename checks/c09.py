import datetime as dt

import uberjob
from vlib import weird
from vlib.run import Job
from vlib.storecheck import BOUNDS_TEXT, fresh_time, make_world, store_jobs, stored, threaded_store_jobs, with_threads
from vlib.symex import Implies
from vlib.world import attempt

LEVEL = "other"
EXPLANATION = (
    "uberjob.run executed symbolically from arbitrary store states (symbolic presence, modified times, fresh_time), with "
    "stores whose read returns something other than what was written. On every path: a rebuilt value is written, then read "
    "back, before any consumer starts, and written before anything that merely depends on it starts; consumers and the "
    "output receive the read value; every stored value downstream is rebuilt after it; an out-of-date dependent source is "
    "read only after the calls it depends on. The order in which ready nodes are processed is symbolic in the 'order' jobs."
)
ASSUMPTIONS = [
    "a dependent source is produced by one unregistered call with no other consumer, which depends on all its stored upstream",
    "one worker natively; the order constraints are edges of the physical plan, whose enforcement under all interleavings is C01",
]
WITNESSES = ("rebuilt-consumer", "rebuilt-dep", "dsource-read", "odd")
BOUNDS = {"plans": BOUNDS_TEXT, "fresh_time": "absent or any instant"}


def first(w, what, i):
    for k, e in enumerate(w.events):
        if e[0] == what and e[1] == i:
            return k
    return None


def through_plain(w, i):
    """
    Nodes reached from stored node i by a first edge and then through nodes without a store: (node, first edge, path of
    calls). Everything reached depends on node i.
    """
    seen = set()
    todo = list(w.succs(i))
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            if w.kinds[j] in "CL":
                todo.extend(w.succs(j))
    return seen


def plain_upstream(w, d):
    """The calls without a store that d depends on without a store in between."""
    seen = set()
    todo = list(w.preds(d))
    while todo:
        p = todo.pop()
        if p not in seen and w.kinds[p] in "CL":
            seen.add(p)
            todo.extend(w.preds(p))
    return sorted(p for p in seen if w.kinds[p] == "C")


def harness(ctx, kinds, codes, edges, order=False, fresh=True, threads=None):
    w = make_world(ctx, kinds, codes, edges, normalise=True)
    if w is None:
        return
    w.symbolic_state(invariant=True)
    with_threads(w, threads)
    f, ft = fresh_time(ctx, w, fresh)
    spec, want, out = w.output(few=order or threads)
    memo = {}
    ood = {i: w.out_of_date(i, f, memo) for i in sorted(w.stores)}
    r = w.run(spec, "random" if order else None, fresh_time=ft)
    ctx.note("world", w.describe())
    ctx.check(r.ok, f"run raised although nothing failed: {r!r}")
    ctx.check(r.value == want, f"output {r.value!r} is not built from what the stores' reads return ({want!r})")
    for e in w.events:
        if e[0] == "call":
            _, i, args, kwargs = e
            want_args, want_kwargs = w.expected(i)[2], w.expected(i)[3]
            ctx.check(
                args == want_args and tuple(sorted(kwargs.items())) == want_kwargs,
                f"call {i} received {args} {kwargs}, which is not what the stores' reads return",
            )
    for i in sorted(w.stores):
        wr, rd = first(w, "write-end", i), first(w, "read", i)
        if wr is not None:
            c = first(w, "end", i)
            if w.kinds[i] == "R":
                ctx.check(c is not None and c < first(w, "write", i), f"store {i} written before its call ended")
            if rd is not None:
                ctx.check(wr < rd, f"store {i} read before it was written in this run")
            for j in w.succs(i):
                start = first(w, "call", j)
                if start is None:
                    continue
                code = w.edges[i, j]
                if any(x in "agk" for x in code):
                    back = first(w, "read-end", i)
                    ctx.check(back is not None and back < start, f"call {j} consumes store {i} but started before it was read back")
                    ctx.tag("rebuilt-consumer")
                ctx.check(wr < start, f"call {j} depends on store {i} but started before it was written")
                ctx.tag("rebuilt-dep")
            for j in through_plain(w, i):
                for what in ("call", "write"):
                    start = first(w, what, j)
                    if start is not None:
                        ctx.check(wr < start, f"{what} {j} downstream of store {i} happened before it was written")
                if w.kinds[j] == "D":
                    start = first(w, "read", j)
                    if start is not None:
                        ctx.check(wr < start, f"dependent source {j} read before upstream store {i} was written")
            for j in w.stores:
                if i in w.ancestors(j) and w.kinds[j] in "RM":
                    wj = first(w, "write", j)
                    ctx.check(wj is not None, f"store {i} was rebuilt but store {j} downstream of it was not")
                    ctx.check(wj > wr, f"store {j} was rebuilt before store {i} upstream of it")
    for d in w.stores:
        if w.kinds[d] == "D" and w.preds(d):
            rd = first(w, "read", d)
            if rd is None:
                continue
            for p in plain_upstream(w, d):
                end = first(w, "end", p)
                ctx.check(
                    Implies(ood[d], end is not None and end < rd),
                    f"dependent source {d} is out of date and was read before call {p} had run",
                )
                ctx.tag("dsource-read")


class OddStore(uberjob.ValueStore):
    """Its read returns something other than what was written, of a kind that code may mistake for nothing."""

    def __init__(self, back, log, name, time):
        self.back, self.log, self.name, self.time = back, log, name, time

    def read(self):
        self.log.append(("read", self.name))
        return self.back

    def write(self, value):
        self.log.append(("write", self.name, value))
        self.time = dt.datetime(2001, 1, 1)

    def get_modified_time(self):
        return self.time

    def __len__(self):
        return 0


def odd(ctx, kind):
    """What consumers and the output receive is the object that read returned, whatever it is; what is written, the one the call returned."""
    back, made = ctx.choose("back", weird.kinds()), ctx.choose("made", weird.kinds())
    other = object()
    stale = kind in ("call", "lit", "dsource") and ctx.choose("stale", [False, True])
    log = []
    plan, registry = uberjob.Plan(), uberjob.Registry()
    store = OddStore(back, log, "x", None if stale else dt.datetime(2000, 1, 2))
    if kind in ("source", "dsource"):
        x = registry.source(plan, store)
        if kind == "dsource":
            plan.add_dependency(plan.call(lambda: store.write(made)), x)
    else:
        x = plan.call(lambda: made) if kind == "call" else plan.lit(made)
        registry.add(x, store)
    got = []

    def consume(*a, **k):
        got.extend([*a, *k.values()])
        return other

    how = ctx.choose("how", ["arg", "kwarg", "list", "none"])
    y = plan.call(consume, x) if how == "arg" else plan.call(consume, k=x) if how == "kwarg" else plan.call(consume, [x]) if how == "list" else plan.call(consume)
    keep = ctx.choose("keep", [False, True])
    if keep:
        registry.add(y, OddStore(other, log, "y", None))
    r = attempt(uberjob.run, plan, output=(x, y), registry=registry, max_workers=1, progress=None, retry=ctx.choose("retry", [None, 2]))
    ctx.check(r.ok and type(r.value) is tuple and len(r.value) == 2 and r.value[0] is back and r.value[1] is other, f"{kind}: the output is not what the stores' reads returned")
    if how == "list":
        ctx.check(len(got) == 1 and type(got[0]) is list, f"{kind}: a list of it arrived as something else")
        got = got[0]
    ctx.check(len(got) == (how != "none") and all(g is back for g in got), f"{kind}: what the consumer received is not what read returned")
    writes = [e for e in log if e[0] == "write" and e[1] == "x"]
    ctx.check(len(writes) == stale and all(e[2] is made for e in writes), f"{kind}: written {len(writes)} times, or something else than the call's result")
    ctx.check(sum(e == ("read", "x") for e in log) == 1, f"{kind}: not read exactly once")
    ctx.tag("odd")


def jobs(tier):
    thorough = tier == "thorough"
    sizes = {1: "CRSDLM", 2: "CRSDLM", 3: "CRSDLM" if thorough else "CRS"}
    out = store_jobs(harness, sizes)
    for j in store_jobs(harness, {2: "CRSL", 3: "CRD"} if thorough else {2: "CRSL"}, order=True, fresh=False, stored=stored(tier, order=True) + ([] if thorough else [s for s in stored(tier) if s[0] in ("dsource-chain", "chain-RCRC-a", "stored-lit-dep", "src-shared", "dsource-2", "skip")])):
        j.name = "order-" + j.name
        out.append(j)
    out += threaded_store_jobs(harness, tier, ("join-R", "fork-R", "chain-R") + ("dsource-R",) * thorough, fresh=False)
    return out + [Job(f"odd-{kind}", odd, dict(kind=kind)) for kind in ("call", "lit", "source", "dsource")]
