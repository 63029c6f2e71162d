import networkx as nx

import uberjob
from vlib.storecheck import BOUNDS_TEXT, fresh_time, make_world, store_jobs, stored
from vlib.symex import And, Iff, Not, Or
from vlib.world import attempt, symbolic_random

LEVEL = "other"
EXPLANATION = (
    "From one symbolic store state (presence, modified times, correctness, fresh_time): uberjob.run(dry_run=True) is "
    "executed symbolically and must perform nothing but modified-time queries; all nodes of the returned physical plan are "
    "then executed by an independent evaluator with no registry; the store state is put back and the corresponding real run "
    "is executed under the same path condition. Calls with their arguments, store reads, store writes with their values, "
    "the output and the final store contents must be equal (also with a transform_physical that adds calls). The symbolic jobs without a registry do the same for plain plans."
)
ASSUMPTIONS = [
    "a dependent source is produced by one unregistered call with no other consumer, which depends on all its stored upstream",
    "the returned plan is executed in topological order by the harness (its own evaluator over the public graph API)",
]
WITNESSES = ("dry", "rebuild", "plain", "with-output", "transformed")
BOUNDS = {"plans": BOUNDS_TEXT, "fresh_time": "absent or any instant"}


def execute(plan, output_node):
    """Executes all nodes of a physical plan by itself."""
    values = {}
    for node in list(nx.topological_sort(plan.graph)):
        if type(node) is uberjob.graph.Literal:
            values[node] = node.value
        else:
            args, kwargs = uberjob.graph.get_argument_nodes(plan.graph, node)
            values[node] = node.fn(*[values[a] for a in args], **{k: values[v] for k, v in kwargs.items()})
    return values[output_node] if output_node is not None else None


def state(w):
    return {i: (s.present, s.mtime, s.good, s.initial, s.value) for i, s in w.stores.items()}


def restore(w, saved):
    for i, s in w.stores.items():
        s.present, s.mtime, s.good, s.initial, s.value = saved[i]
    w.ticks = 0


def essential(events):
    return [e for e in events if e[0] in ("call", "read", "write")]


def harness(ctx, kinds, codes, edges, registry=True, order=False, transform=False):
    w = make_world(ctx, kinds, codes, edges, normalise=True)
    if w is None:
        return
    kw = {}
    ft = None
    if registry:
        w.symbolic_state(invariant=False)
        f, ft = fresh_time(ctx, w, True)
    else:
        kw["registry"] = None
    spec, want, out = w.output()
    if not registry and any(w.kinds[i] in "SDRM" for i in range(w.n)):
        return
    if any(p in out for p in w.producers.values()):
        return  # requesting a call that updates a source makes the source's value depend on the schedule
    if transform:
        seen = []

        def transform_physical(plan, node):
            # what it is given is checked against a dry run without it; its own plan is what runs
            seen.append((plan, node))
            if node is None:
                return plan, node
            plan = plan.copy()
            return plan, plan.gather({"all": node, "one": [1]})

        kw["transform_physical"] = transform_physical
    saved = state(w)
    scheduler = "random" if order else None
    dry = w.run(spec, dry_run=True, fresh_time=ft, **kw)
    ctx.note("world", w.describe())
    ctx.check(dry.ok, f"dry run raised {dry!r}")
    bad = [e for e in w.events if e[0] != "mtime"]
    ctx.check(not bad, f"dry run performed {bad[:3]}")
    ctx.check(
        isinstance(dry.value, tuple) and len(dry.value) == 2 and isinstance(dry.value[0], uberjob.Plan),
        f"dry run returned {dry.value!r}",
    )
    physical, node = dry.value
    ctx.check((node is None) == (spec is None), f"dry run returned output node {node!r} for output {spec!r}")
    ctx.check(node is None or physical.graph.has_node(node), "the output node returned by the dry run is not in its plan")
    ctx.check(all(a is b or (type(a[0]) is type(b[0])) for a, b in zip(saved.values(), state(w).values())), "dry run changed a store")
    ctx.tag("dry")
    w.events = []
    ran = attempt(execute, physical, node)
    ctx.check(ran.ok, f"executing the physical plan raised {ran!r}")
    planned = w.events
    after_plan = state(w)
    restore(w, saved)
    real = w.run(spec, scheduler, fresh_time=ft, **kw)
    ctx.check(real.ok, f"the real run raised {real!r}")
    ctx.check(
        sorted(map(repr, essential(planned))) == sorted(map(repr, essential(w.events))),
        f"executing the physical plan performed {essential(planned)}, the real run {essential(w.events)}",
    )
    ctx.check(ran.value == real.value, f"executing the physical plan gave {ran.value!r}, the real run {real.value!r}")
    if transform:
        ctx.check(len(seen) == 2, f"transform_physical was called {len(seen)} times by two runs")
        ctx.check(spec is None or physical is not seen[0][0], "the plan returned by transform_physical was not used")
        ctx.check(spec is None or list(real.value) == ["all", "one"], f"with transform_physical, run returned {real.value!r}")
        ctx.tag("transformed")
    final = state(w)
    for i in w.stores:
        a, b = after_plan[i], final[i]
        ctx.check(a[3] == b[3] and (a[3] or a[4] == b[4]), f"store {i} ends differently")
    ctx.tag("rebuild" if any(e[0] == "write" for e in w.events) else "plain" if not registry else "idle")
    if spec is not None:
        ctx.tag("with-output")


def jobs(tier):
    from vlib import shapes
    from vlib.run import Job

    thorough = tier == "thorough"
    sizes = {1: "CRSDLM", 2: "CRSDLM", 3: "CRSDLM" if thorough else "CRS"}
    out = store_jobs(harness, sizes)
    for j in store_jobs(harness, {2: "CRS"}, order=True, stored=stored(tier, order=True)[:3]):
        j.name = "order-" + j.name
        out.append(j)
    for j in store_jobs(harness, {1: "RS", 2: "CRSM"}, transform=True, stored=stored(tier, order=True)[:3]):
        j.name = "transform-" + j.name
        out.append(j)
    for name, kinds, edges in shapes.PLAIN:
        out.append(Job(f"plain-{name}", harness, dict(kinds=kinds, codes=(), edges=edges, registry=False)))
    return out
