import contextlib
import copy
import threading

import uberjob
from vlib.storecheck import BOUNDS_TEXT, fresh_time, make_world, store_jobs, stored
from vlib.symex import Violation
from vlib.world import Injected, World, attempt
from vlib.run import Job

LEVEL = "other"
EXPLANATION = (
    "uberjob.run (real and dry, with symbolic outcome: success, a symbolic fault in the stale check or in the run) and "
    "uberjob.render executed on plans with symbolic store states; a structural snapshot of the caller's Plan and Registry "
    "(node objects, their scope/function/value/stack frame objects, the edge multiset with key objects, registry entries and "
    "their fields, in order) is compared before and after. Copies are mutated in every way the API allows and the original "
    "is compared, and the reverse. A repeated run after each outcome must give the from-scratch output. Two threads that run, "
    "dry-run or render the same plan at once do so under a symbolic schedule: each gets what it would get alone, and nothing changes."
)
ASSUMPTIONS = [
    "concurrent runs of one plan: two at a time, one worker each, within the preemptions of vlib/sched.py",
    "render is run with format='raw' (the real nxv code up to the graphviz process)",
]
WITNESSES = ("run-ok", "run-failed", "dry", "render", "copy", "concurrent")
BOUNDS = {
    "plans": BOUNDS_TEXT,
    "faults": "0 or 1, any operation",
    "concurrent": "two threads that run, dry-run or render one plan of up to 3 nodes; 1 preemption at any access to shared state, some free switches at calls and stores",
}


def snapshot(plan, registry):
    g = plan.graph
    nodes = []
    for n, data in g.nodes(data=True):
        fields = {"scope": n.scope}
        for name in ("fn", "value", "stack_frame"):
            if hasattr(n, name):
                fields[name] = getattr(n, name)
        nodes.append((n, type(n), fields, dict(data)))
    edges = [(u, v, k, type(k), getattr(k, "index", None), getattr(k, "name", None), dict(d)) for u, v, k, d in g.edges(keys=True, data=True)]
    reg = [(n, rv, rv.value_store, rv.is_source, rv.stack_frame) for n, rv in registry.mapping.items()]
    return {
        "graph": g,
        "graph_type": uberjob.graph.Graph if isinstance(g, uberjob.graph.Graph) else type(g),
        "graph_data": dict(g.graph),
        "nodes": nodes,
        "edges": edges,
        "scope": getattr(plan, "_scope", None),
        "mapping": registry.mapping,
        "reg": reg,
        "frozen": getattr(g, "frozen", False),
    }


def same(a, b):
    """None, or what differs."""
    if a["graph"] is not b["graph"] or a["graph_type"] is not b["graph_type"]:
        return "the graph object was replaced"
    if len(a["nodes"]) != len(b["nodes"]):
        return f"{len(a['nodes'])} nodes before, {len(b['nodes'])} after"
    for x, y in zip(a["nodes"], b["nodes"]):
        if x[0] is not y[0] or x[1] is not y[1]:
            return "the nodes or their order changed"
        for k in x[2]:
            if x[2][k] is not y[2].get(k) and not (k == "scope" and x[2][k] == y[2].get(k)):
                return f"{k} of node {x[0]!r} changed to {y[2].get(k)!r}"
        if x[3] != y[3]:
            return "node attributes changed"
    ea = sorted(((id(u), id(v), id(k)) for u, v, k, *_ in a["edges"]))
    eb = sorted(((id(u), id(v), id(k)) for u, v, k, *_ in b["edges"]))
    if ea != eb:
        return "the edges changed"
    for x, y in zip(a["edges"], b["edges"]):
        if any(p is not q for p, q in zip(x[:4], y[:4])) or x[4:] != y[4:]:
            return f"edge {x} became {y}"
    if a["scope"] != b["scope"] or a["graph_data"] != b["graph_data"] or a["frozen"] != b["frozen"]:
        return "plan scope or graph attributes changed"
    if a["mapping"] is not b["mapping"] or len(a["reg"]) != len(b["reg"]):
        return "the registry gained or lost entries"
    for x, y in zip(a["reg"], b["reg"]):
        if any(p is not q for p, q in zip(x, y)):
            return f"registry entry {x} became {y}"
    return None


def check_same(ctx, before, w, when):
    d = same(before, snapshot(w.plan, w.registry))
    ctx.check(d is None, f"the caller's plan or registry was modified {when}: {d}")


class Guard:
    """Reports every write to the caller's plan, nodes, edges and registry while a run is in progress, even if undone."""

    active = None

    def __init__(self, w):
        self.writes = []
        self.objects = {}
        for o in [w.plan, w.registry, *w.plan.graph.nodes(), *w.registry.mapping.values()]:
            self.objects[id(o)] = o
        for _, _, k in w.plan.graph.edges(keys=True):
            self.objects[id(k)] = k
        self.graph = w.plan.graph
        self.mapping = w.registry.mapping

    def __enter__(self):
        install_guards()
        self.graph.__class__ = GuardedGraph
        Guard.active = self

    def __exit__(self, *exc):
        Guard.active = None
        self.graph.__class__ = uberjob.graph.Graph

    def report(self, text):
        self.writes.append(text)


_installed = []


class GuardedGraph(uberjob.graph.Graph):
    """The caller's graph during a run (copies of it are ordinary graphs)."""

    def copy(self, as_view=False):
        self.__class__ = uberjob.graph.Graph
        try:
            return self.copy(as_view)
        finally:
            self.__class__ = GuardedGraph


def _guard_method(name):
    def method(self, *args, **kwargs):
        g = Guard.active
        if g is not None and self is g.graph:
            g.report(f"graph.{name} was called on the caller's graph")
        return getattr(uberjob.graph.Graph, name)(self, *args, **kwargs)

    method.__name__ = name
    return method


for _name in ("add_node", "add_nodes_from", "add_edge", "add_edges_from", "remove_node", "remove_nodes_from", "remove_edge", "remove_edges_from", "clear", "clear_edges", "update"):
    setattr(GuardedGraph, _name, _guard_method(_name))


def install_guards():
    """Attribute writes on Plan, Registry, RegistryValue, Node and Dependency objects go through a check."""
    if _installed:
        return
    _installed.append(1)
    from uberjob import _registry

    def make(cls):
        inherited = cls.__setattr__

        def __setattr__(self, name, value):
            g = Guard.active
            if g is not None and id(self) in g.objects and g.objects[id(self)] is self:
                old = getattr(self, name, None)
                if old is not value and old != value:
                    g.report(f"{name} of {type(self).__name__} was set to {value!r}")
            inherited(self, name, value)

        cls.__setattr__ = __setattr__

    value = getattr(_registry, "RegistryValue", None)
    for cls in (uberjob.Plan, uberjob.Registry, uberjob.graph.Node, uberjob.graph.Dependency, *([value] if value else [])):
        make(cls)


def harness(ctx, kinds, codes, edges, scopes=False):
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    if scopes:
        # Scopes as the user may have set them, entered while building.
        with w.plan.scope("outer", 1):
            extra = w.plan.call(dict)
    w.symbolic_state(invariant=True)
    before = snapshot(w.plan, w.registry)
    mode = ctx.choose("mode", ["run", "dry", "fault", "no-registry", "transform"])
    kw = {}
    if mode == "dry":
        kw["dry_run"] = True
    if mode == "transform":

        def transform_physical(plan, node):
            # The physical plan is the caller of run's to edit.
            plan.lit("more")
            if node is not None:
                plan.add_dependency(plan.call(dict), node)
            with plan.scope("physical"):
                node = plan.gather([node]) if node is not None else None
            return plan, node

        kw["transform_physical"] = transform_physical
    if mode == "no-registry":
        kw["registry"] = None
        if any(k in "SD" for k in w.kinds):
            return
    if mode == "fault":
        w.fault_exc = None
        w.cut = ctx.int("cut", 0, 40)
    spec, want, out = w.output(few=mode == "fault")
    guard = Guard(w)
    w.op_hook = lambda what, i: check_same(ctx, before, w, f"during the {mode} run")
    with guard:
        r = w.run(spec, **kw)
    w.op_hook = None
    ctx.note("world", w.describe())
    ctx.check(not guard.writes, f"{mode} run wrote to its plan or registry while it was in progress: {guard.writes[:2]}")
    d = same(before, snapshot(w.plan, w.registry))
    ctx.check(d is None, f"{mode} run modified its plan or registry: {d}")
    if mode in ("run", "transform"):
        ctx.check(r.ok, f"run raised: {r!r}")
    ctx.tag("dry" if mode == "dry" else "run-ok" if r.ok else "run-failed")
    if mode == "dry" and r.ok:
        # The returned plan must not share mutable structure with the caller's plan.
        physical, node = r.value
        ctx.check(physical is not w.plan and physical.graph is not w.plan.graph, "dry run returned the caller's own plan")
        physical.graph.clear()
        d = same(before, snapshot(w.plan, w.registry))
        ctx.check(d is None, f"clearing the plan returned by a dry run modified the caller's: {d}")
    # The same plan again, with the same meaning.
    w.cut = None
    if mode != "no-registry":
        r = w.run(spec)
        ctx.check(r.ok and r.value == want, f"running the same plan again gave {r!r}, not {want!r}")
        d = same(before, snapshot(w.plan, w.registry))
        ctx.check(d is None, f"the second run modified its plan or registry: {d}")


def render_harness(ctx, kinds, codes, edges):
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    with w.plan.scope("a"):
        x = w.plan.call(dict)
        with w.plan.scope("b"):
            y = w.plan.call(dict, z=x)
    w.symbolic_state(invariant=True)
    before = snapshot(w.plan, w.registry)
    what = ctx.choose("what", ["plan", "graph", "dry", "dry-tuple"])
    reg = ctx.choose("registry", [True, False])
    level = ctx.choose("level", [None, 0, 1, 2])
    predicate = ctx.choose("predicate", [None, "call", "none"])
    calls = lambda n, d: type(n) is uberjob.graph.Call
    pred = {None: None, "call": calls, "none": lambda n, d: False}[predicate]
    if what == "plan":
        subject = w.plan
    elif what == "graph":
        subject = w.plan.graph
    else:
        r = w.run(None, dry_run=True)
        subject = r.value[0] if what == "dry" else r.value
    guard = Guard(w)
    with guard:
        r = attempt(uberjob.render, subject, registry=w.registry if reg else None, level=level, predicate=pred, format="raw")
    ctx.check(r.ok, f"render raised {r!r}")
    ctx.check(not guard.writes, f"render wrote to its plan or registry: {guard.writes[:2]}")
    d = same(before, snapshot(w.plan, w.registry))
    ctx.check(d is None, f"render modified its plan or registry: {d}")
    ctx.tag("render")


def edge_set(plan):
    return {(id(u), id(v), type(k).__name__, getattr(k, "index", None), getattr(k, "name", None)) for u, v, k in plan.graph.edges(keys=True)}


def copies(ctx, kinds, codes, edges):
    """Copies are independent of their originals, in both directions."""
    w = make_world(ctx, kinds, codes, edges)
    if w is None:
        return
    how = ctx.choose("how", ["method", "copy.copy"])
    plan2 = w.plan.copy() if how == "method" else copy.copy(w.plan)
    reg2 = w.registry.copy() if how == "method" else copy.copy(w.registry)
    ctx.check(list(plan2.graph.nodes()) == list(w.plan.graph.nodes()), "Plan.copy does not have the same nodes")
    ctx.check(edge_set(plan2) == edge_set(w.plan), "Plan.copy does not have the same edges")
    ctx.check(list(reg2.mapping) == list(w.registry.mapping), "Registry.copy does not have the same nodes")
    ctx.check([reg2.get(n) for n in reg2] == [w.registry.get(n) for n in w.registry], "Registry.copy does not have the same stores")
    # Mutate one side, observe the other.
    side = ctx.choose("side", ["copy", "original"])
    mutated, kept = ((plan2, reg2), (w.plan, w.registry)) if side == "copy" else ((w.plan, w.registry), (plan2, reg2))
    before = snapshot(*kept)
    p, r = mutated
    op = ctx.choose("op", ["call", "lit", "dep", "remove_node", "remove_edge", "clear", "scope", "add", "source", "is_source", "store", "del", "frame"])
    nodes = list(p.graph.nodes())
    if op == "call":
        p.call(max, nodes[0], nodes[-1])
    elif op == "lit":
        p.lit(3)
    elif op == "dep":
        p.add_dependency(nodes[0], nodes[-1])
    elif op == "remove_node":
        p.graph.remove_node(ctx.choose("node", nodes))
    elif op == "remove_edge":
        es = list(p.graph.edges(keys=True))
        if es:
            p.graph.remove_edge(*ctx.choose("edge", es))
    elif op == "clear":
        p.graph.clear()
    elif op == "scope":
        with p.scope("x"):
            probe = kept[0].lit(4)
            ctx.check(probe.scope == (), "entering a scope of the copy enters it in the original")
            kept[0].graph.remove_node(probe)
    elif op == "add":
        free = [n for n in nodes if n not in r]
        if free:
            r.add(free[0], next(iter(w.stores.values())))
    elif op == "source":
        r.source(p, next(iter(w.stores.values())))
    else:
        for n in list(r.mapping):
            with contextlib.suppress(AttributeError):  # where entries are immutable
                if op == "is_source":
                    r.mapping[n].is_source = not r.mapping[n].is_source
                elif op == "store":
                    r.mapping[n].value_store = object()
                elif op == "frame":
                    r.mapping[n].stack_frame = None
                else:
                    del r.mapping[n]
    d = same(before, snapshot(*kept))
    ctx.check(d is None, f"{op} on the {side} changed the other one: {d}")
    ctx.tag("copy")


def concurrent(ctx, kinds, edges, modes, bounds):
    """Two threads use the same plan and registry at once, under a symbolic schedule."""
    from vlib.sched import Sched

    w = World(ctx, kinds, edges)
    plain = not w.stores
    w.symbolic_state(invariant=True)
    with w.plan.scope("outer"):
        w.plan.call(dict)
    outputs = [(w.nodes[i], w.consumed(i), i) for i in range(w.n)]
    how = ctx.choose("modes", modes)
    # the two may want different things
    specs = [outputs[-1], outputs[0] if plain else outputs[-1]]
    w.cut = ctx.int("cut", 0, 8) if how[1] == "fault" else None
    w.fault_exc = Injected
    before = snapshot(w.plan, w.registry)
    guard = Guard(w)
    results = [None, None]
    s = w.sched = Sched(ctx, **bounds)
    extra = {"run": {}, "fault": {}, "dry": {"dry_run": True}}

    def go(k):
        if how[k] == "render":
            results[k] = attempt(uberjob.render, w.plan, registry=w.registry, format="raw")
        else:
            spec = specs[k][0]
            spec = spec if k == 0 else {"x": [spec]}
            results[k] = attempt(uberjob.run, w.plan, output=spec, registry=w.registry, max_workers=1, progress=None, **extra[how[k]])

    with guard:
        with s:
            t = threading.Thread(target=go, args=(1,))
            t.start()
            go(0)
            t.join()
    w.sched = None
    ctx.note("world", w.describe())
    ctx.note("schedule", s.describe_schedule())
    s.check("two threads that use one plan")
    ctx.check(not s.leftover, f"a thread is left running: {s.left}")
    ctx.check(not guard.writes, f"{how} at once wrote to the plan or registry while in progress: {guard.writes[:2]}")
    d = same(before, snapshot(w.plan, w.registry))
    ctx.check(d is None, f"{how} at once modified the plan or registry: {d}")
    for k, r in enumerate(results):
        if how[k] == "run" and not (w.cut is not None and w.faults):
            want = specs[k][1] if k == 0 else {"x": [specs[k][1]]}
            ctx.check(r.ok and r.value == want, f"{how} at once: run {k} gave {r!r}, not {want!r}")
        elif how[k] in ("dry", "render"):
            ctx.check(r.ok, f"{how} at once: {how[k]} raised {r!r}")
            if how[k] == "dry":
                ctx.check(r.value[0] is not w.plan and r.value[0].graph is not w.plan.graph, "dry run returned the caller's own plan")
    if how[1] == "fault" and w.faults:
        # of the two runs, the one whose call or store failed, and only it, fails
        ctx.check(sum(not r.ok for r in results) == 1, f"one operation failed, and of the two runs {[repr(r) for r in results]}")
        for k, r in enumerate(results):
            want = specs[k][1] if k == 0 else {"x": [specs[k][1]]}
            ctx.check(not r.ok or r.value == want, f"{how} at once: run {k} gave {r!r}, not {want!r}")
        ctx.tag("concurrent-failed")
    if plain and not w.faults:
        times = [0] * w.n
        for k in range(2):
            if how[k] in ("run", "fault"):
                i = specs[k][2]
                for j in {i} | w.ancestors(i):
                    times[j] += 1
        got = [w.count("call", i) for i in range(w.n)]
        ctx.check(got == [times[i] * (w.kinds[i] == "C") for i in range(w.n)], f"{how} at once: the calls were executed {got} times, not {times}")
    if s.used:
        ctx.tag("concurrent")
    # ... and later, with the same meaning
    w.cut = None
    r = w.run(specs[0][0])
    ctx.check(r.ok and r.value == specs[0][1], f"running the plan again gave {r!r}, not {specs[0][1]!r}")


CONCURRENT = [
    ("chain", "CC", {(0, 1): "a"}),
    ("join", "CLC", {(0, 2): "a", (1, 2): "a"}),
    ("stored", "SR", {(0, 1): "a"}),
    ("registered", "R", {}),
]


def jobs(tier):
    thorough = tier == "thorough"
    sizes = {1: "CRSDLM", 2: "CRSDLM"}
    if thorough:
        sizes[3] = "CRSDL"
    out = store_jobs(harness, sizes, stored=stored(tier))
    small = [s for s in stored(tier) if s[0] in ("parallel-R", "hub-R", "dsource-lit", "gathered-R", "stored-lit", "src-shared")]
    for j in store_jobs(copies, {2: "CRSDLM"}, stored=small):
        j.name = "copies-" + j.name
        out.append(j)
    for j in store_jobs(render_harness, {2: "CRSDLM"} if thorough else {1: "CRSDLM", 2: "CRS"}, codes=("", "a", "d"), stored=small if thorough else small[:2]):
        j.name = "render-" + j.name
        out.append(j)
    bounds = dict(preemptions=1, yields=2 if thorough else 0)
    for name, kinds, edges in CONCURRENT:
        modes = [("run", "run"), ("run", "fault"), ("run", "dry"), ("run", "render"), ("dry", "dry"), ("render", "dry")]
        if not thorough:
            modes = {"chain": modes[:1] + modes[2:4], "registered": modes[:1]}.get(name)
        if modes:
            out.append(Job(f"concurrent-{name}", concurrent, dict(kinds=kinds, edges=edges, modes=modes, bounds=bounds)))
    return out
