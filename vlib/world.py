"""
Symbolic environments for whole runs: plans with call functions, stores, sources and their histories.

A World is built from choices made through ctx; the plan, registry and run are the real uberjob. What is symbolic: which
stored values are present, their modified times, fresh_time, whether a value that would be rebuilt is junk, the position
of a fault, the order in which ready nodes are processed.
"""
import contextlib
import random

import uberjob
from uberjob import ValueStore
from vlib import symdt
from vlib.symex import And, Iff, Implies, Not, Or, SymNum, Violation


class Injected(Exception):
    """The fault the harness injects."""


class InjectedBase(BaseException):
    """The same, not an Exception."""


@contextlib.contextmanager
def symbolic_random(ctx):
    """Every random number the scheduler draws (through the random module's functions) is a symbolic choice."""
    inst = random._inst
    count = [0]

    def randbelow(n, *a):
        count[0] += 1
        return ctx.choose(f"rand{count[0]}_{n}", n)

    inst._randbelow = randbelow
    try:
        yield
    finally:
        del inst._randbelow


class Outcome:
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return f"<ok {self.value!r}>" if self.ok else f"<raised {self.exc!r} from {self.exc.__cause__!r}>"


class Killed(BaseException):
    """A path under a symbolic schedule (vlib/sched.py) is over; its threads have to go."""


def attempt(fn, *args, **kwargs):
    """Runs the code under test; any exception is an outcome."""
    try:
        return Outcome(True, fn(*args, **kwargs), None)
    except Violation:
        raise
    except Exception as e:
        return Outcome(False, None, e)
    except (InjectedBase, Killed) as e:
        return Outcome(False, None, e)


class Junk:
    def __repr__(self):
        return "<junk>"


JUNK = Junk()


class WorldStore(ValueStore):
    def __init__(self, world, i):
        self.world = world
        self.i = i
        self.present = False
        self.good = True  # meaningful for initial values: is the value the from-scratch one?
        self.value = None
        self.initial = True
        self.mtime = None  # a number

    def read(self):
        w = self.world
        w.op("read", self.i)
        if not self.present:
            w.raised.append(self.i)
            raise KeyError(f"store {self.i} is empty")
        if self.initial:
            # An initial value: correct or junk, as the solver likes.
            value = w.expected(self.i) if self.good else JUNK
        else:
            value = self.value
        w.events.append(("read", self.i))
        w.op("read-after", self.i)
        w.events.append(("read-end", self.i))
        return w.norm(self.i, value)

    def write(self, value):
        w = self.world
        w.op("write", self.i)
        self.put(value)
        w.events.append(("write", self.i, value))
        w.op("write-after", self.i)
        w.events.append(("write-end", self.i))

    def put(self, value):
        self.present = True
        self.initial = False
        self.value = value
        self.mtime = self.world.tick()

    def get_modified_time(self):
        w = self.world
        w.op("mtime", self.i)
        w.events.append(("mtime", self.i))
        if not self.present:
            return None
        return w.datetime(self.i, self.mtime)

    def __len__(self):
        return 0  # (nothing may depend on whether a store is true)

    def correct(self):
        """Is the stored value the from-scratch one? (bool or SymBool)"""
        if self.initial:
            return self.good
        return self.value == self.world.expected(self.i)


KINDS = {
    "C": "unregistered call",
    "R": "call with a value store",
    "S": "source",
    "D": "dependent source",
    "L": "literal",
    "M": "literal with a value store",
}
RANGE = 10 * 10**6  # of initial modified times (microseconds)
TIMED = "RSDM"


class World:
    """
    kinds: string over KINDS, one per node, topologically ordered; edges: {(i, j): code} with i < j and code a string of
    'a' (positional argument), 'k' (keyword argument), 'g' (argument inside a list), 'd' (plain dependency).
    """

    store_class = WorldStore

    def __init__(self, ctx, kinds, edges, normalise=False, scopes=None):
        self.ctx = ctx
        self.kinds = kinds
        self.n = len(kinds)
        self.edges = {e: c for e, c in edges.items() if c}
        self.normalise = normalise
        self.scopes = scopes or {}
        self.events = []
        self.raised = []
        self.ticks = 0
        self.base = 0
        self.cut = None
        self.opcount = 0
        self.dead = False
        self.death = False
        self.fault_exc = Injected
        self.faults = []
        self.call_hook = None
        self.op_hook = None
        self._expected = {}
        self.stores = {}
        self.plan = uberjob.Plan()
        self.registry = uberjob.Registry()
        self.nodes = []
        self.version = {i: 0 for i in range(self.n)}
        self.producers = {}
        for j, k in enumerate(kinds):
            if k == "D":
                todo = self.preds(j)
                while todo:
                    i = todo.pop(0)
                    if kinds[i] == "C":
                        self.producers[j] = i
                        break
                    if kinds[i] == "L":
                        todo.extend(self.preds(i))
        for i, k in enumerate(kinds):
            with self.plan.scope(*self.scopes.get(i, ())):
                self.nodes.append(self._make(i, k))

    # -- construction
    def _make(self, i, k):
        plan, reg = self.plan, self.registry
        if k in TIMED:
            self.stores[i] = self.store_class(self, i)
        if k in "LM":
            node = plan.lit(self.lit_value(i))
            if k == "M":
                reg.add(node, self.stores[i])
        elif k in "SD":
            node = reg.source(plan, self.stores[i])
        else:
            args, kwargs = [], {}
            for p in self.preds(i):
                for c in self.edges[p, i]:
                    if c == "a":
                        args.append(self.nodes[p])
                    elif c == "g":
                        args.append([self.nodes[p]])
                    elif c == "k":
                        kwargs[f"k{p}"] = self.nodes[p]
            node = plan.call(self.fn(i), *args, **kwargs)
            if k == "R":
                reg.add(node, self.stores[i])
        for p in self.preds(i):
            if "d" in self.edges[p, i]:
                plan.add_dependency(self.nodes[p], node)
        return node

    def lit_value(self, i):
        return ("lit", i)

    def fn(self, i):
        def call(*args, **kwargs):
            return self.on_call(i, args, kwargs)

        call.__name__ = call.__qualname__ = f"f{i}"
        return call

    def on_call(self, i, args, kwargs):
        self.op("call", i)
        self.events.append(("call", i, args, kwargs))
        if self.call_hook:
            self.call_hook(i, args, kwargs)
        term = ("f", i, args, tuple(sorted(kwargs.items())))
        for d, p in self.producers.items():
            if p == i:
                self.stores[d].put(("side", d, term))
                self.events.append(("side", d))
        self.op("call-after", i)
        self.events.append(("end", i))
        return term

    # -- structure
    def preds(self, j):
        return [i for i in range(j) if (i, j) in self.edges]

    def succs(self, i):
        return [j for j in range(i + 1, self.n) if (i, j) in self.edges]

    def ancestors(self, j):
        out = set()
        todo = list(self.preds(j))
        while todo:
            p = todo.pop()
            if p not in out:
                out.add(p)
                todo.extend(self.preds(p))
        return out

    # -- reference semantics
    def norm(self, i, value):
        return ("norm", i, value) if self.normalise else value

    def expected(self, i):
        """The from-scratch value of node i (what its store should hold)."""
        if i not in self._expected:
            k = self.kinds[i]
            if k in "LM":
                v = self.lit_value(i)
            elif k == "S" or (k == "D" and i not in self.producers):
                v = ("src", i, self.version[i])
            elif k == "D":
                v = ("side", i, self.expected(self.producers[i]))
            else:
                args, kwargs = [], []
                for p in self.preds(i):
                    for c in self.edges[p, i]:
                        if c == "a":
                            args.append(self.consumed(p))
                        elif c == "g":
                            args.append([self.consumed(p)])
                        elif c == "k":
                            kwargs.append((f"k{p}", self.consumed(p)))
                v = ("f", i, tuple(args), tuple(sorted(kwargs)))
            self._expected[i] = v
        return self._expected[i]

    def consumed(self, i):
        """The from-scratch value that consumers of node i receive."""
        v = self.expected(i)
        return self.norm(i, v) if self.kinds[i] in TIMED else v

    # -- time and faults
    def datetime(self, i, number):
        """The datetime that store i reports for a modified time."""
        return symdt.instant(self.ctx, number)

    def tick(self):
        self.ticks += 1
        return self.base + self.ticks

    sched = None  # of the run, if it is one under a symbolic schedule
    under = None

    def threads(self, workers=2, **bounds):
        """From here on, runs have so many workers, under a symbolic schedule (see vlib/sched.py)."""
        self.under = (workers, bounds)

    def pause(self):
        """In the middle of a call or of an operation of a store, other threads may go on."""
        if self.sched is not None:
            self.sched.yield_()

    def op(self, what, i):
        """One operation of the environment; the cut position may be here."""
        self.pause()
        if self.op_hook:
            self.op_hook(what, i)
        if self.dead:
            raise self.fault_exc("the process is gone")
        if self.cut is None:
            return
        k = self.opcount
        self.opcount += 1
        if self.cut == k:
            self.faults.append((what, i))
            self.raised.append(i)
            self.dead = self.death
            if self.fault_exc is None:
                self.fault_exc = self.ctx.choose("fault_type", [Injected, InjectedBase])
            raise self.fault_exc(f"fault at {what} {i}")

    # -- symbolic store state
    def symbolic_state(self, sources_present=True, invariant=True):
        """Arbitrary store state: presence, pairwise distinct modified times, correctness."""
        ctx = self.ctx
        ms = []
        for i, s in sorted(self.stores.items()):
            pure = self.kinds[i] == "S" or (self.kinds[i] == "D" and i not in self.producers)
            if pure and sources_present:
                s.present = True
            else:
                s.present = ctx.bool(f"present{i}")
            s.mtime = ctx.int(f"mtime{i}", 0, RANGE)
            for m in ms:
                ctx.assume(s.mtime != m)
            ms.append(s.mtime)
            s.initial = True
            s.good = True if pure else ctx.bool(f"good{i}")
        self.base = RANGE
        self.ticks = 0
        if invariant:
            for i in sorted(self.stores):
                ctx.assume(self.inv(i))

    def sensible(self):
        """
        Dependent sources are produced by one unregistered call, which has no other consumer (there may be literals in between)
        and depends on every timed ancestor of the source (otherwise the source can be older than its upstream right after a
        run, by construction).
        """
        for d in self.stores:
            if self.kinds[d] == "D" and self.preds(d):
                p = self.producers.get(d)
                if p is None or self.through_literals(p) != {d}:
                    return False
                if set(self.timed_up(d)) - self.ancestors(p):
                    return False
        return True

    def through_literals(self, i):
        """What node i leads to, literals passed over."""
        out = set()
        todo = list(self.succs(i))
        while todo:
            j = todo.pop()
            if self.kinds[j] == "L":
                todo.extend(self.succs(j))
                if not self.succs(j):
                    out.add(j)
            else:
                out.add(j)
        return out

    def timed_up(self, i):
        return [u for u in sorted(self.ancestors(i)) if self.kinds[u] in TIMED]

    def out_of_date(self, i, fresh=None, memo=None):
        """The declarative definition, as a formula over the current store state."""
        memo = {} if memo is None else memo
        if i in memo:
            return memo[i]
        s = self.stores[i]
        k = self.kinds[i]
        terms = [Not(s.present)]
        ups = self.timed_up(i)
        if k != "S":
            for u in ups:
                terms.append(self.out_of_date(u, fresh, memo))
                terms.append(self.stores[u].mtime > s.mtime if self.stores[u].mtime is not None and s.mtime is not None else False)
            if fresh is not None and not (k == "D" and not ups):
                terms.append(fresh > s.mtime if s.mtime is not None else False)
        memo[i] = Or(*terms)
        return memo[i]

    def inv(self, i):
        """Whatever is not out of date holds its from-scratch value."""
        s = self.stores[i]
        if self.kinds[i] == "S":
            return True
        return Implies(And(s.present, Not(self.out_of_date(i))), s.correct())

    def assert_inv(self, what):
        for i in sorted(self.stores):
            self.ctx.check(self.inv(i), f"{what}: store {i} would be treated as up to date but does not hold its from-scratch value")

    # -- running
    def run(self, output=None, scheduler=None, **kw):
        if self.under:
            return self.run_under(output, scheduler, **kw)
        kw.setdefault("max_workers", 1)
        kw.setdefault("progress", None)
        kw.setdefault("registry", self.registry)
        self.events = []
        if scheduler == "random":
            with symbolic_random(self.ctx):
                return attempt(uberjob.run, self.plan, output=output, scheduler="random", **kw)
        return attempt(uberjob.run, self.plan, output=output, scheduler=scheduler, **kw)

    def run_under(self, output, scheduler, **kw):
        from vlib.sched import Sched

        workers, bounds = self.under
        self.under = None
        try:
            self.sched = Sched(self.ctx, **bounds)
            kw.setdefault("max_workers", workers)
            with self.sched:
                r = self.run(output, scheduler, **kw)
        finally:
            self.under = (workers, bounds)
            s, self.sched = self.sched, None
            self.last_sched = s
        self.ctx.note("schedule", s.describe_schedule())
        s.check()
        if s.used:
            self.ctx.tag("preempted")
        if s.most > 1:
            self.ctx.tag("threads")
        return r

    def count(self, what, i):
        return sum(1 for e in self.events if e[0] == what and e[1] == i)

    def output(self, name="output", allow_none=True, few=False):
        """A symbolic output specification -> (spec, expected value, set of node indices)."""
        ctx = self.ctx
        options = ([("none",)] if allow_none else []) + [("one", i) for i in range(self.n)]
        sinks = [i for i in range(self.n) if not self.succs(i)]
        structs = [("struct", 0, self.n - 1)] if self.n > 1 else []
        if len(sinks) > 1 and sinks != [0, self.n - 1]:
            structs.append(("struct", *sinks))
        options += structs
        if few:
            options = ([("none",)] if allow_none else []) + [options[-1]]
        o = ctx.choose(name, options)
        if o[0] == "none":
            return None, None, ()
        if o[0] == "one":
            return self.nodes[o[1]], self.consumed(o[1]), (o[1],)
        ids = o[1:]
        spec = {"x": [self.nodes[ids[0]], 7], "y": tuple(self.nodes[i] for i in reversed(ids))}
        want = {"x": [self.consumed(ids[0]), 7], "y": tuple(self.consumed(i) for i in reversed(ids))}
        return spec, want, ids

    def describe(self):
        return {"kinds": self.kinds, "edges": {f"{i}->{j}": c for (i, j), c in self.edges.items()}, "events": [str(e[:2]) for e in self.events]}


def choose_edges(ctx, kinds, arg_codes=("", "a", "d"), max_edges=None):
    """Symbolic edge set over a topologically ordered list of kinds."""
    edges = {}
    for j in range(len(kinds)):
        for i in range(j):
            if kinds[j] == "S":
                continue
            codes = arg_codes if kinds[j] in "CR" else tuple(c for c in ("", "d"))
            if len(codes) == 1:
                c = codes[0]
            else:
                c = ctx.choose(f"edge{i}{j}", list(codes))
            if c:
                edges[i, j] = c
    ctx.assume(not REDUCE or canonical(kinds, edges))
    return edges


REDUCE = False  # set by vlib.run: of the plans that only differ in the order in which nodes were added, explore one


def canonical(kinds, edges, same_kind=False):
    """No exchange of two neighbours that are not connected gives a smaller description of the same plan."""
    n = len(kinds)
    describe = lambda kinds, edges: ("".join(kinds), [edges.get((i, j), "") for j in range(n) for i in range(j)])
    own = describe(kinds, edges)
    for a in range(n - 1):
        if (a, a + 1) in edges or (same_kind and kinds[a] != kinds[a + 1]):
            continue
        order = list(range(n))
        order[a], order[a + 1] = a + 1, a
        other = describe([kinds[i] for i in order], {(order[i], order[j]): c for (i, j), c in edges.items()})
        if other < own:
            return False
    return True
