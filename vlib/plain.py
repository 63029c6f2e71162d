"""Runs of plans without a registry: symbolic shapes, outputs, processing order, failing calls and attempts."""
import itertools

from vlib import shapes, world
from vlib.run import Job
from vlib.symex import And, Implies, Not, Or
from vlib.world import Injected, InjectedBase, World, choose_edges

SHAPE_TEXT = (
    "all plans of up to 3 nodes over calls and literals with edges none/positional/plain dependency/both, all plans of 4 nodes with "
    "plain dependencies, and the fixed larger shapes of vlib/shapes.py (literal hubs and chains, diamonds, ladders, parallel, "
    "keyword and structure edges, up to 7 nodes)"
)

SCHEDULE_TEXT = (
    "one worker, except in the 'preempted' and 'parallel' jobs: there 2 workers (thorough: 3) under every schedule with 1 "
    "preemption (thorough: 2 on small plans) at any shared access of uberjob's code or lock operation, or with up to 8 "
    "(thorough: 14) free choices of who goes on in the middle of calls and where threads wait"
)


class PlainWorld(World):
    """Calls may fail: fails(i) -> bool or SymBool decides for each call, exception(i, attempt) makes the exception."""

    failing = None  # {i: SymBool}; None: nothing fails
    fail_counts = None  # {(what, i): SymNum}: the first so many attempts fail
    kinds_of_exception = None
    raised_exc = None
    started = None
    finished = None
    attempts = None

    def reset(self):
        self.started, self.finished, self.raised_exc, self.attempts = [], [], [], {}

    def symbolic_failures(self, which=None):
        self.failing = {i: self.ctx.bool(f"fail{i}") for i in range(self.n) if self.kinds[i] in "CR" and (which is None or i in which)}

    def make_exception(self, i):
        return Injected(f"call {i}")

    def on_call(self, i, args, kwargs):
        self.started.append(i)
        self.events.append(("call", i, args, kwargs))
        n = self.attempts[i] = self.attempts.get(i, 0) + 1
        if self.call_hook:
            self.call_hook(i, args, kwargs)
        self.pause()
        bad = False
        if self.fail_counts is not None:
            bad = bool(self.fail_counts[i] >= n)
        elif self.failing is not None and i in self.failing:
            bad = bool(self.failing[i])
        if bad:
            exc = self.make_exception(i)
            self.raised_exc.append((i, exc))
            self.events.append(("raise", i, exc))
            raise exc
        self.finished.append(i)
        self.events.append(("end", i))
        return ("f", i, args, tuple(sorted(kwargs.items())))

    def run(self, *a, **kw):
        self.reset()
        kw.setdefault("registry", None)
        return super().run(*a, **kw)

    def calls(self):
        return [i for i in range(self.n) if self.kinds[i] in "CR"]

    def needed(self, out):
        """The calls the output transitively depends on."""
        s = set(out)
        for i in out:
            s |= self.ancestors(i)
        return sorted(i for i in s if self.kinds[i] in "CR")

    def blocked(self, i):
        """Does a call that i depends on fail? (bool or SymBool; chains of failures included)"""
        return Or(False, *[self.failing[p] for p in sorted(self.ancestors(i)) if p in self.failing])


def plain_world(ctx, kinds, edges, codes, cls=PlainWorld):
    kinds = ctx.choose("kinds", kinds) if isinstance(kinds, (list, tuple)) else kinds
    if edges is None:
        edges = {}
        for j in range(len(kinds)):
            for i in range(j):
                cs = codes if kinds[j] == "C" else sorted({"d" if "d" in c else "" for c in codes})
                c = ctx.choose(f"edge{i}{j}", list(cs)) if len(cs) > 1 else cs[0]
                if c:
                    edges[i, j] = c
        ctx.assume(not world.REDUCE or world.canonical(kinds, edges, same_kind=True))
    return cls(ctx, kinds, edges)


def words(n, alphabet="CL", need="C"):
    return ["".join(k) for k in itertools.product(alphabet, repeat=n) if need in k]


def plain_jobs(harness, tier, sizes=None, shape=None, **params):
    thorough = tier == "thorough"
    out = []
    if sizes is None:
        sizes = [(1, ("",)), (2, ("", "a", "d", "ad")), (3, ("", "a", "d", "ad") if thorough else ("", "a", "d")), (4, ("", "d"))]
    for n, codes in sizes:
        ws = words(n)
        if n >= 4 and not thorough:
            ws = [w for w in ws if w[0] == "C" and w[-1] == "C"]
        for w in ws:
            out.append(Job(f"all-{w}", harness, dict(kinds=w, edges=None, codes=codes, **params)))
    for name, kinds, edges in shapes.PLAIN if shape is None else shape:
        out.append(Job(f"shape-{name}", harness, dict(kinds=kinds, edges=edges, codes=(), **params)))
    return out


# Plans whose calls meet: several threads finish what another one waits for, or are made ready by it.
MEETINGS = [
    ("pair", "CC", {}),
    ("join", "CCC", {(0, 2): "a", (1, 2): "a"}),
    ("fork", "CCC", {(0, 1): "a", (0, 2): "a"}),
    ("join-d", "CCC", {(0, 2): "d", (1, 2): "a"}),
    ("chain-pair", "CCC", {(0, 2): "a"}),
    ("diamond", "CCCC", {(0, 1): "a", (0, 2): "a", (1, 3): "a", (2, 3): "d"}),
    ("ladder", "CCCC", {(0, 2): "a", (1, 2): "a", (0, 3): "d", (1, 3): "a"}),
    ("join3", "CCCC", {(0, 3): "a", (1, 3): "a", (2, 3): "a"}),
    ("flat4", "CCCC", {}),
    ("flat5", "CCCCC", {}),
    ("lit-join", "CCLC", {(0, 2): "d", (1, 2): "d", (2, 3): "a"}),
]


def threaded_jobs(harness, tier, plans=("pair", "join", "fork"), deep=("join",), preempt=1, workers=2, **params):
    """
    preempted: one preemption (thorough: two on the deep ones) at any point; parallel: any order in which calls end (and start)
    """
    thorough = tier == "thorough"
    by_name = {m[0]: m for m in MEETINGS}
    out = []
    for name in plans:
        _, kinds, edges = by_name[name]
        p = dict(kinds=kinds, edges=edges, codes=(), **params)
        for pre in [preempt, 2] if thorough and name in deep else [preempt]:
            b = dict(workers=workers, preemptions=pre, yields=(2 if pre == 1 else 0) if thorough else 0)
            out.append(Job(f"preempted{pre}-{name}", harness, dict(threads=b, **p), path_timeout=60))
        b = dict(workers=workers + thorough, preemptions=0, yields=14 if thorough else 8)
        out.append(Job(f"parallel-{name}", harness, dict(threads=b, **p), path_timeout=60))
    return out


def order(ctx, tier_all=True):
    return ctx.choose("scheduler", ["default", "random", None] if tier_all else ["random", None])
