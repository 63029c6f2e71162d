"""Shared by the checks on runs with stores: quantification over shapes, states, outputs and faults."""
import itertools

from vlib import shapes, symdt
from vlib.run import Job
from vlib.world import RANGE, TIMED, World, choose_edges


def make_world(ctx, kinds, codes, edges, cls=World, **kw):
    kinds = ctx.choose("kinds", kinds) if isinstance(kinds, (list, tuple)) else kinds
    edges = edges if edges is not None else choose_edges(ctx, kinds, codes)
    w = cls(ctx, kinds, edges, **kw)
    return w if w.sensible() else None


def fresh_time(ctx, w, allowed):
    """-> (number or None, datetime or None)"""
    if not allowed or not ctx.choose("has_fresh", [False, True]):
        return None, None
    f = ctx.int("fresh", 0, RANGE)
    return f, symdt.instant(ctx, f)


def kind_lists(n, alphabet):
    return ["".join(k) for k in itertools.product(alphabet, repeat=n) if any(c in TIMED for c in k)]


def store_jobs(harness, sizes, codes=("", "a", "d"), stored=None, **params):
    """sizes: {n: alphabet}"""
    out = []
    for n, alphabet in sizes.items():
        out.append(
            Job(f"all-{n}-{alphabet}", harness, dict(kinds=kind_lists(n, alphabet), codes=codes, edges=None, **params))
        )
    for name, kinds, edges in shapes.STORED if stored is None else stored:
        out.append(Job(f"shape-{name}", harness, dict(kinds=kinds, codes=(), edges=edges, **params)))
    return out


def stored(tier, order=False):
    """The fixed shapes explored with faults (order: also with a symbolic processing order)."""
    if tier == "thorough":
        return [s for s in shapes.STORED if not (order and "hub" in s[0])]
    if order:
        names = ("chain-RLRC-d", "diamond-C", "dsource", "dep-through-call", "mid-unneeded", "parallel-R", "dsource-dep", "dsource-three")
        return [s for s in shapes.STORED if s[0] in names]
    return [s for s in shapes.STORED if "hub" not in s[0]]


MEETINGS = [
    ("join-R", "RRC", {(0, 2): "a", (1, 2): "d"}),
    ("fork-R", "SRR", {(0, 1): "a", (0, 2): "a"}),
    ("pair-R", "RR", {}),
    ("chain-R", "RRC", {(0, 1): "a", (1, 2): "a"}),
    ("dsource-R", "RCDC", {(0, 1): "a", (1, 2): "d", (2, 3): "a"}),
    ("pair-S", "SSC", {(0, 2): "a", (1, 2): "a"}),
]


def threaded_store_jobs(harness, tier, names=("join-R", "fork-R"), preempt=True, **params):
    """
    Two workers under a symbolic schedule. preempted: stores without values, one preemption at any point; parallel: symbolic
    stores, other threads may go on while calls and operations of stores execute.
    """
    thorough = tier == "thorough"
    by_name = {m[0]: m for m in MEETINGS}
    out = []
    for name in names:
        _, kinds, edges = by_name[name]
        p = dict(kinds=kinds, edges=edges, codes=(), **params)
        if preempt:
            b = dict(workers=2, preemptions=1, yields=1 if thorough else 0)
            out.append(Job(f"preempted-{name}", harness, dict(threads=b, **p), path_timeout=60))
        b = dict(workers=2, preemptions=0, yields=7 if thorough else 4)
        out.append(Job(f"parallel-{name}", harness, dict(threads=b, **p), path_timeout=60))
    return out


def with_threads(w, threads):
    """Makes the runs of w ones of several threads; with preemptions, from empty stores."""
    if not threads:
        return
    w.threads(**threads)
    if threads["preemptions"]:
        for i, s in w.stores.items():
            s.present = w.kinds[i] == "S" or (w.kinds[i] == "D" and i not in w.producers)


BOUNDS_TEXT = (
    "all plans up to the listed number of nodes over the listed kinds (C call, R stored call, S source, D dependent source, "
    "L literal, M stored literal) with edges none/positional/plain dependency, plus the fixed larger shapes of "
    "vlib/shapes.py (up to 6 nodes, parallel edges, keyword edges, structures, literal hubs)"
)
