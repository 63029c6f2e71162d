import collections
import enum

import uberjob
from uberjob import CallError
from uberjob.graph import Node
from vlib import shapes
from vlib.plain import SCHEDULE_TEXT, SHAPE_TEXT, plain_jobs, plain_world, threaded_jobs
from vlib.run import Job
from vlib.symex import And, Not, Or
from vlib.world import attempt, symbolic_random

LEVEL = "other"
EXPLANATION = (
    "Plans are built and run symbolically: argument and output structures (nesting, container types, positions of nodes, "
    "literals and opaque objects), argument counts and names, the processing order, and the equality between the values that "
    "meet as dict keys and set members are symbolic. What every call receives and what run returns is compared with an "
    "independent evaluator: same shape and exact types, node-free arguments by identity, keyword names and order, dict and set "
    "collapse decided by the solver."
)
ASSUMPTIONS = [SCHEDULE_TEXT]
WITNESSES = ("collapse", "identity", "kwargs", "unpack", "unpack-error", "output", "opaque", "unhashable")


def BOUNDS(tier):
    return {
        "structures": "depth up to 3, at most 2-3 elements per level (positions of up to 3 nodes)",
        "wide structures": "4 or 12 elements (thorough: up to 25), elements and pieces of several kinds, shared pieces",
        "arguments": "up to 12 positional and 4 keyword arguments, the same node any number of times",
        "plans": SHAPE_TEXT,
    }


class Val:
    """A value whose equality with others is symbolic."""

    def __init__(self, ctx, name):
        self.name = name
        self.n = ctx.int(f"class_{name}", 0, 3)

    def __eq__(self, other):
        return self.n == other.n if isinstance(other, Val) else False

    def __ne__(self, other):
        return Not(self == other)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"<{self.name}>"


class Weird:
    """Has no truth value, no equality, no hash and no length."""

    def _no(self, *a):
        raise RuntimeError("do not ask")

    __bool__ = __eq__ = __ne__ = __len__ = __iter__ = __getitem__ = __contains__ = __call__ = __copy__ = __deepcopy__ = __reduce_ex__ = _no
    __hash__ = None

    def __repr__(self):
        return "<weird>"


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


Point = collections.namedtuple("Point", "x y")


class Color(enum.Enum):
    RED = 1


def same(a, b):
    """a is what is wanted. Same shape, exact types, leaves by identity; sets and dicts as Python's equality has it."""
    if a is b:
        return True
    t = type(a)
    if t is not type(b):
        return False
    if t in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if t is dict:
        return len(a) == len(b) and all(same(k, q) and same(x, y) for (k, x), (q, y) in zip(a.items(), b.items()))
    if t is set:
        return len(a) == len(b) and all(any(bool(x == y) for y in b) for x in a)
    return False


class Evaluator:
    """Straightforward evaluation."""

    def __init__(self, values):
        self.values = values  # [(node, value)]

    def has_node(self, s):
        if isinstance(s, Node):
            return True
        if type(s) in (list, tuple, set):
            return any(self.has_node(x) for x in s)
        if type(s) is dict:
            return any(self.has_node(k) or self.has_node(v) for k, v in s.items())
        return False

    def __call__(self, s):
        if isinstance(s, Node):
            return next(v for n, v in self.values if n is s)
        if not self.has_node(s):
            return s
        t = type(s)
        if t is dict:
            out = {}
            for k, v in s.items():
                k, v = self(k), self(v)
                out[k] = v
            return out
        return t([self(x) for x in s])


def structure(ctx, name, leaves, depth, width=2, containers=(list, tuple, set, dict)):
    k = ctx.choose(f"{name}:t", ["leaf", *containers] if depth else ["leaf"])
    if k == "leaf":
        return ctx.choose(f"{name}:v", leaves)
    few = leaves[:3] if depth > 1 else leaves
    n = ctx.choose(f"{name}:n", list(range(width + 1)))
    if k is dict:
        out = {}
        for i in range(n):
            key = structure(ctx, f"{name}k{i}", [x for x in few if hashable(x)], 0)
            out[key] = structure(ctx, f"{name}v{i}", few, depth - 1, 1)
        return out
    items = [structure(ctx, f"{name}{i}", [x for x in few if k is not set or hashable(x)], 0 if k is set else depth - 1, 1) for i in range(n)]
    return k(items)


def hashable(x):
    try:
        hash(x)
        return True
    except Exception:
        return False


def run(ctx, plan, spec, scheduler=None, **kw):
    kw.update(max_workers=1, progress=None)
    if scheduler == "random":
        with symbolic_random(ctx):
            return attempt(uberjob.run, plan, output=spec, scheduler="random", **kw)
    return attempt(uberjob.run, plan, output=spec, **kw)


def args(ctx, depth, where):
    """One structure as positional argument, keyword argument or output."""
    plan = uberjob.Plan()
    vals = [Val(ctx, f"v{i}") for i in range(2)]
    nodes = [plan.call(lambda v=v: v) for v in vals]
    vals.append([])
    nodes.append(plan.call(lambda: vals[2]))
    lit = plan.lit(Val(ctx, "l"))
    opaque = object()
    leaves = [nodes[0], nodes[1], opaque, lit, MyList([nodes[0]]), Weird(), None, nodes[2]]
    if depth > 2:
        leaves = leaves[:3]
    s = structure(ctx, "s", leaves, depth)
    ev = Evaluator([(nodes[0], vals[0]), (nodes[1], vals[1]), (nodes[2], vals[2]), (lit, lit.value)])
    want = attempt(ev, s)
    got = []
    if where == "output":
        spec = s
        ctx.tag("output")
    elif where == "positional":
        spec = plan.call(lambda *a, **k: got.append((a, k)), s)
    else:
        spec = plan.call(lambda *a, **k: got.append((a, k)), x=s)
    r = run(ctx, plan, spec, ctx.choose("scheduler", [None, "random"]) if depth < 2 else None)
    ctx.note("structure", repr(s)[:300])
    if not want.ok:
        ctx.check(not r.ok, f"direct evaluation raises {want.exc!r}, run returned")
        ctx.tag("unhashable")
        return
    ctx.check(r.ok, f"run raised {r!r}, direct evaluation of {s!r} gives {want.value!r}")
    if where == "output":
        value = r.value
        if s is None:
            ctx.check(value is None, f"run without output returned {value!r}")
            return
    else:
        ctx.check(len(got) == 1, f"the call was executed {len(got)} times")
        a, k = got[0]
        ctx.check((len(a), list(k)) == ((1, []) if where == "positional" else (0, ["x"])), f"arguments {a!r} {k!r}")
        value = a[0] if a else k["x"]
    ctx.check(same(want.value, value), f"{where}: {s!r} arrived as {value!r} instead of {want.value!r}")
    if not ev.has_node(s):
        ctx.check(value is s, f"{s!r} contains no node but did not arrive as the object supplied")
        ctx.tag("identity")
    if isinstance(s, (set, dict)) and len(want.value) < len(s):
        ctx.tag("collapse")
    if type(s) is MyList:
        ctx.tag("opaque")


def wide(ctx, n):
    """Structures of many elements, with the same object in several places and many temporary pieces."""
    plan = uberjob.Plan()
    vals = [object() for _ in range(3)]
    nodes = [plan.call(lambda v=v: v) for v in vals]
    mixed = [*nodes, 5, "x"]
    step = ctx.choose("step", [1, 2, 3])

    def leaf(i, nodes_only=False):
        return mixed[i * step % (3 if nodes_only else 5)]

    shared = ctx.choose("shared", [None, [nodes[0]], (nodes[1], [nodes[2], 1]), [5], {1: nodes[0]}])
    kind = ctx.choose("kind", ["dict", "dict-keys", "list", "tuple", "set", "pairs", "lists", "dicts", "mixed"])
    every = range(n)
    s = {
        "dict": lambda: {f"k{i}": leaf(i) for i in every},
        "dict-keys": lambda: {(i, leaf(i)): i for i in every},
        "list": lambda: [leaf(i) for i in every],
        "tuple": lambda: tuple(leaf(i) for i in every),
        "set": lambda: {(i, leaf(i)) for i in every},
        "pairs": lambda: [(f"k{i}", leaf(i)) for i in every],
        "lists": lambda: [[leaf(i), [leaf(i + 1)]] for i in every],
        "dicts": lambda: [{leaf(i): leaf(i + 1, True)} for i in every],
        "mixed": lambda: [[leaf(i)] if i % 3 == 0 else (leaf(i),) if i % 3 == 1 else {"k": leaf(i)} for i in every],
    }[kind]()
    if shared is not None:
        if kind.startswith("dict") and kind != "dicts":
            s["first"] = s["last"] = shared
        elif kind in ("list", "pairs", "lists", "dicts", "mixed"):
            s.insert(0, shared)
            s.append(shared)
            s.append(s[1])
        elif kind == "tuple":
            s = (shared, *s, shared)
    ev = Evaluator(list(zip(nodes, vals)))
    want = ev(s)
    got = []
    spec = s if ctx.choose("where", ["output", "arguments"]) == "output" else plan.call(lambda *a, **k: got.append((a, k)), s, shared, s, x=s, y=shared)
    r = run(ctx, plan, spec)
    ctx.check(r.ok, f"{r!r}")
    if spec is s:
        ctx.check(same(want, r.value), f"output {s!r} arrived as {r.value!r}")
        return
    ctx.check(len(got) == 1, f"{len(got)} calls")
    a, k = got[0]
    w = ev(shared)
    ctx.check(len(a) == 3 and list(k) == ["x", "y"], f"arguments {a!r} {k!r}")
    ctx.check(all(same(want, x) for x in (a[0], a[2], k["x"])), f"{s!r} arrived as {a!r} {k!r}")
    ctx.check(same(w, a[1]) and same(w, k["y"]), f"{shared!r} arrived as {a!r} {k!r}")


NAMES = ["b", "a", "self", "fn", "args", "kwargs", "name", "index", "stack_frame", "plan", "value", "scope", "cls", "_", "lambda", "retry"]


def signature(ctx, n):
    """Numbers and order of arguments, the same node in several places."""
    plan = uberjob.Plan()
    vals = [object() for _ in range(3)]
    nodes = [plan.call(lambda v=v: v) for v in vals]
    mixed = [nodes[0], nodes[1], 5]
    pos = [ctx.choose(f"p{i}", mixed if i < 4 else [mixed[i * 7 % 3]]) for i in range(n)]
    names = ctx.choose("names", [(), ("b", "a"), ("a", "b"), *[(x,) for x in NAMES], tuple(NAMES), tuple(reversed(NAMES))])
    kws = {k: ctx.choose(f"kw{i}", mixed if i < 2 else [mixed[i % 3]]) for i, k in enumerate(names)}
    got = []
    node = plan.call(lambda *a, **k: got.append((a, k)), *pos, **kws)
    other = plan.call(lambda *a, **k: got.append((a, k)), *reversed(pos), **kws)
    r = run(ctx, plan, (node, other))
    ctx.check(r.ok, f"{r!r}")
    ev = Evaluator(list(zip(nodes, vals)))
    wants = [[ev(x) for x in p] for p in (pos, pos[::-1])]
    ctx.check(len(got) == 2, f"{len(got)} calls")
    found = [all(x is y for x, y in zip(w, a)) and len(w) == len(a) for w in wants for a, k in got]
    ctx.check((found[0] and found[3]) or (found[1] and found[2]), f"positional arguments {wants!r} arrived as {[g[0] for g in got]!r}")
    for a, k in got:
        ctx.check(list(k) == list(kws) and all(k[x] is ev(kws[x]) for x in kws), f"keyword arguments {kws!r} arrived as {k!r}")
    if names:
        ctx.tag("kwargs")


def results(ctx):
    """Values of all kinds go through calls unchanged."""
    plan = uberjob.Plan()
    other = uberjob.Plan()
    value = ctx.choose(
        "value",
        [None, False, 0, "", (), [], {}, Weird(), NotImplemented, ValueError("x"), ValueError, Exception, other.lit(1), other.call(len, ()),
         [other.lit(1)], {"n": other.lit(2)}, (uberjob._util.Slot(3) if hasattr(uberjob._util, "Slot") else object()), object(), iter([1]), (x for x in ()), Color.RED, Point(1, 2), MyTuple((1,)), print],
    )  # fmt: skip
    how = ctx.choose("how", ["call", "lit", "arg", "kwarg", "default"])
    got = []

    def consume(*a, **k):
        got.extend(a)
        got.extend(k.values())
        return value

    if how == "lit":
        if isinstance(value, Node):
            return
        node = plan.lit(value)
    else:
        node = plan.call(lambda: value)
    if how == "kwarg":
        node = plan.call(consume, x=node)
    elif how == "arg":
        node = plan.call(consume, node)
    elif how == "default":
        plan.add_dependency(plan.call(consume), node)
    r = run(ctx, plan, node, retry=ctx.choose("retry", [None, 2]))
    ctx.check(r.ok and r.value is value, f"{how}: {value!r} came back as {r!r}" if type(value) is not Weird else f"{how}: weird value")
    ctx.check(all(g is value for g in got), f"{how}: a call received something else")
    box = run(ctx, plan, [node, {"k": (node,)}])
    ctx.check(box.ok and type(box.value) is list and box.value[0] is value and box.value[1]["k"][0] is value, f"{how}: in a structure")


def callables(ctx):
    """Functions of all kinds receive their arguments."""
    import functools
    import operator

    plan = uberjob.Plan()
    a, b = object(), [1]
    na, nb = plan.call(lambda: a), plan.call(lambda: b)

    class Class:
        def __init__(self, *args, **kwargs):
            self.got = args, kwargs

        def method(self, *args, **kwargs):
            return args, kwargs

        @classmethod
        def cm(cls, *args, **kwargs):
            return args, kwargs

        @staticmethod
        def sm(*args, **kwargs):
            return args, kwargs

        def __call__(self, *args, **kwargs):
            return args, kwargs

    def both(*args, **kwargs):
        return args, kwargs

    obj = Class()
    what = ctx.choose("what", ["class", "method", "cm", "sm", "obj", "partial", "posonly", "kwonly", "default", "builtin", "getitem", "wrapped"])
    fn = {
        "class": Class, "method": obj.method, "cm": Class.cm, "sm": Class.sm, "obj": obj, "partial": functools.partial(both, 1, z=2),
        "posonly": lambda x, y, /: ((x, y), {}), "kwonly": lambda *, x, y: ((), {"x": x, "y": y}), "default": lambda x, y=a, *r, **k: ((x, y, *r), k),
        "builtin": dict, "getitem": operator.itemgetter(0), "wrapped": functools.wraps(both)(lambda *p, **k: both(*p, **k)),
    }[what]  # fmt: skip
    if what in ("posonly",):
        node, want = plan.call(fn, na, nb), ((a, b), {})
    elif what == "kwonly":
        node, want = plan.call(fn, y=nb, x=na), ((), {"x": a, "y": b})
    elif what == "builtin":
        node, want = plan.call(fn, x=na, y=nb), {"x": a, "y": b}
    elif what == "getitem":
        node, want = plan.call(fn, [na, nb]), a
    else:
        node, want = plan.call(fn, na, nb, nb, x=na) if what != "default" else plan.call(fn, na, nb, nb, q=na), ((a, b, b), {"x": a})
        if what == "default":
            want = ((a, b, b), {"q": a})
    r = run(ctx, plan, node)
    ctx.check(r.ok, f"{what}: {r!r}")
    v = r.value
    if what == "class":
        v = v.got
    if what == "partial":
        ctx.check(v[0][0] == 1 and v[0][1] is a and v[0][2] is b and list(v[1]) == ["z", "x"], f"{what}: {v!r}")
        return
    ctx.check(same(want, v), f"{what}: received {v!r} instead of {want!r}")


def unpack(ctx):
    """unpack yields exactly n items of any iterable, and fails on any other number."""
    plan = uberjob.Plan()
    n = ctx.choose("n", [0, 1, 2, 3, 11])
    m = ctx.choose("m", [0, 1, 2, 3, 4, 11, 12])
    items = [object() for _ in range(m)]
    kind = ctx.choose("kind", ["list", "tuple", "iter", "gen", "dict", "infinite"])
    taken = []

    def gen():
        for x in items:
            taken.append(x)
            yield x
        while kind == "infinite":
            taken.append(None)
            yield None

    make = {"list": lambda: items, "tuple": lambda: tuple(items), "iter": lambda: iter(items), "gen": gen, "dict": lambda: dict.fromkeys(items), "infinite": gen}[kind]
    if kind == "infinite" and m < 4:
        return
    node = plan.call(make) if ctx.choose("lit", [False, True]) or kind not in ("list", "tuple") else plan.lit(make())
    parts = plan.unpack(node, n)
    ctx.check(type(parts) is tuple and len(parts) == n, f"unpack into {n} gave {parts!r}")
    used = ctx.choose("used", ["all", "reversed", "last"])
    spec = list(parts) if used == "all" else list(parts)[::-1] if used == "reversed" else list(parts)[-1:]
    if not spec:
        spec = [plan.call(tuple)]
        r = run(ctx, plan, spec)
        ctx.check(r.ok and r.value == [()], f"{r!r}")
        return
    r = run(ctx, plan, spec, ctx.choose("scheduler", [None, "random"]) if n < 3 else None)
    if m != n or kind == "infinite":
        ctx.check(not r.ok and isinstance(r.exc.__cause__, ValueError), f"unpack of {m} items into {n}: {r!r}")
        ctx.tag("unpack-error")
        return
    want = items if used == "all" else items[::-1] if used == "reversed" else items[-1:]
    ctx.check(r.ok and len(r.value) == len(want) and all(x is y for x, y in zip(want, r.value)), f"unpack of {kind}: {r!r}")
    ctx.tag("unpack")


def graphs(ctx, kinds, edges, codes, threads=None):
    """Whole plans, every processing order: the value of every output is the one of direct evaluation."""
    w = plain_world(ctx, kinds, edges, codes)
    if threads:
        w.threads(**threads)
    spec, want, out = w.output(few=threads or len(kinds) > 4)
    r = w.run(spec, "default" if threads else ctx.choose("scheduler", ["random", "default"]))
    ctx.note("world", w.describe())
    ctx.check(r.ok and r.value == want, f"run: {r!r}, direct evaluation: {want!r}")
    for e in w.events:
        if e[0] == "call":
            i = e[1]
            term = w.expected(i)
            ctx.check(("f", i, e[2], tuple(sorted(e[3].items()))) == term, f"call {i} received {e[2:]!r}, direct evaluation: {term!r}")
    if threads:
        return
    again = w.run(spec)
    ctx.check(again.ok and again.value == want, f"a second run: {again!r}")


def jobs(tier):
    thorough = tier == "thorough"
    out = []
    for where in ("output", "positional", "keyword"):
        out.append(Job(f"args-{where}-1", args, dict(depth=1, where=where)))
        out.append(Job(f"args-{where}-2", args, dict(depth=2, where=where)))
    if thorough:
        out.append(Job("args-output-3", args, dict(depth=3, where="output")))
    for n in (0, 1, 2, 3, 4, 12):
        out.append(Job(f"signature-{n}", signature, dict(n=n)))
    out += [Job(f"wide-{n}", wide, dict(n=n)) for n in ((4, 12) if not thorough else (4, 5, 7, 8, 12, 25))]
    out += [Job("results", results), Job("callables", callables), Job("unpack", unpack)]
    small = [s for s in shapes.PLAIN if len(s[1]) <= (6 if thorough else 5)]
    out += plain_jobs(graphs, tier, sizes=[(1, ("",)), (2, ("", "a", "d", "ad", "ka", "g")), (3, ("", "a", "ad", "kg") if thorough else ("", "a", "g"))], shape=small)
    out += threaded_jobs(graphs, tier, ("pair", "join", "fork", "ladder") + ("diamond", "join3") * thorough)
    return out
