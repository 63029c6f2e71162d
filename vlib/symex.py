"""
Path-wise symbolic execution of real Python code.

Harnesses are functions h(ctx, **params). They obtain inputs from ctx (ctx.bool / ctx.int / ctx.real / ctx.choose),
run the real code on them, and state the property with ctx.check. In symbolic mode inputs are proxies; each time the code
under test (or Python on its behalf) needs the truth value of a proxy expression, `Path.branch` asks z3 which sides are
feasible under the path condition and forks. In concrete mode (replay) the same harness runs on plain values.
"""
import fractions
import random
import threading
import time
import zlib

import z3

z3.set_param("smt.random_seed", 0)


class PathAbort(BaseException):
    """Raised in harness code only: the path condition became infeasible (an assumption does not hold)."""


class Violation(BaseException):
    """Raised in harness code when a check failed (the path needs no further work)."""


class HarnessError(Exception):
    """The harness itself (not the code under test) could not go on: nothing is concluded from such a path."""

    def __init__(self, *args):
        super().__init__(*args)
        if CURRENT is not None:
            CURRENT.inconclusive.append(str(self))


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.checks = 0
        self.sym_checks = 0
        self.solver_s = 0.0
        self.unknown = 0

    def as_dict(self):
        return dict(self.__dict__)

    def add(self, other):
        for k, v in other.items():
            setattr(self, k, getattr(self, k, 0) + v)


CURRENT = None  # the Path being executed in this process


def _z(x):
    """Python / proxy value -> z3 expression."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        return z3.RealVal(str(fractions.Fraction(x)))
    if isinstance(x, z3.ExprRef):
        return x
    raise TypeError(f"no z3 value for {x!r}")


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return CURRENT.marker(self.e) if CURRENT is not None else f"<sym {self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return CURRENT.branch(self.e)

    def __and__(self, other):
        return And(self, other)

    __rand__ = __and__

    def __or__(self, other):
        return Or(self, other)

    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, other):
        if not isinstance(other, (bool, SymBool)):
            return NotImplemented
        return mkbool(self.e == _z(other))

    def __ne__(self, other):
        return Not(self == other)

    def __hash__(self):
        return 0

    def __index__(self):
        return int(bool(self))

    __int__ = __index__


def Not(a):
    if isinstance(a, bool):
        return not a
    return mkbool(z3.Not(_z(a)))


def And(*xs):
    if len(xs) == 1 and not isinstance(xs[0], (bool, Sym, z3.ExprRef)):
        xs = tuple(xs[0])
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(_z(x))
    if not out:
        return True
    return mkbool(z3.And(*out) if len(out) > 1 else out[0])


def Or(*xs):
    if len(xs) == 1 and not isinstance(xs[0], (bool, Sym, z3.ExprRef)):
        xs = tuple(xs[0])
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(_z(x))
    if not out:
        return False
    return mkbool(z3.Or(*out) if len(out) > 1 else out[0])


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return mkbool(_z(a) == _z(b))


def Ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    za, zb = _z(a), _z(b)
    r = z3.If(_z(c), za, zb)
    return mkbool(r) if z3.is_bool(r) else SymNum(r)


class SymNum(Sym):
    """A mathematical integer or real (Python ints and the reals of the harness clock)."""

    __slots__ = ()

    def _bin(self, other, f):
        if isinstance(other, (bool, int, float, fractions.Fraction, SymNum)):
            if isinstance(other, bool):
                other = int(other)
            return SymNum(f(self.e, _z(other)))
        return NotImplemented

    def _cmp(self, other, f):
        if isinstance(other, (bool, int, float, fractions.Fraction, SymNum)):
            if isinstance(other, bool):
                other = int(other)
            if isinstance(other, float) and other in (float("inf"), float("-inf")):
                return f(0, 1 if other > 0 else -1)
            # The simplified form may depend on the history of the z3 context: only constants are taken from it.
            r = f(self.e, _z(other))
            c = z3.simplify(r)
            return mkbool(c if z3.is_true(c) or z3.is_false(c) else r)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if is_sym(o):
            if bool(o == 0):
                raise ZeroDivisionError("division by zero")
        elif o == 0:
            raise ZeroDivisionError("division by zero")
        return self._bin(o, lambda a, b: _toreal(a) / _toreal(b))

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError("division by zero")
        return self._bin(o, lambda a, b: _toreal(b) / _toreal(a))

    def __floordiv__(self, o):
        if is_sym(o) or o <= 0:
            raise HarnessError("only // by a positive constant is modelled")
        if self.e.is_int():
            return SymNum(self.e / z3.IntVal(o))
        return SymNum(z3.ToInt(self.e / _z(o)))

    def __mod__(self, o):
        if is_sym(o) or o <= 0:
            raise HarnessError("only % by a positive constant is modelled")
        return self - (self // o) * o

    def __divmod__(self, o):
        return self // o, self % o

    def __floor__(self):
        return self.floor()

    def __trunc__(self):
        return sym_int(self)

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e < 0, -self.e, self.e))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        """Needed as a real int: fork over its values (bounded by its declared range)."""
        if not self.e.is_int():
            raise HarnessError("index of a real")
        return CURRENT.concretize(self)

    def __int__(self):
        if self.e.is_int():
            return CURRENT.concretize(self)
        return CURRENT.concretize(SymNum(z3.ToInt(self.e)))

    def floor(self):
        return self if self.e.is_int() else SymNum(z3.ToInt(self.e))

    def __float__(self):
        raise HarnessError("float() of a symbolic number is not modelled")

    def __round__(self, n=None):
        raise HarnessError("round() of a symbolic number is not modelled")


def _toreal(a):
    return z3.ToReal(a) if z3.is_int(a) else a


def sym_int(x=0, *args):
    """Replacement for int() in modules whose numbers are symbolic: keeps the value symbolic."""
    if isinstance(x, SymNum):
        if x.e.is_int():
            return x
        # Python truncates toward zero.
        e = x.e
        return SymNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    return int(x, *args)


class Path:
    """One symbolic path. `prefix` is the list of decisions to repeat before exploring."""

    concrete = False

    def __init__(self, prefix, stats, timeout_ms=60000):
        self.prefix = prefix
        self.stats = stats
        self.decisions = []
        self.pending = []
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        self.model = None
        self.vars = {}
        self.known = {}
        self._keep = []
        self.structural = {}
        self.markers = {}
        self.lock = threading.RLock()
        self.violations = []
        self.notes = []
        self.started = time.time()
        self.names = {}
        self.inconclusive = []
        self.aborted = False
        self.instants = {}  # those not reached so far -> the last position asked about
        self.log = {}
        self.tags = {}

    def tag(self, name, n=1):
        """Counts something that was covered (witnesses against vacuity)."""
        self.tags[name] = self.tags.get(name, 0) + n

    def sample(self):
        return {"assignment": self.assignment(), "log": self.log}

    # -- declarations ---------------------------------------------------
    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _declare(self, name, const, *constraints):
        self.vars[name] = const
        for c in constraints:
            self.solver.add(c)
            if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)
            ):
                self.model = None

    def bool(self, name):
        with self.lock:
            name = self._name(name)
            c = z3.Bool(name)
            self._declare(name, c)
            return SymBool(c)

    def int(self, name, lo=None, hi=None):
        with self.lock:
            name = self._name(name)
            c = z3.Int(name)
            cs = []
            if lo is not None:
                cs.append(c >= lo)
            if hi is not None:
                cs.append(c <= hi)
            self._declare(name, c, *cs)
            return SymNum(c)

    def real(self, name, lo=None, hi=None):
        with self.lock:
            name = self._name(name)
            c = z3.Real(name)
            cs = []
            if lo is not None:
                cs.append(c >= lo)
            if hi is not None:
                cs.append(c <= hi)
            self._declare(name, c, *cs)
            return SymNum(c)

    def choose(self, name, options):
        """A symbolic finite choice, decided here (all options are feasible: the variable is fresh)."""
        options = options if isinstance(options, (list, tuple)) else list(range(options))
        with self.lock:
            name = self._name(name)
            n = len(options)
            if n == 0:
                raise HarnessError("empty choice")
            if n == 1:
                self.structural[name] = 0
                return options[0]
            i = len(self.decisions)
            sig = zlib.crc32(name.encode()) & 0xFFFFF
            if i < len(self.prefix):
                d = self._prefixed(i, sig)
            else:
                d = 0
                self.stats.forks += n - 1
                base = tuple(self.decisions)
                for k in range(n - 1, 0, -1):
                    self.pending.append(base + ((sig, k),))
            self.decisions.append((sig, d))
            self.structural[name] = d
            return options[d]

    def instant(self, name, hi):
        """A symbolic position in an increasing sequence of positions (1..hi), to be asked about by reached()."""
        with self.lock:
            name = self._name(name)
            c = z3.Int(name)
            self._declare(name, c, c >= 1, c <= hi)
            return Instant(self, c)

    def _prefixed(self, i, sig):
        want, d = self.prefix[i]
        if want != sig:
            raise HarnessError("nondeterministic execution: decision prefix does not match")
        return d

    # -- solver -----------------------------------------------------------
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            self.inconclusive.append("solver answered unknown")
        return r

    def _get_model(self):
        if self.aborted:  # handlers of the code under test are still running
            raise PathAbort()
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise HarnessError("path condition became unsatisfiable")
            else:
                raise HarnessError("path condition: solver answered unknown")
        return self.model

    def branch(self, e):
        with self.lock:
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            key = e.get_id()
            hit = self.known.get(key)
            if hit is not None:
                return hit
            i = len(self.decisions)
            self.stats.branches += 1
            sig = e.hash() & 0xFFFFF
            if i < len(self.prefix):
                d = bool(self._prefixed(i, sig))
                self._commit(e, d, sig, keep_model=False)
                return d
            m = self._get_model()
            d = z3.is_true(m.eval(e, model_completion=True))
            other = z3.Not(e) if d else e
            r = self._check(other)
            if r != z3.unsat:
                self.stats.forks += 1
                self.pending.append(tuple(self.decisions) + ((sig, int(not d)),))
                self._commit(e, d, sig, keep_model=True)
            else:
                # Implied: no decision is recorded.
                self.known[key] = d
                self._keep.append(e)
                # keep decision lists aligned between runs: record implied ones too
                self.decisions.append((sig, int(d)))
            return d

    def _commit(self, e, d, sig, keep_model):
        self.solver.add(e if d else z3.Not(e))
        self.known[e.get_id()] = d
        self._keep.append(e)
        self.decisions.append((sig, int(d)))
        if not keep_model:
            self.model = None

    def concretize(self, s):
        """Fork over all values of an integer expression."""
        while True:
            with self.lock:
                i = len(self.decisions)
                sig = s.e.hash() & 0xFFFFF
                if i < len(self.prefix):
                    d = self._prefixed(i, sig)
                    v, eq = d >> 1, d & 1
                    self.decisions.append((sig, d))
                    self.solver.add(s.e == v if eq else s.e != v)
                    self.model = None
                    if eq:
                        return v
                    continue
                m = self._get_model()
                v = m.eval(s.e, model_completion=True).as_long()
                if self._check(s.e != v) != z3.unsat:
                    self.stats.forks += 1
                    self.pending.append(tuple(self.decisions) + ((sig, v << 1),))
                self.decisions.append((sig, (v << 1) | 1))
                self.solver.add(s.e == v)
                return v

    def feasible(self, cond):
        if isinstance(cond, bool):
            return cond
        return self._check(_z(cond)) == z3.sat

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self.aborted = True
                raise PathAbort()
            return
        e = _z(cond)
        self.solver.add(e)
        if self.model is not None and not z3.is_true(
            self.model.eval(e, model_completion=True)
        ):
            self.model = None
        if self.model is None and len(self.decisions) >= len(self.prefix):
            if self._check() == z3.unsat:
                self.aborted = True
                raise PathAbort()

    def marker(self, e):
        k = e.get_id()
        if k not in self.markers:
            self.markers[k] = (len(self.markers), e)
        return f"~{self.markers[k][0]}~"

    def marker_value(self, text):
        """The symbolic number a rendered marker stands for."""
        n = int(text.strip("~~"))
        for i, e in self.markers.values():
            if i == n:
                return SymNum(e)
        raise HarnessError(f"unknown marker {text}")

    # -- property ----------------------------------------------------------
    def check(self, cond, msg, key=None):
        """Assert the property. Decided for every value on this path by the solver."""
        self.stats.checks += 1
        if isinstance(cond, SymBool):
            self.stats.sym_checks += 1
            r = self._check(z3.Not(cond.e))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self.inconclusive.append(f"check {msg!r}: unknown")
                return
            model = self.solver.model()
        elif cond:
            return
        else:
            model = None
        self._violate(msg, key, model)

    def fail(self, msg, key=None):
        self.stats.checks += 1
        self._violate(msg, key, None)

    def _violate(self, msg, key, model):
        if self.aborted:
            raise PathAbort()
        if not self.inconclusive:
            self.violations.append(
                {"msg": msg, "key": key, "assignment": self.assignment(model)}
            )
        raise Violation(msg)

    def assignment(self, model=None):
        if model is None:
            try:
                model = self._get_model()
            except HarnessError:
                return {"vars": {}, "choices": dict(self.structural), "broken": True}
        vals = {}
        for name, c in self.vars.items():
            v = model.eval(c, model_completion=True)
            if z3.is_bool(c):
                vals[name] = z3.is_true(v)
            elif z3.is_int(c):
                vals[name] = v.as_long()
            else:
                vals[name] = str(fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()))
        for instant, last in self.instants.items():
            name = str(instant.const)
            vals[name] = max(vals[name], last + 1)
        return {"vars": vals, "choices": dict(self.structural)}

    def note(self, key, value):
        self.log[key] = value


class Instant:
    """
    reached(k), for increasing k: is the position k? Both answers are possible until it was, as nothing else constrains the
    variable; that it is none of the positions asked about is kept as a bound.
    """

    def __init__(self, path, const):
        self.path = path
        self.const = const

    def reached(self, k):
        p = self.path
        with p.lock:
            i = len(p.decisions)
            if i < len(p.prefix):
                d = bool(p._prefixed(i, 0x1D57))
            else:
                d = False
                p.stats.forks += 1
                p.pending.append(tuple(p.decisions) + ((0x1D57, 1),))
            p.stats.branches += 1
            p.decisions.append((0x1D57, int(d)))
            if d:
                p.solver.add(self.const == k)
                p.instants.pop(self, None)
                p.model = None
            else:
                p.instants[self] = k
            return d


class ConcreteInstant:
    def __init__(self, value):
        self.value = value

    def reached(self, k):
        return self.value == k


class ConcretePath:
    """Replay of a counterexample: same interface, plain values, no proxies."""

    concrete = True

    def __init__(self, assignment):
        self.a = assignment
        self.names = {}
        self.violations = []
        self.checks = 0
        self.missing = []
        self.log = {}

    def tag(self, name, n=1):
        pass

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}#{n}"

    def _val(self, name, default):
        vs = self.a["vars"]
        if name not in vs:
            self.missing.append(name)
            return default
        return vs[name]

    def bool(self, name):
        return bool(self._val(self._name(name), False))

    def int(self, name, lo=None, hi=None):
        v = int(self._val(self._name(name), lo if lo is not None else 0))
        return v

    def real(self, name, lo=None, hi=None):
        return fractions.Fraction(self._val(self._name(name), lo if lo is not None else 0))

    def instant(self, name, hi):
        return ConcreteInstant(int(self._val(self._name(name), hi)))

    def choose(self, name, options):
        options = options if isinstance(options, (list, tuple)) else list(range(options))
        name = self._name(name)
        d = self.a["choices"].get(name)
        if d is None:
            self.missing.append(name)
            d = 0
        return options[d if d < len(options) else 0]

    def feasible(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, msg, key=None):
        self.checks += 1
        if not cond:
            self.violations.append({"msg": msg, "key": key})
            raise Violation(msg)

    def fail(self, msg, key=None):
        self.check(False, msg, key)

    def note(self, key, value):
        self.log[key] = value


def run_path(harness, params, prefix, stats):
    """Run one symbolic path; returns the Path."""
    global CURRENT
    from vlib import env

    env.reset_serials()
    random.seed(1)
    p = Path(prefix, stats)
    CURRENT = p
    try:
        harness(p, **params)
    except PathAbort:
        stats.aborted += 1
    except Violation:
        pass
    except HarnessError as e:
        if not p.inconclusive:
            p.inconclusive.append(str(e))
    finally:
        CURRENT = None
    stats.paths += 1
    return p


class TaskCtx:
    """Context of a task job (one whole analysis instead of one path)."""

    concrete = False

    def __init__(self, stats):
        self.stats = stats
        self.violations = []
        self.inconclusive = []
        self.pending = []
        self.tags = {}
        self.log = {}

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def violation(self, msg, key=None, **data):
        self.violations.append({"msg": msg, "key": key, "assignment": data})

    def note(self, key, value):
        self.log[key] = value

    def sample(self):
        return {"log": self.log}


def run_task(job, stats):
    p = TaskCtx(stats)
    job.fn(p, **job.params)
    stats.paths += 1
    return p
