"""
Threads under a symbolic schedule.

The real code runs with real threads, but exactly one of them at a time: locks (and with them the conditions, events,
semaphores, queues and joins that the standard library builds on them) are replaced by ones whose waiting is known to this
scheduler, and every access of uberjob's own code to state that threads can share is a point at which another thread may go
on. Which one does is part of the path condition: the positions of the preemptions are integer variables of the solver,
fixed where a branch on them is taken; what threads that become free do next is a symbolic choice. Within the bounds - the
number of preemptions and of choices at yield points - every schedule is a path.
"""
import _thread
import contextlib
import dis
import itertools
import os
import queue
import sys
import threading
import time

from vlib.world import Killed

_allocate = _thread.allocate_lock
_start_new = threading._start_new_thread
LIMIT = 1_000_000


class Lock:
    """A lock whose waiting is known to the scheduler."""

    def __init__(self):
        self.held = False
        self.name = None

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or s.me() is None:
            if self.held:
                if not blocking:
                    return False
                raise Killed("a lock outlives its schedule")
            self.held = True
            return True
        s.point("acquire")
        while self.held:
            if not blocking:
                return False
            if s.wait(self, timeout if timeout is not None and timeout >= 0 else None):
                return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        s = ACTIVE
        if s is not None and s.me() is not None:
            s.point("release")

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self.held = False


def make_lock():
    return Lock()


_replacements = None


def replacements():
    """What the standard library and uberjob know as locks (and as the queue written in C)."""
    global _replacements
    if _replacements is None:
        import _queue

        real = {
            id(threading.Lock): make_lock,
            id(threading._allocate_lock): make_lock,
            id(threading.RLock): threading._PyRLock,
            id(queue.SimpleQueue): queue._PySimpleQueue,
            id(_queue.SimpleQueue): queue._PySimpleQueue,
        }
        names = ("threading", "queue", "_thread", "concurrent.futures.thread", "concurrent.futures._base")
        _replacements = [
            (mod, n, real[id(v)])
            for modname, mod in list(sys.modules.items())
            if modname in names or modname == "uberjob" or modname.startswith("uberjob.")
            for n, v in list(vars(mod).items())
            if id(v) in real and v is not threading._PyRLock and v is not queue._PySimpleQueue
        ]
    return _replacements


class _Thread:
    def __init__(self, number, name):
        self.number = number
        self.name = name
        self.turn = _allocate()
        self.turn.acquire()
        self.lock = None  # what it waits for
        self.timed = False
        self.done = False
        self.stopped = False
        self.since = -1
        self.ident = None
        self.pending = False  # a KeyboardInterrupt has come
        self.joins = False  # waits for a queue to be empty

    def ready(self):
        return not self.done and (self.lock is None or not self.lock.held or self.pending)


ACTIVE = None

# Where the standard library waits and can be interrupted without damage
_WAITS = {
    threading.Condition.wait.__code__,
    threading.Condition.wait_for.__code__,
    threading.Event.wait.__code__,
    queue.Queue.join.__code__,
}


# What of uberjob's code is a scheduling point

_SHARED_OPS = {
    "STORE_ATTR", "DELETE_ATTR", "STORE_GLOBAL", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "CONTAINS_OP", "FOR_ITER", "BINARY_OP",
    "STORE_DEREF",
}  # fmt: skip
# (calls: of methods and of whatever else may change or look at a container)
_CALL_OPS = {"CALL", "CALL_FUNCTION_EX"}


class Points:
    """The offsets of the instructions of uberjob's code that access what may be shared; computed from the code that runs."""

    def __init__(self):
        import uberjob

        self.root = os.path.dirname(os.path.abspath(uberjob.__file__)) + os.sep
        self.written = None
        self.cells = None
        self.cache = {}

    def scan(self):
        attrs, cells = set(), set()
        todo = []
        seen = set()
        for name, mod in list(sys.modules.items()):
            if (name == "uberjob" or name.startswith("uberjob.")) and getattr(mod, "__file__", None):
                try:
                    with open(mod.__file__) as f:
                        todo.append(compile(f.read(), mod.__file__, "exec"))
                except OSError:
                    pass
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            for i in dis.get_instructions(c):
                if i.opname in ("STORE_ATTR", "DELETE_ATTR") and not c.co_name == "__init__":
                    attrs.add(i.argval)
                if i.opname == "STORE_DEREF" and i.argval in c.co_freevars:
                    cells.add(i.argval)
            todo.extend(k for k in c.co_consts if hasattr(k, "co_code"))
        self.written, self.cells = attrs, cells

    def of(self, code):
        r = self.cache.get(code)
        if r is None:
            if self.written is None:
                self.scan()
            r = set()
            for i in dis.get_instructions(code):
                op = i.opname
                if (
                    op in _CALL_OPS
                    or op in _SHARED_OPS and not (op == "STORE_DEREF" and i.argval not in self.cells)
                    or op == "LOAD_ATTR" and i.argval in self.written
                    or op == "LOAD_DEREF" and i.argval in self.cells
                ):
                    r.add(i.offset)
            self.cache[code] = r
        return r


POINTS = None


class Sched:
    """
    preemptions: how often a thread that could go on is stopped at a point of uberjob's code or at a lock
    yields: how many of the points given by the harness (and of the choices among threads that are free) are open; beyond
    that, the thread goes on, or the one that has waited the longest
    timeouts: how often a waiting with a timeout may end before anything else can happen, or at a yield point
    within: only code of these files (suffixes) is preempted
    interrupt: if given, the main thread gets a KeyboardInterrupt at one point, a solver integer, among those where it waits for a
    condition and this function is true of the state; it goes on at once
    """

    def __init__(self, ctx, preemptions=1, yields=6, timeouts=0, within=None, steps=60000, ops=True, name="", interrupt=None):
        self.ctx = ctx
        self.preemptions = preemptions
        self.yields = yields
        self.timeouts = timeouts
        self.within = within
        self.steps = steps
        self.ops = ops
        self.name = name
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.counter = 0
        self.total = 0
        self.used = 0
        self.choices = 0
        self.at = None
        self.error = None
        self.deadlock = None
        self.trail = []
        self.died = []  # exceptions that ended threads
        self.where = []
        self.quiet = 0
        self.most = 0
        self.order = itertools.count()
        self.interrupt = interrupt
        self.interrupted = None  # where
        self.interrupt_at = None
        self.interrupt_counter = 0

    # -- identity
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- points
    def point(self, what, frame=None):
        """Here another thread may go on, at the cost of a preemption."""
        me = self.me()
        if me is None or self.quiet:
            return
        self._alive()
        self._tick()
        if self.interrupt is not None:
            self._interrupt(me, what, frame)
        if self.used >= self.preemptions:
            return
        others = [t for t in self.threads if t is not me and t.ready()]
        if not others:
            return
        self.counter += 1
        if self.at is None:
            self.at = self._guarded(lambda: self.ctx.instant(f"{self.name}preempt{self.used}", LIMIT))
        if self._guarded(lambda: self.at.reached(self.counter)):
            self.at = None
            self.used += 1
            if frame is None:
                frame = sys._getframe(1)
                while frame is not None and not frame.f_code.co_filename.startswith(POINTS.root):
                    frame = frame.f_back
            self.where.append(f"{what}@{frame.f_code.co_qualname}:{frame.f_lineno}" if frame else what)
            to = self._guarded(lambda: self.ctx.choose(f"{self.name}to{self.used}", others))
            # it stays away as long as anything else can go on
            me.stopped = True
            self._switch(me, to)

    def yield_(self, what="yield"):
        """Here another thread may go on at no cost (a bounded number of times)."""
        me = self.me()
        if me is None or self.quiet:
            return
        self._alive()
        self._tick()
        if self.interrupt is not None:
            self._interrupt(me, what)
        if self.choices >= self.yields:
            return
        others = [t for t in self.threads if t is not me and t.ready()]
        late = [t for t in self.threads if t is not me and not t.done and not t.ready() and t.timed] if self.timeouts > 0 else []
        if not others and not late:
            return
        self.choices += 1
        to = self._guarded(lambda: self.ctx.choose(f"{self.name}yield", [me, *others, *late]))
        if to is not me:
            if to in late:
                to.fired = True
                self.timeouts -= 1
            me.since = next(self.order)
            self._switch(me, to)

    def _interrupt(self, me, what, frame=None):
        main = self.threads[0]
        if self.interrupted is not None:
            # as soon as it can, the interrupted thread goes on, unless it is preempted itself
            if me is not main and main.ready() and not main.stopped:
                me.since = next(self.order)
                self._switch(me, main)
            return
        if me is main or not main.joins or main.pending or not main.lock.held:
            return
        if not self._guarded(self.interrupt):
            return
        self.interrupt_counter += 1
        if self.interrupt_at is None:
            self.interrupt_at = self._guarded(lambda: self.ctx.instant(f"{self.name}interrupt", LIMIT))
        if not self._guarded(lambda: self.interrupt_at.reached(self.interrupt_counter)):
            return
        self.interrupted = f"{me.name} at {what}" + (f"@{frame.f_code.co_qualname}:{frame.f_lineno}" if frame else "")
        self.on_interrupt()
        main.pending = True
        me.since = next(self.order)
        self._switch(me, main)

    def on_interrupt(self):
        pass

    def wait(self, lock, timeout):
        """The current thread cannot go on before the lock is free -> did the time run out?"""
        me = self.me()
        self._alive()
        me.lock, me.timed = lock, timeout is not None
        me.fired = False
        me.since = next(self.order)
        if self.interrupt is not None and me.number == 0:
            f = sys._getframe(2)
            codes = []
            while f is not None and not f.f_code.co_filename.startswith(POINTS.root):
                codes.append(f.f_code)
                f = f.f_back
            me.joins = f is not None and codes[:1] == [threading.Condition.wait.__code__] and _WAITS.issuperset(codes)
        self._block(me)
        me.lock, me.timed, me.joins = None, False, False
        if me.pending:
            me.pending = False
            raise KeyboardInterrupt
        return me.fired and lock.held

    def _block(self, me):
        to = self._next(me)
        if to is None:
            self._kill_all()
            raise Killed("deadlock")
        if to is not me:
            self._switch(me, to)

    def _next(self, me):
        """Who goes on when the current thread cannot."""
        self._tick()
        ready = [t for t in self.threads if t.ready()]
        timed = [t for t in self.threads if not t.done and not t.ready() and t.timed]
        options = list(ready)
        if timed and ready and self.timeouts > 0:
            options += timed
        elif not ready:
            options = timed
            self.idle = getattr(self, "idle", 0) + 1
            if self.idle > 200:
                options = []
        if not options:
            if not all(t.done for t in self.threads):
                self.deadlock = self.describe()
            return None
        if len(options) > 1 and self.choices < self.yields:
            self.choices += 1
            to = self._guarded(lambda: self.ctx.choose(f"{self.name}next", options))
        else:
            to = min(options, key=lambda t: (t in timed, t.stopped, t.since, t.number))
        to.stopped = False
        if to in timed:
            to.fired = True
            if ready:
                self.timeouts -= 1
        return to

    def _switch(self, me, to):
        self.current = to
        self.trail.append(to.number)
        to.turn.release()
        me.turn.acquire()
        self._alive()

    def _alive(self):
        if self.error is not None or self.deadlock is not None:
            raise Killed("the path is over")

    def _tick(self):
        self.total += 1
        if self.total > self.steps:
            self.deadlock = "no end after %d steps: %s" % (self.steps, self.describe())
            self._kill_all()
            raise Killed("too long")

    def _guarded(self, f):
        try:
            return f()
        except BaseException as e:
            if self.error is None:
                self.error = e
            self._kill_all()
            raise Killed("the path is over") from None

    def describe(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.done:
                continue
            f = frames.get(t.ident)
            while f is not None and not (POINTS and f.f_code.co_filename.startswith(POINTS.root)):
                f = f.f_back
            where = f"{f.f_code.co_qualname}:{f.f_lineno}" if f else "?"
            out.append(f"{t.name} {'waits' if t.lock is not None else 'is'} at {where}")
        return "; ".join(out)

    # -- threads
    def _start(self, function, args, kwargs={}):
        s = self
        me = self.me()
        if me is None:
            return _start_new(function, args, kwargs)
        t = _Thread(len(self.threads), f"thread {len(self.threads)}")
        self._alive()

        def run():
            t.ident = _thread.get_ident()
            s.by_ident[t.ident] = t
            t.turn.acquire()
            try:
                if s.ops:
                    sys.settrace(s._trace)
                function(*args, **kwargs)
            except Killed:
                pass
            except BaseException as e:
                s.died.append(e)
            finally:
                sys.settrace(None)
                s._finished(t)

        self.threads.append(t)
        if self.ops and sys.gettrace() is None:
            # from the first thread on, this one is traced as well
            sys.settrace(self._trace)
            f = sys._getframe(1)
            while f is not None:
                if f.f_code.co_filename.startswith(POINTS.root):
                    f.f_trace = self._trace(f, "call", None)
                f = f.f_back
        _start_new(run, ())
        while t.ident is None:
            time.sleep(0)
        self.most = max(self.most, sum(not x.done for x in self.threads) - 1)
        return t.ident

    def _finished(self, t):
        t.done = True
        if t.sentinel is not None and t.sentinel.held:
            t.sentinel.held = False
        self.by_ident.pop(t.ident, None)
        if self.error is not None or self.deadlock is not None:
            return
        try:
            to = self._next(t)
        except Killed:
            return
        if to is None:
            self._kill_all()
            return
        self.current = to
        self.trail.append(to.number)
        to.turn.release()

    def _set_sentinel(self):
        lock = Lock()
        t = self.me()
        if t is not None:
            t.sentinel = lock
        return lock

    _Thread.sentinel = None

    def _kill_all(self):
        """Everybody wakes up and finds that the path is over."""
        if self.error is None and self.deadlock is None:
            self.deadlock = "killed"
        me = self.me()
        for t in self.threads:
            if t is not me and not t.done:
                try:
                    t.turn.release()
                except RuntimeError:
                    pass

    # -- tracing
    def _trace(self, frame, event, arg):
        code = frame.f_code
        f = code.co_filename
        if not f.startswith(POINTS.root) or (self.within and not f.endswith(self.within)):
            return None
        offsets = POINTS.of(code)
        if not offsets:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False

        def local(frame, event, arg):
            if event == "opcode" and frame.f_lasti in offsets and (
                self.used < self.preemptions or self.interrupt is not None and self.interrupted is None
            ):
                try:
                    self.point(dis.opname[code.co_code[frame.f_lasti]], frame)
                except BaseException:
                    # what is raised here ends the tracing of this thread; CPython 3.12 crashes where frames of it still want it
                    while frame is not None:
                        frame.f_trace_opcodes = False
                        frame = frame.f_back
                    raise
            return local

        return local

    # -- context
    def __enter__(self):
        global ACTIVE, POINTS
        if POINTS is None:
            POINTS = Points()
        warm()
        forget()
        assert ACTIVE is None
        main = _Thread(0, "main")
        main.ident = _thread.get_ident()
        self.threads.append(main)
        self.by_ident[main.ident] = main
        self.current = main
        self.patched = []

        def patch(obj, name, value):
            self.patched.append((obj, name, getattr(obj, name)))
            setattr(obj, name, value)

        patch(threading, "_start_new_thread", self._start)
        patch(threading, "_set_sentinel", self._set_sentinel)
        patch(threading, "excepthook", lambda a: None if isinstance(a.exc_value, Killed) else self.died.append(a.exc_value))
        for obj, name, value in replacements():
            patch(obj, name, value)
        ACTIVE = self
        assert sys.gettrace() is None
        return self

    def __exit__(self, *exc):
        global ACTIVE
        sys.settrace(None)
        self.leftover = [t for t in self.threads[1:] if not t.done]
        self.left = self.describe() if self.leftover else ""
        if self.leftover:
            if self.error is None and self.deadlock is None:
                self.deadlock_free = True
                self.deadlock = "over"
                self._kill_all()
                for t in self.leftover:
                    end = time.monotonic() + 5
                    while not t.done and time.monotonic() < end:
                        time.sleep(0.0005)
                self.deadlock = None
            else:
                self._kill_all()
                for t in self.leftover:
                    end = time.monotonic() + 5
                    while not t.done and time.monotonic() < end:
                        time.sleep(0.0005)
        ACTIVE = None
        for obj, name, value in reversed(self.patched):
            setattr(obj, name, value)
        if self.error is not None and not (exc and exc[0] is not None and exc[1] is self.error):
            raise self.error
        return False

    def check(self, what="run"):
        """No schedule may end in a deadlock, and no thread may die."""
        self.ctx.check(self.deadlock is None, f"{what} does not terminate: {self.deadlock}")
        self.ctx.check(not self.died, f"{what}: a thread died: {self.died[:1]!r}")

    def describe_schedule(self):
        return {"preempted": self.where, "threads": "".join(map(str, self.trail))[:200], "points": self.counter}


_warm = False


def forget():
    """What uberjob keeps from one run to the next begins anew: paths must not depend on those before them."""
    for name, mod in list(sys.modules.items()):
        if name == "uberjob" or name.startswith("uberjob."):
            for v in list(vars(mod).values()):
                clear = getattr(v, "cache_clear", None)
                if clear is not None and not isinstance(v, type):
                    clear()


def warm():
    from vlib import interrupt

    interrupt.warm()
