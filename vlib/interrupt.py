"""KeyboardInterrupt delivered to the main thread at a chosen point of a run, and knowing when threads have come to rest."""
import datetime
import os
import signal
import sys
import threading
import time

# (not SIGINT itself, whose handler z3 replaces)
SIGNAL = signal.SIGUSR1


def _state(native_id):
    try:
        with open(f"/proc/self/task/{native_id}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0]
    except OSError:
        return None  # gone


def _where(thread):
    f = sys._current_frames().get(thread.ident)
    return None if f is None else (id(f), f.f_lasti)


def at_rest(threads, samples=5, pause=0.002, patience=10.0):
    """Until none of the threads makes progress: each one is asleep, at the same place, over several samples (or gone)."""
    end = time.monotonic() + patience
    last, same = None, 0
    me = threading.get_ident()
    while time.monotonic() < end:
        ts = [t for t in threads() if t.ident != me]
        now = tuple((t.ident, _where(t)) for t in ts)
        if now == last and all(_state(t.native_id) in ("S", None) for t in ts if t.native_id):
            same += 1
            if same >= samples:
                return True
        else:
            same = 0
        last = now
        time.sleep(pause)
    return False


class Interrupt:
    """As a context manager around run: installs a signal handler that notes the delivery and raises KeyboardInterrupt."""

    def __init__(self, before):
        self.before = before  # the threads that existed before the run
        self.delivered = False
        self.main = threading.main_thread()

    def __enter__(self):
        assert threading.current_thread() is self.main

        def handler(signum, frame):
            self.delivered = True
            raise KeyboardInterrupt

        self.old = signal.signal(SIGNAL, handler)
        return self

    def __exit__(self, *exc):
        signal.signal(SIGNAL, self.old)

    def threads(self):
        """The main thread and those created since."""
        return [t for t in threading.enumerate() if t is self.main or t not in self.before]

    def others(self):
        return [t for t in threading.enumerate() if t not in self.before and t.name != "controller"]

    def rest(self):
        return at_rest(self.threads)

    def send(self):
        signal.pthread_kill(self.main.ident, SIGNAL)
        end = time.monotonic() + 10
        while not self.delivered and time.monotonic() < end:
            time.sleep(0.0005)


class AtOpcode:
    """
    Raises KeyboardInterrupt in the main thread at the bytecode boundary of uberjob's own code for which chosen(index) is
    true; boundaries are counted from the moment the first thread of the run exists.
    """

    def __init__(self, interrupt, chosen, ready):
        import uberjob

        self.root = os.path.dirname(os.path.abspath(uberjob.__file__)) + os.sep
        self.interrupt = interrupt
        self.chosen = chosen
        self.ready = ready  # called at the chosen boundary: deliver?
        self.index = 0
        self.where = None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event != "opcode" or self.interrupt.delivered or not self.interrupt.others():
            return self._local
        k = self.index
        self.index += 1
        if self.chosen(k):
            sys.settrace(None)
            if self.ready():
                self.where = f"{frame.f_code.co_qualname}:{frame.f_lineno}"
                self.interrupt.delivered = True
                raise KeyboardInterrupt
        return self._local


_warm = False


def warm(again=False):
    """Python 3.12 reports no opcodes for the first frames that ask for them."""
    global _warm
    if _warm and not again:
        return
    _warm = True
    import uberjob

    class Kept(uberjob.ValueStore):
        time = None

        def read(self):
            return 0

        def write(self, value):
            self.time = datetime.datetime(2000, 1, 1)

        def get_modified_time(self):
            return self.time

    plan = uberjob.Plan()
    x = plan.call(int)
    y = plan.call(max, plan.lit(1), plan.call(int, x))
    for _ in range(2):
        registry = uberjob.Registry()
        registry.add(x, Kept())
        registry.add(y, Kept())
        with Interrupt(set(threading.enumerate())) as intr, AtOpcode(intr, lambda k: False, lambda: True):
            uberjob.run(plan, output=x, max_workers=2, progress=None)
            for dry in (True, False, False):
                uberjob.run(plan, output=[y], registry=registry, max_workers=2, progress=None, dry_run=dry)
