"""
Real worker threads under the control of the harness: every call blocks at a gate until a controller lets it go on, and the
controller decides - symbolically - which of the waiting calls finishes next. What the controller waits for is a number of
calls at their gates, which is known from the plan; it never depends on timing.
"""
import threading
import time

PATIENCE = 15.0


class Gates:
    def __init__(self):
        self.cv = threading.Condition()
        self.waiting = []  # calls at their gates, in the order of arrival
        self.released = set()
        self.over = False
        self.error = None
        self.interrupted = False

    def enter(self, i):
        with self.cv:
            self.waiting.append(i)
            self.cv.notify_all()
            self.cv.wait_for(lambda: i in self.released or self.over, 60)
            self.waiting.remove(i)
            self.released.discard(i)

    def await_waiting(self, n):
        """Until n calls wait at their gates -> those calls (sorted)."""
        with self.cv:
            ok = self.cv.wait_for(lambda: len(self.waiting) >= n or self.over, PATIENCE)
            return sorted(self.waiting), ok and len(self.waiting) >= n

    def release(self, i):
        with self.cv:
            self.released.add(i)
            self.cv.notify_all()

    def open(self):
        with self.cv:
            self.over = True
            self.cv.notify_all()

    def during(self, run, script):
        """run() in this thread, script() in a controller thread."""

        def control():
            try:
                script()
            except BaseException as e:  # re-raised below
                self.error = e
            finally:
                self.open()

        t = threading.Thread(target=control, name="controller")
        t.start()
        try:
            return run()
        finally:
            self.open()
            t.join()
            if self.error is not None:
                raise self.error


def eventually(condition, patience=3.0):
    """What has to become true without anything else happening."""
    end = time.monotonic() + patience
    while not condition():
        if time.monotonic() > end:
            return False
        time.sleep(0.0005)
    return True
