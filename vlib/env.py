"""Environment of harness processes: deterministic hashing, recording of the functions of uberjob that were executed."""
import importlib
import os
import sys

from vlib import REPO

_SRC = os.path.join(os.path.realpath(REPO), "src", "uberjob")
_counter = [0]
_serial = {}
_alive = []


def reset_serials():
    _counter[0] = 0
    _serial.clear()
    _alive.clear()


def deterministic_node_hashes():
    """
    Node objects hash by address; iteration over sets of nodes would differ from one path to the next. In symbolic mode
    the hash is the creation index instead (equality stays identity). Never installed when a counterexample is replayed.
    """
    from uberjob import graph

    def __hash__(self):
        k = id(self)
        s = _serial.get(k)
        if s is None:
            _counter[0] += 1
            _serial[k] = s = _counter[0]
            _alive.append(self)
        return s

    if "__hash__" in graph.Node.__dict__:
        return
    graph.Node.__hash__ = __hash__


def prepare_worker():
    import uberjob  # noqa

    assert os.path.realpath(uberjob.__file__).startswith(_SRC), uberjob.__file__


class FunctionRecorder:
    """Names of the uberjob functions executed (sys.monitoring, each reported once)."""

    TOOL = 3

    def __init__(self):
        self.new = set()
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, "verif")
        m.register_callback(self.TOOL, m.events.PY_START, self._start)
        m.set_events(self.TOOL, m.events.PY_START)

    def _start(self, code, offset):
        f = code.co_filename
        if f.startswith(_SRC):
            self.new.add(f[len(_SRC) + 1 :] + ":" + code.co_qualname)
        return sys.monitoring.DISABLE

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def take(self):
        r, self.new = self.new, set()
        return r
