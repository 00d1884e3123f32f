"""Plain stand-in for the simulator: nothing fails unless FAIL says so; ranks are threads."""
import threading
import time
import types


class Violation(Exception):
    pass


class Sim:
    def __init__(self):
        self.run_seed, self.cfg, self.in_invariant = 1, {}, False
        self.fail = {}             # kind -> index of the call that fails
        self.count = {}
        self.lock = threading.RLock()

    def step(self, what):
        pass

    def probe(self, what):
        pass

    def pick(self, what, n):
        return 0

    def fault(self, kind, p):
        self.count[kind] = self.count.get(kind, 0) + 1
        return self.fail.get(kind) == self.count[kind]

    def wait(self, cond, what):
        end = time.time() + 60
        while not cond():
            if time.time() > end:
                raise TimeoutError(what)
            time.sleep(0.001)


SIM = Sim()


class Task:
    def __init__(self):
        self.sim, self.local, self.no_preempt = SIM, {}, 0
        self.proc = types.SimpleNamespace(name="p")


_tl = threading.local()


def current_task():
    if not hasattr(_tl, "t"):
        _tl.t = Task()
    return _tl.t
