"""Seeded scheduler: simulated processes and threads, virtual time, decisions.

A *task* is a real Python thread parked on a baton: exactly one runs at any
time and only `Sim` chooses which. A *process* groups tasks with a private
environment, descriptor table, pid and random stream; killing it makes each of
its tasks raise `SimKilled` at its next (and every later) simulator operation,
so nothing it does after the kill has an effect.

Every nondeterministic choice is one integer drawn by `Sim.decide`; value 0
always means "the boring option" (keep running the same task, no fault). The
sparse map {decision index: value} of the non-zero ones, with the scenario's
configuration, is a replay file; minimisation zeroes entries.
"""

from __future__ import annotations

import _thread
import gc
import hashlib
import random
import sys

_get_ident = _thread.get_ident
_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread


class SimKilled(BaseException):
    """Raised inside a task whose process was killed (not an Exception)."""


class SimAbort(BaseException):
    """Raised inside every parked task when the run is torn down."""


class Violation(BaseException):
    """The property is broken. `klass` names the oracle that fired."""

    def __init__(self, klass, msg):
        super().__init__(f"{klass}: {msg}")
        self.klass = klass
        self.msg = msg


class HarnessError(Exception):
    """The simulator cannot represent what the code did."""


CURRENT: "Sim | None" = None


def current_task():
    s = CURRENT
    if s is None:
        return None
    return s.by_ident.get(_get_ident())


class Proc:
    def __init__(self, sim, name, env=None):
        self.sim = sim
        self.name = name
        self.pid = 4000 + 7 * len(sim.procs)
        self.env = dict(env or {})
        self.dead = False
        self.fds = {}
        self.next_fd = 100000
        self.tasks = []
        self.rng = random.Random(f"{sim.run_seed}/{name}/{len(sim.procs)}")
        self.attrs = {}
        self.on_exit = []
        sim.procs.append(self)

    def kill(self):
        if self.dead:
            return
        self.dead = True
        for t in self.tasks:
            if not t.done:
                t.wait_pred = None
                t.wake_at = None
        self.release_os()

    def release_os(self):
        for cb in self.on_exit:
            cb(self)
        self.on_exit = []


class Task:
    def __init__(self, sim, proc, name, fn):
        self.sim, self.proc, self.name, self.fn = sim, proc, name, fn
        self.tid = len(sim.tasks)
        self.baton = _real_allocate()
        self.baton.acquire()
        self.done = False
        self.started = False
        self.wait_pred = None
        self.wake_at = None
        self.result = None
        self.exc = None
        self.what = "start"
        self.local = {}
        self.no_preempt = 0
        self.prio = 0.0
        sim.tasks.append(self)
        proc.tasks.append(self)

    def runnable(self):
        if self.done:
            return False
        if self.proc.dead:
            return True
        if self.wait_pred is None and self.wake_at is None:
            return True
        if self.wait_pred is not None and self.wait_pred():
            return True
        if self.wake_at is not None and self.wake_at <= self.sim.now:
            return True
        return False


class Sim:
    def __init__(self, run_seed, cfg=None, trace=None, keep_log=False,
                 max_steps=200000):
        self.run_seed = run_seed
        self.cfg = cfg or {}
        self.rng = random.Random(f"sched/{run_seed}")
        self.trace = trace            # replay: {index: value}
        self.choices = {}             # recorded non-zero decisions
        self.n_dec = 0
        self.now = 1_700_000_000.0    # monotonic simulated seconds
        self.wall_skew = 0.0
        self.t0 = self.now
        self.procs, self.tasks = [], []
        self.by_ident = {}
        self.steps = 0
        self.max_steps = max_steps
        self.keep_log = keep_log
        self.log_lines = []
        self.hash = hashlib.blake2b(digest_size=16)
        self.shash = hashlib.blake2b(digest_size=16)   # schedule only
        self.fault_counts = {}
        self.probe_counts = {}
        self.faults_on = True
        self.failure = None
        self.main_baton = _real_allocate()
        self.main_baton.acquire()
        self.last = None
        self.aborting = False
        self.switches = 0
        self.p_switch = self.cfg.get("p_switch", 0.2)
        self.policy = self.cfg.get("policy", "random")
        self.trace_codes = None       # file names whose lines are yield points
        self.invariants = []
        self.in_invariant = False
        self.on_step = []
        self.globals = None           # process-wide interpreter state, see ProcGlobals
        self.cur_proc = None

    # ------------------------------------------------------------ decisions
    def decide(self, kind, n, rand):
        """One recorded choice in range(n); `rand()` supplies it when exploring."""
        i = self.n_dec
        self.n_dec += 1
        if self.trace is not None:
            v = self.trace.get(i, 0)
            if v >= n:
                v = n - 1
        else:
            v = rand()
        if v:
            self.choices[i] = v
        return v

    def chance(self, kind, p):
        return self.decide(kind, 2, lambda: 1 if self.rng.random() < p else 0) == 1

    def pick(self, kind, n):
        return self.decide(kind, n, lambda: self.rng.randrange(n))

    def fault(self, kind, p):
        """Ask whether fault `kind` fires here; counted when it does."""
        if not self.faults_on or p <= 0:
            return False
        if self.chance("fault:" + kind, p):
            self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
            self.log(f"FAULT {kind}")
            return True
        return False

    def count_fault(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        self.log(f"FAULT {kind}")

    def probe(self, name):
        self.probe_counts[name] = self.probe_counts.get(name, 0) + 1

    # ------------------------------------------------------------------ log
    def log(self, msg):
        t = self.by_ident.get(_get_ident())
        line = f"{self.steps} t={self.now - self.t0:.6f} {t.name if t else '-'}: {msg}"
        self.hash.update(line.encode())
        if self.keep_log:
            self.log_lines.append(line)

    def wall(self):
        return self.now + self.wall_skew

    # ---------------------------------------------------------------- tasks
    def proc(self, name, env=None):
        return Proc(self, name, env)

    def spawn(self, proc, name, fn):
        t = Task(self, proc, name, fn)
        t.prio = self.rng.random()
        return t

    def _body(self, task):
        task.baton.acquire()
        self.by_ident[_get_ident()] = task
        try:
            if self.aborting:
                return
            if task.proc.dead:
                return
            if self.trace_codes:
                sys.settrace(self._tracer)
            task.result = task.fn()
        except (SimKilled, SimAbort):
            pass
        except Violation as v:
            if self.failure is None:
                self.failure = v
        except BaseException as e:      # a task body reports its own errors
            task.exc = e
            if self.failure is None:
                import traceback
                self.failure = HarnessError(
                    "task %s died: %s" % (task.name, "".join(
                        traceback.format_exception(type(e), e, e.__traceback__))))
        finally:
            sys.settrace(None)
            task.done = True
            task.fn = None
            self.by_ident.pop(_get_ident(), None)
            if not self.aborting:
                self.log_from(task, "exit")
                nxt = self._choose(None) if self.failure is None else None
                if nxt is None:
                    self.main_baton.release()
                else:
                    self._wake(nxt)
            else:
                self.main_baton.release()

    def log_from(self, task, msg):
        line = f"{self.steps} {task.name} {msg}"
        self.hash.update(line.encode())
        if self.keep_log:
            self.log_lines.append(line)

    def _tracer(self, frame, event, arg):
        if frame.f_code.co_filename in self.trace_codes:
            if self.cfg.get("opcodes"):
                frame.f_trace_opcodes = True
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event in ("line", "opcode"):
            t = self.by_ident.get(_get_ident())
            if t is not None and not t.no_preempt and not self.in_invariant:
                self.step(f"L{frame.f_lineno}")
        return self._line

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.runnable()]

    def _choose(self, cur):
        """The next task to run; advances virtual time when all wait."""
        while True:
            r = self._runnable()
            if r:
                break
            wakes = [t.wake_at for t in self.tasks
                     if not t.done and t.wake_at is not None]
            if not wakes:
                if all(t.done for t in self.tasks):
                    return None
                if self.failure is None:
                    self.failure = Violation("deadlock", "no task can run: " + ", ".join(
                        f"{t.name}@{t.what}" for t in self.tasks if not t.done))
                return None
            self.now = max(self.now, min(wakes))
        if cur is not None and cur in r:
            if len(r) == 1:
                return cur
            others = [t for t in r if t is not cur]
            p = self.p_switch
            if self.policy == "prio":
                def rand():
                    if self.rng.random() < p:
                        cur.prio = self.rng.random() - 1.0
                    best = max(r, key=lambda t: (t.prio, -t.tid))
                    return 0 if best is cur else 1 + others.index(best)
            else:
                def rand():
                    if self.rng.random() >= p:
                        return 0
                    return 1 + self.rng.randrange(len(others))
            v = self.decide("sched", len(r), rand)
            nxt = cur if v == 0 else others[v - 1]
        else:
            if len(r) == 1:
                return r[0]
            if self.policy == "prio":
                def rand():
                    return r.index(max(r, key=lambda t: (t.prio, -t.tid)))
            else:
                def rand():
                    return self.rng.randrange(len(r))
            nxt = r[self.decide("sched", len(r), rand)]
        return nxt

    def _wake(self, t):
        self.switches += 1
        if self.globals is not None and t.proc is not self.cur_proc:
            self.globals.switch(self.cur_proc, t.proc)
            self.cur_proc = t.proc
        self.shash.update(f"{t.tid}:{t.what};".encode())
        if not t.started:
            t.started = True
            _real_start(self._body, (t,))
        t.baton.release()

    def step(self, what, wait_pred=None, wake_at=None):
        """A yield point of the running task. May block until `wait_pred()`."""
        task = self.by_ident[_get_ident()]
        if self.aborting:
            raise SimAbort()
        if task.proc.dead:
            raise SimKilled()
        self.steps += 1
        task.what = what
        self.log(what)
        if self.invariants:
            self.in_invariant = True
            try:
                for inv in self.invariants:
                    inv()
            except Violation as v:
                if self.failure is None:
                    self.failure = v
            finally:
                self.in_invariant = False
        for cb in self.on_step:
            cb(task, what)
        if self.failure is None and self.steps > self.max_steps:
            self.failure = Violation("no-progress", f"step budget {self.max_steps} used up: "
                                     + ", ".join(f"{t.name}@{t.what}" for t in self.tasks if not t.done))
        if self.failure is not None:
            self.main_baton.release()
            task.baton.acquire()
            raise SimAbort()
        task.wait_pred, task.wake_at = wait_pred, wake_at
        nxt = self._choose(task)
        if nxt is None:
            self.main_baton.release()
            task.baton.acquire()
        elif nxt is not task:
            self._wake(nxt)
            task.baton.acquire()
        if self.aborting:
            raise SimAbort()
        task.wait_pred = task.wake_at = None
        if task.proc.dead:
            raise SimKilled()

    def sleep(self, dt, what="sleep"):
        self.step(what, wake_at=self.now + max(dt, 0.0), wait_pred=lambda: False)

    def wait(self, pred, what, timeout=None):
        """Blocks until pred() or the timeout; returns pred()'s final value."""
        end = None if timeout is None else self.now + timeout
        self.step(what)
        while not pred():
            if end is not None and self.now >= end:
                return False
            self.step(what, wait_pred=pred, wake_at=end)
        return True

    # ------------------------------------------------------------------ run
    def run(self):
        """Runs every spawned task to completion. Raises the Violation found."""
        global CURRENT
        prev, CURRENT = CURRENT, self
        gc.disable()        # no finaliser may run at a moment we do not choose
        try:
            nxt = self._choose(None)
            if nxt is not None:
                self._wake(nxt)
                self.main_baton.acquire()
        finally:
            self._abort_rest()
            if self.globals is not None:
                self.globals.switch(self.cur_proc, None)
            CURRENT = prev
            gc.enable()
        if self.failure is not None:
            raise self.failure

    def _abort_rest(self):
        self.aborting = True
        for t in self.tasks:
            if not t.done and t.started:
                for _ in range(1000):
                    t.baton.release()
                    self.main_baton.acquire()
                    if t.done:
                        break
            t.done = True

    def digest(self):
        return self.hash.hexdigest()


class ProcGlobals:
    """Interpreter state each simulated process has of its own.

    `slots` maps a name to (get, set, make): make() gives the value a fresh
    process starts with. The real interpreter's values come back at the end.
    """

    def __init__(self, slots):
        self.slots = slots
        self.outer = {k: g() for k, (g, s, m) in slots.items()}

    def switch(self, old, new):
        if old is not None:
            old.attrs["_globals"] = {k: g() for k, (g, s, m) in self.slots.items()}
        vals = self.outer if new is None else new.attrs.get("_globals")
        if vals is None:
            vals = {k: m() for k, (g, s, m) in self.slots.items()}
        for k, (g, s, m) in self.slots.items():
            s(vals[k])


def _quiet(args):
    # A killed process's generators are finalised after it is gone: whatever
    # they raise has no meaning.
    return None


sys.unraisablehook = _quiet
