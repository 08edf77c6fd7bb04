"""Scheduler and interruption seam.

Tasks are real threads, but only the task that holds the baton runs: every line (or, on
request, every bytecode) of magnopy that a task is about to execute is a yield point, and
the plan - a list of (position, task) pairs computed from the seed - decides at which of
them the baton moves.  Positions are counted over all tasks together, so one plan is one
interleaving.  The same trace function delivers an interruption (an exception raised at
the k-th yield point of an operation).
"""

import _thread
import os
import sys
import threading

SRC = os.environ.get("VERIF_SRC", "/repo/src") + "/magnopy/"


class Interrupted(KeyboardInterrupt):
    """The simulated Ctrl-C."""


class NoMemory(MemoryError):
    """The simulated failed allocation."""


EXC = {"interrupt": Interrupted, "memory": NoMemory}


class Tracer:
    """Calls ``hook`` before every line (bytecode) of magnopy."""

    def __init__(self, hook, opcodes=False):
        self.hook = hook
        self.opcodes = opcodes

    def glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.hook(frame)
        return self.local


def count_steps(fn, opcodes=False):
    """Run ``fn`` alone; return (result, exception, number of yield points)."""
    n = [0]

    def hook(frame):
        n[0] += 1

    tr = Tracer(hook, opcodes)
    old = sys.gettrace()
    sys.settrace(tr.glob)
    try:
        try:
            r, e = fn(), None
        except BaseException as exc:
            r, e = None, exc
    finally:
        sys.settrace(old)
    return r, e, n[0]


def run_interrupted(fn, position, kind, opcodes=False, handlers=True):
    """Run ``fn``, raise the interruption at its ``position``-th yield point.

    Without ``handlers`` it waits until no exception is being handled: CPython leaks the
    frames when a trace function raises at the line of an ``except``.

    Returns (delivered, where, result, exception).
    """
    n = [0]
    state = {"delivered": False, "where": None}
    exc_type = EXC[kind]

    def hook(frame):
        if state["delivered"]:
            return
        n[0] += 1
        if n[0] >= position and (handlers or sys.exception() is None):
            state["delivered"] = True
            state["where"] = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
            raise exc_type("injected")

    tr = Tracer(hook, opcodes)
    old = sys.gettrace()
    sys.settrace(tr.glob)
    try:
        try:
            r, e = fn(), None
        except BaseException as exc:
            r, e = None, exc
    finally:
        sys.settrace(old)
    return state["delivered"], state["where"], r, e


def _held_below():
    """Whether this thread holds the global lock of h5py (its callbacks run under it)."""
    m = sys.modules.get("h5py._objects")
    return m is not None and m.phil._is_owned()


class Result:
    def __init__(self):
        self.value = None
        self.exc = None


class Deadlock(RuntimeError):
    pass


CURRENT = None  # the running Simulation, if any
_allocate = _thread.allocate_lock


class SimLock:
    """Lock that hands the baton over instead of blocking the only running thread."""

    def __init__(self):
        self._inner = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        if self._inner.acquire(False):
            return True
        if not blocking:
            return False
        sim = CURRENT
        if sim is None or sim.me() is None:
            return self._inner.acquire(True, timeout)
        waits = 0
        while not self._inner.acquire(False):
            waits += 1
            sim.blocked(waits)
        return True

    def release(self):
        self._inner.release()

    def locked(self):
        return self._inner.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Locks are not shared between a process and its copies
    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    __reduce__ = __deepcopy__


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        ident = _thread.get_ident()
        if self._owner == ident:
            self._depth += 1
            return True
        ok = super().acquire(blocking, timeout)
        if ok:
            self._owner, self._depth = ident, 1
        return ok

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            super().release()

    def __enter__(self):
        self.acquire()
        return self

    def _is_owned(self):
        return self._owner == _thread.get_ident()


def install_locks():
    """Locks created from now on (by magnopy) belong to the scheduler."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Simulation:
    """Runs the tasks under the plan.

    ``switches``: list of (position, task) - when the global step counter reaches
    ``position``, the baton moves to ``task`` (if it is still alive).  When a task ends
    (or waits for a lock) the baton moves to the next living one.
    """

    def __init__(self, fns, switches, opcodes=False, limit=5_000_000):
        self.fns = fns
        self.n = len(fns)
        self.results = [Result() for _ in fns]
        self.alive = [True] * self.n
        self.gates = [_allocate() for _ in fns]
        for g in self.gates:
            g.acquire()
        self.done = _allocate()
        self.done.acquire()
        self.step = 0
        self.limit = limit
        self.opcodes = opcodes
        self.plan = sorted((int(p), int(t)) for p, t in switches)
        self.pos = 0
        self.trace = []
        self.idents = {}

    def me(self):
        return self.idents.get(_thread.get_ident())

    def move(self, me, to, where):
        self.trace.append((self.step, me, to, where))
        self.gates[to].release()

    def next_alive(self, me):
        for d in range(1, self.n):
            t = (me + d) % self.n
            if self.alive[t]:
                return t
        return None

    def blocked(self, waits):
        me = self.me()
        to = self.next_alive(me)
        if to is None or waits > 10_000:
            raise Deadlock("simulation: every task waits")
        self.move(me, to, "wait")
        self.gates[me].acquire()

    def hook(self, me):
        def hook(frame):
            self.step += 1
            if self.step > self.limit:
                raise RuntimeError("simulation: step limit")
            target = None
            if _held_below():
                return  # a callback of h5py: switching here would stop on the lock of h5py
            while self.pos < len(self.plan) and self.plan[self.pos][0] <= self.step:
                target = self.plan[self.pos][1] % self.n
                self.pos += 1
            if target is not None and target != me and self.alive[target]:
                self.move(me, target, frame.f_code.co_name)
                self.gates[me].acquire()

        return hook

    def body(self, me):
        self.idents[_thread.get_ident()] = me
        self.gates[me].acquire()
        tr = Tracer(self.hook(me), self.opcodes)
        sys.settrace(tr.glob)
        try:
            self.results[me].value = self.fns[me]()
        except BaseException as exc:
            self.results[me].exc = exc
        finally:
            sys.settrace(None)
            self.alive[me] = False
            to = self.next_alive(me)
            if to is None:
                self.done.release()
            else:
                self.move(me, to, "end")

    def run(self):
        global CURRENT
        CURRENT = self
        try:
            for i in range(self.n):
                _thread.start_new_thread(self.body, (i,))
            self.gates[0].release()
            self.done.acquire()
        finally:
            CURRENT = None
        return self.results, self.trace


def run_tasks(fns, switches, opcodes=False):
    return Simulation(fns, switches, opcodes).run()
