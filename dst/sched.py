"""Caller threads under a seeded scheduler.

Each simulated caller is a real thread, but exactly one runs at a time: a trace hook on every line
of repository code is a scheduling point at which the baton can be passed to another caller, chosen
from the schedule stream, and at which a failure (chosen from the fault stream) can be raised.
"""
import sys
import threading

from dst.core import HarnessError
from dst.env import in_repo

BURSTS = (10 ** 9, 1, 1, 2, 3, 5, 8, 13, 25, 60, 150, 400)


class InjectedFault(Exception):
    """A failure with a type of its own, so that nothing can mistake it for a real one."""


def make_fault(kind):
    if kind == "MemoryError":
        return MemoryError("injected")
    if kind == "KeyboardInterrupt":
        return KeyboardInterrupt("injected")
    if kind == "OSError":
        return OSError(12, "injected")
    return InjectedFault("injected")


FAULT_KINDS = ("MemoryError", "KeyboardInterrupt", "OSError", "InjectedFault")


def pick_line(stream, where):
    """1-based index into the executed lines `where`: every source line is as likely as any other, loops or not."""
    if not where:
        return 1
    if stream.chance(50):        # some line of some function, however short
        code = stream.pick(list(dict.fromkeys(p[0] for p in where)))
        place = stream.pick(list(dict.fromkeys(p for p in where if p[0] is code)))
    else:
        place = stream.pick(list(dict.fromkeys(where)))
    times = [i for i, p in enumerate(where) if p == place]
    return 1 + times[stream.below(len(times))]


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.result = None
        self.error = None
        self.done = False
        self.lines = 0
        self.fault_at = None     # line count at which to raise
        self.fault_kind = None
        self.faulted = False
        self.where = None        # the lines this task executes when nobody interferes
        self.go = threading.Semaphore(0)
        self.thread = None


class Scheduler:
    """Runs tasks to completion; every interleaving decision comes from sim.s."""

    def __init__(self, sim, max_lines=400000):
        self.sim = sim
        self.tasks = []
        self.current = None
        self.budget = 0
        self.total = 0
        self.max_lines = max_lines
        self.back = threading.Semaphore(0)
        self.switches = 0
        self.abort = None
        self.whole_calls = False  # a caller stopped at some line waits until another one has made all its calls

    def add(self, name, fn, fault=None):
        """fault: None or (line count, kind)."""
        t = Task(name, fn)
        if fault:
            t.fault_at, t.fault_kind = fault
        self.tasks.append(t)
        return t

    # -- inside the task threads ---------------------------------------------------------------
    def _trace(self, frame, event, arg):
        if event == "call" and in_repo(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self._point(frame)
        return self._local

    def _point(self, frame):
        t = self.current
        t.lines += 1
        self.total += 1
        if self.abort is not None:
            raise SystemExit
        if self.total > self.max_lines:
            self.abort = "step budget exceeded"
            raise SystemExit
        if t.fault_at is not None and t.lines >= t.fault_at and not t.faulted:
            t.faulted = True
            self.sim.fault("raise:" + t.fault_kind)
            self.sim.log("fault", t.name, t.fault_kind, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
            raise make_fault(t.fault_kind)
        self.budget -= 1
        if self.budget < 0:
            self._switch(t)

    def _runnable(self):
        return [x for x in self.tasks if not x.done]

    def _choose(self, me):
        """Next task and the length of its burst."""
        run = self._runnable()
        if not run:
            return None
        # put the current task first, so that a zero draw means "carry on"
        if me in run:
            run.remove(me)
            run.insert(0, me)
        if self.whole_calls and len(run) > 1 and all(x.where for x in run):
            nxt = run[1 + self.sim.s.below(len(run) - 1)] if me is not None and me is run[0] else self.sim.s.pick(run)
            if me is not None and me is run[0] and self.sim.s.chance(60):
                self.budget = 10 ** 9
            else:
                at = pick_line(self.sim.s, nxt.where) + len(nxt.where) * (nxt.lines // len(nxt.where))
                self.budget = at - nxt.lines if at > nxt.lines else 10 ** 9
            self.sim.schedule_event(nxt.name, self.budget)
            return nxt
        nxt = self.sim.s.pick(run)
        self.budget = self.sim.s.pick(BURSTS) if len(run) > 1 else 10 ** 9
        if len(run) > 1 and nxt.where and self.sim.s.chance(40):
            at = pick_line(self.sim.s, nxt.where) + len(nxt.where) * (nxt.lines // len(nxt.where))
            if at > nxt.lines:
                self.budget = at - nxt.lines
        self.sim.schedule_event(nxt.name, self.budget)
        return nxt

    def _switch(self, me):
        nxt = self._choose(me)
        if nxt is not me:
            self.switches += 1
            self.current = nxt
            nxt.go.release()
            me.go.acquire()

    def _body(self, t):
        t.go.acquire()
        try:
            sys.settrace(self._trace)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            t.error = e
        t.done = True
        nxt = self._choose(t)
        if nxt is None:
            self.back.release()
        else:
            self.current = nxt
            nxt.go.release()

    # -- outside -------------------------------------------------------------------------------
    def run(self):
        if not self.tasks:
            return
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        first = self._choose(None)
        self.current = first
        first.go.release()
        if not self.back.acquire(timeout=120):
            raise HarnessError("simulated callers are blocked outside the simulator")
        for t in self.tasks:
            t.thread.join(10)
        if self.abort:
            self.sim.fail("no-progress", self.abort)
        self.sim.probe("thread switches", self.switches)


class LineFault:
    """Runs fn in the calling thread, raising at its k-th repository line."""

    def __init__(self, sim):
        self.sim = sim
        self.lines = 0

    def count(self, fn):
        return self._run(fn, None, None)

    def run(self, fn, at, kind):
        """Raises at the at-th executed line or (seeded) when the at-th line not executed before is reached."""
        new = self.sim.f.chance(60)
        return self._run(fn, 1 + (at - 1) % 40 if new else at, kind, new)

    def run_at(self, fn, at, kind):
        return self._run(fn, at, kind)

    def _run(self, fn, at, kind, new=False):
        self.lines = 0
        self.fired = False
        self.where = []
        seen = set()

        def trace(frame, event, arg):
            if event == "call" and in_repo(frame.f_code.co_filename):
                return local
            return None

        def local(frame, event, arg):
            if event == "line":
                here = (frame.f_code, frame.f_lineno)
                if not new or here not in seen:
                    self.lines += 1
                    seen.add(here)
                if at is None:
                    self.where.append(here)
                elif self.lines >= at and not self.fired:
                    self.fired = True
                    self.sim.fault("raise:" + kind)
                    self.sim.log("fault", kind, frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
                    raise make_fault(kind)
            return local

        old = sys.gettrace()
        sys.settrace(trace)
        try:
            return fn()
        finally:
            sys.settrace(old)
