"""A joblib backend inside the simulator: workers, their kind, partition, order and failures are seeded.

`with active(sim, n_workers, kind):` makes every joblib.Parallel in the block dispatch to simulated
workers.  kind "thread": tasks share memory and interleave at every line of repository code; kind
"process": every task works on a cloudpickled copy of its arguments (optionally read-only, as memory
mapped arguments are) and its result is pickled back; tasks finish in a seeded order.
Failures from the fault stream: an exception at a seeded line of a task, a worker that disappears.
"""
import contextlib
import pickle

import joblib
import numpy as np
from joblib.parallel import ParallelBackendBase, register_parallel_backend

from dst.core import HarnessError
from dst.sched import LineFault, Scheduler, make_fault

_current = None


class Plan:
    """What happens to the tasks of the next parallel sections."""

    def __init__(self, sim, n_workers, kind, faults=(), noise=None, readonly=False, coarse=False,
                 numbered="mizarlabs"):
        self.sim, self.n_workers, self.kind = sim, n_workers, kind
        self.faults = dict(faults)      # task number -> (line, kind) or ("lost",)
        self.noise = noise              # another user of the process, interleaved with the tasks
        self.readonly = readonly
        self.coarse = coarse            # threads run whole tasks in a seeded order (cheap)
        self.numbered = numbered        # tasks whose function lives in this package are counted
        self.next_task = 0
        self.sections = 0
        self.fired = []


class _Job:
    def __init__(self, backend, func, callback, number):
        self.backend, self.func, self.callback, self.number = backend, func, callback, number
        self.done = False
        self.result = None
        self.error = None

    def get(self, timeout=None):
        if not self.done:
            self.backend.drain()
        if not self.done:
            raise HarnessError("simulated job was never run")
        if self.error is not None:
            raise self.error
        return self.result


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = False
    supports_timeout = False
    default_n_jobs = -1

    def __init__(self, **kw):
        super().__init__(**{k: v for k, v in kw.items() if k in ("nesting_level", "inner_max_num_threads")})
        self.queue = []

    @property
    def supports_sharedmem(self):
        return _current is None or _current.kind == "thread"

    @property
    def uses_threads(self):
        return _current is None or _current.kind == "thread"

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(1, _current.n_workers + 1 + n_jobs)
        return n_jobs

    def submit(self, func, callback=None):
        number = None                    # tasks of other libraries (inside members) are not numbered
        if _module(func).startswith(_current.numbered):
            number = _current.next_task
            _current.next_task += 1
        job = _Job(self, func, callback, number)
        self.queue.append(job)
        return job

    apply_async = submit

    def abort_everything(self, ensure_ready=True):
        self.queue.clear()

    def terminate(self):
        self.queue.clear()

    def get_nested_backend(self):
        from joblib._parallel_backends import SequentialBackend

        return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None

    def drain(self):
        plan = _current
        sim = plan.sim
        while self.queue:
            batch, self.queue = self.queue, []
            plan.sections += 1
            jobs = sim.s.shuffled(batch)
            sim.schedule_event("tasks", plan.kind, *[j.number for j in jobs])
            if plan.kind == "process":
                for j in jobs:
                    self._in_process(plan, j)
            elif plan.coarse:
                for j in jobs:
                    self._in_order(plan, j)
            else:
                self._in_threads(plan, jobs)
            for j in jobs:
                j.done = True
                if j.callback is not None and j.error is None:
                    j.callback(j.result)

    def _lost(self, plan, j):
        f = plan.faults.get(j.number)
        if f and f[0] == "lost":
            from joblib.externals.loky.process_executor import TerminatedWorkerError

            plan.sim.fault("worker lost")
            plan.sim.log("worker of task", j.number, "is lost")
            plan.fired.append(j.number)
            j.error = TerminatedWorkerError("injected: a worker process was unexpectedly terminated")
            return True
        return False

    def _in_process(self, plan, j):
        import cloudpickle

        if self._lost(plan, j):
            return
        try:
            func = pickle.loads(cloudpickle.dumps(j.func))
            if plan.readonly:
                _freeze(func)
            fault = plan.faults.get(j.number)
            if fault:
                lf = LineFault(plan.sim)
                try:
                    res = lf.run(func, fault[0], fault[1])
                finally:
                    if lf.fired:
                        plan.fired.append(j.number)
            else:
                res = func()
            j.result = pickle.loads(cloudpickle.dumps(res))
        except BaseException as e:  # noqa   travels to the caller, as with a real pool
            j.error = pickle.loads(pickle.dumps(e)) if isinstance(e, (MemoryError, ValueError)) else e
        if plan.noise:
            plan.noise()

    def _in_order(self, plan, j):
        if self._lost(plan, j):
            return
        try:
            fault = plan.faults.get(j.number)
            if fault:
                lf = LineFault(plan.sim)
                try:
                    j.result = lf.run(j.func, fault[0], fault[1])
                finally:
                    if lf.fired:
                        plan.fired.append(j.number)
            else:
                j.result = j.func()
        except BaseException as e:  # noqa
            j.error = e
        if plan.noise:
            plan.noise()

    def _in_threads(self, plan, jobs):
        s = Scheduler(plan.sim)
        tasks = []
        for j in jobs:
            if self._lost(plan, j):
                continue
            tasks.append((j, s.add(f"task{j.number}", j.func, fault=plan.faults.get(j.number))))
        if plan.noise:
            s.add("bystander", plan.noise)
        s.run()
        for j, t in tasks:
            j.result, j.error = t.result, t.error
            if t.faulted:
                plan.fired.append(j.number)


def _module(func):
    items = getattr(func, "items", None)
    f = items[0][0] if items else func
    while hasattr(f, "function"):
        f = f.function
    return getattr(f, "__module__", "") or ""


def _freeze(func):
    for item in getattr(func, "items", []):
        for a in list(item[1]) + list(item[2].values()):
            if isinstance(a, np.ndarray):
                a.flags.writeable = False


register_parallel_backend("dst", SimBackend)


def _no_real_pool(self, n_jobs=1, parallel=None, **kw):
    """No real worker pool ever starts: the simulated one when active, else in sequence."""
    level = getattr(self, "nesting_level", 0) or 0
    if _current is not None and n_jobs != 1:
        raise _pb.FallbackToBackend(SimBackend(nesting_level=level))
    raise _pb.FallbackToBackend(_pb.SequentialBackend(nesting_level=level))


import joblib._parallel_backends as _pb  # noqa

for _name in ("LokyBackend", "ThreadingBackend", "MultiprocessingBackend"):
    if hasattr(_pb, _name):
        getattr(_pb, _name).configure = _no_real_pool


@contextlib.contextmanager
def active(sim, n_workers, kind, **kw):
    global _current
    old = _current
    _current = Plan(sim, n_workers, kind, **kw)
    sim.schedule_event("pool", kind, n_workers)
    try:
        with joblib.parallel_backend("dst", n_jobs=n_workers):
            yield _current
    finally:
        _current = old
