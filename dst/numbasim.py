"""A simulated threading layer for numba: the repository's compiled kernels under seeded schedules.

numba's lowering of a parallel loop calls a threading layer through a handful of symbols
(numba_parallel_for, do_scheduling_*, get_sched_size, get/set_num_threads, ...).  Installing these
here, before anything is compiled, puts the real machine code of every parallel loop under the
simulator: the number of workers, how the iteration space is cut into pieces, which worker gets a
piece and in which order the pieces execute are drawn from the schedule stream; the bytes found in
fresh heap memory, and workers that fail, come from the fault stream.
Nothing in the repository is changed: a threading layer is an extension point of numba.
"""
import ctypes
from ctypes import CFUNCTYPE, POINTER, c_int, c_long, c_size_t, c_ssize_t, c_uint, c_void_p

from dst.core import HarnessError

_sim = None            # the current run, None outside (then: one worker, in order)
_state = dict(threads=1, chunk=0, sched_size=1, thread_id=0, worker_errors=0)
_keep = []
_installed = False
_cb_errors = []
_plan_forced = None
_libc = ctypes.CDLL(None)
M_PERTURB = -6
HEAP_BYTES = (0x00, 0x3F, 0x40, 0x7F, 0xBF, 0xC0, 0xFF, 0x41, 0xEF)
WORKERS = (1, 2, 3, 4, 5, 7, 8, 12, 16)


def begin(sim, workers=None):
    """Attaches the simulator to a run: draws the worker count and the heap contents."""
    global _sim
    install()
    _sim = sim
    _state["threads"] = workers or sim.s.pick(WORKERS)
    _state["chunk"] = 0
    _state["worker_errors"] = 0
    _cb_errors.clear()
    sim.schedule_event("workers", _state["threads"])
    from dst import env

    env.on_cleanup(end)


def heap(sim, byte=None):
    """Fault: fresh heap memory holds garbage (None draws the byte)."""
    if byte is None:
        byte = sim.f.pick(HEAP_BYTES)
    if byte:
        sim.fault("heap garbage")
    sim.log("heap byte", byte)
    _libc.mallopt(M_PERTURB, (byte ^ 0xFF) if byte else 0)


def rethread(sim):
    """A new worker count, as when a process restarts on another machine."""
    _state["threads"] = sim.s.pick(WORKERS)
    sim.schedule_event("workers", _state["threads"])


def end():
    global _sim
    _sim = None
    _state["threads"] = 1
    _libc.mallopt(M_PERTURB, 0)
    if _cb_errors:
        e = _cb_errors[:]
        _cb_errors.clear()
        raise HarnessError("threading layer: " + "; ".join(e))


def worker_errors():
    """Workers that raised since begin(); an error in a worker is lost, as with real workers."""
    return _state["worker_errors"]


KFN = CFUNCTYPE(None, c_void_p, c_void_p, c_void_p, c_void_p)


def _guard(default):
    def deco(fn):
        def wrapped(*a):
            try:
                return fn(*a)
            except BaseException as e:  # noqa  never unwind into machine code
                _cb_errors.append(f"{type(e).__name__}: {e}")
                return default
        return wrapped
    return deco


@_guard(None)
def _parallel_for(fn, args, dims, steps, data, inner_ndim, array_count, num_threads):
    n = ctypes.cast(dims, POINTER(c_ssize_t))[0]
    base = ctypes.cast(args, POINTER(c_void_p))
    step = ctypes.cast(steps, POINTER(c_ssize_t))
    kernel = KFN(fn)
    order = list(range(n))
    if _sim is not None and n > 1:
        order = _sim.s.shuffled(order)
        _sim.schedule_event("order", *order)
    ndims = inner_ndim + 1
    src = ctypes.cast(dims, POINTER(c_ssize_t))
    saved = (_state["threads"], _state["sched_size"])
    for pos, i in enumerate(order):
        d = (c_ssize_t * ndims)(1, *[src[k] for k in range(1, ndims)])
        a = (c_void_p * array_count)()
        for j in range(array_count):
            a[j] = (base[j] or 0) + step[j] * i
        _state["thread_id"] = i % max(1, saved[0])
        try:
            kernel(ctypes.cast(a, c_void_p), ctypes.cast(d, c_void_p), steps, data)
        except BaseException:  # noqa   the error of a worker goes nowhere
            _state["worker_errors"] += 1
    _state["thread_id"] = 0
    _state["threads"], _state["sched_size"] = saved


def _partition(total, pieces):
    """Cuts [0,total) into `pieces` intervals, some possibly empty."""
    s = _sim.s if _sim is not None else None
    style = s.pick(("even", "random", "one", "single")) if s and pieces > 1 else "even"
    if style == "even":
        cuts = [total * k // pieces for k in range(pieces + 1)]
    elif style == "one":                    # one worker does everything
        k = s.below(pieces)
        cuts = [0] * (k + 1) + [total] * (pieces - k)
    elif style == "single":                 # pieces of one iteration, the rest goes to the last
        cuts = [min(k, total) for k in range(pieces)] + [total]
    else:
        cuts = [0] + sorted(s.below(total + 1) for _ in range(pieces - 1)) + [total]
    if _sim is not None:
        _sim.schedule_event("cut", *cuts)
    return cuts


@_guard(None)
def _do_scheduling(num_dim, starts, stops, num_divisions, sched, debug):
    total = max(0, stops[0] - starts[0] + 1)
    for k in range(1, num_dim):
        if stops[k] < starts[k]:
            total = 0
    cuts = _partition(total, num_divisions)
    for d in range(num_divisions):
        base = d * 2 * num_dim
        lo, hi = cuts[d], cuts[d + 1]
        for k in range(num_dim):
            if hi <= lo:
                sched[base + k] = 1
                sched[base + num_dim + k] = 0
            elif k == 0:
                sched[base] = starts[0] + lo
                sched[base + num_dim] = starts[0] + hi - 1
            else:
                sched[base + k] = starts[k]
                sched[base + num_dim + k] = stops[k]


@_guard(1)
def _get_sched_size(num_threads, num_dim, starts, stops):
    """As numba: one entry per worker, or one per chunk when a chunk size is set."""
    n = max(1, num_threads)
    if _state["chunk"]:
        total = max(1, stops[0] - starts[0] + 1)
        n = max(n, min(total, -(-total // _state["chunk"])))
    _state["sched_size"] = n
    return n


@_guard(None)
def _set_num_threads(n):
    _state["threads"] = max(1, n)


@_guard(1)
def _get_num_threads():
    return _state["threads"]


@_guard(0)
def _get_thread_id():
    return _state["thread_id"]


@_guard(0)
def _set_chunk(n):
    old = _state["chunk"]
    _state["chunk"] = n
    return old


@_guard(0)
def _get_chunk():
    return _state["chunk"]


def install():
    global _installed
    if _installed:
        return
    import llvmlite.binding as ll
    import numba.np.ufunc.parallel as par

    if par._is_initialized:
        raise HarnessError("a numba threading layer is already running")
    P = POINTER(c_ssize_t)
    libc = ctypes.CDLL(None)
    libc.malloc.restype = c_void_p
    libc.malloc.argtypes = [c_size_t]
    libc.free.argtypes = [c_void_p]

    def addr(f):
        return ctypes.cast(f, c_void_p).value

    @_guard(0)
    def allocate(n):
        return libc.malloc(max(1, n) * ctypes.sizeof(c_ssize_t))

    @_guard(None)
    def deallocate(p):
        libc.free(p)

    cbs = dict(
        numba_parallel_for=CFUNCTYPE(None, c_void_p, c_void_p, c_void_p, c_void_p, c_void_p,
                                     c_ssize_t, c_ssize_t, c_ssize_t)(_parallel_for),
        do_scheduling_signed=CFUNCTYPE(None, c_size_t, P, P, c_size_t, P, c_ssize_t)(_do_scheduling),
        do_scheduling_unsigned=CFUNCTYPE(None, c_size_t, P, P, c_size_t, P, c_ssize_t)(_do_scheduling),
        get_sched_size=CFUNCTYPE(c_size_t, c_size_t, c_size_t, P, P)(_get_sched_size),
        allocate_sched=CFUNCTYPE(c_void_p, c_size_t)(allocate),
        deallocate_sched=CFUNCTYPE(None, c_void_p)(deallocate),
        get_num_threads=CFUNCTYPE(c_ssize_t)(_get_num_threads),
        set_num_threads=CFUNCTYPE(None, c_ssize_t)(_set_num_threads),
        get_thread_id=CFUNCTYPE(c_ssize_t)(_get_thread_id),
        set_parallel_chunksize=CFUNCTYPE(c_size_t, c_size_t)(_set_chunk),
        get_parallel_chunksize=CFUNCTYPE(c_size_t)(_get_chunk),
    )
    for name, cb in cbs.items():
        ll.add_symbol(name, addr(cb))
        _keep.append(cb)
    par._set_num_threads = CFUNCTYPE(None, c_int)(lambda n: _set_num_threads(n))
    par._get_num_threads = CFUNCTYPE(c_int)(lambda: _get_num_threads())
    par._get_thread_id = CFUNCTYPE(c_int)(lambda: _get_thread_id())
    par._set_parallel_chunksize = CFUNCTYPE(c_uint, c_uint)(lambda n: _set_chunk(n))
    par._get_parallel_chunksize = CFUNCTYPE(c_uint)(lambda: _get_chunk())
    par._get_sched_size = CFUNCTYPE(c_uint, c_uint, c_uint, POINTER(c_int), POINTER(c_int))(
        lambda a, b, c, d: _get_sched_size(a, b, c, d))
    par._threading_layer = "tbb"
    par._is_initialized = True
    _installed = True
