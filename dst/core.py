"""One simulated run: choice streams, event log, fault and probe counters, violations.

Every nondeterministic decision of a run is drawn from one of three streams (workload, schedule,
fault).  A stream is either generated from a seed or replayed from a list of recorded integers;
drawing zeros is always legal and means "the simplest choice", which is what minimisation aims at.
"""
import hashlib
import random
import traceback
from collections import Counter

import numpy as np

STREAMS = ("workload", "schedule", "fault")


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """Something is wrong with the simulator or its environment, not with the code under test."""


class Injected(Exception):
    """Marker mixin-free fault used where any exception type will do."""


class Stream:
    def __init__(self, name, seed=None, values=None):
        self.name = name
        self.recorded = []
        self._values = values
        self._pos = 0
        self._rng = random.Random(f"{seed}/{name}") if values is None else None

    def below(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self._values is None:
            v = self._rng.randrange(n)
        elif self._pos < len(self._values):
            v = self._values[self._pos] % n
        else:
            v = 0
        self._pos += 1
        self.recorded.append(v)
        return v

    def between(self, lo, hi):
        """An integer in [lo, hi], lo is the simplest."""
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den=100):
        """True with probability num/den; 0 (the simplest draw) is False."""
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def subset(self, seq, num=50, den=100):
        return [x for x in seq if self.chance(num, den)]

    def shuffled(self, seq):
        """Fisher-Yates; all-zero draws keep the order."""
        out = list(seq)
        for i in range(len(out) - 1):
            j = i + self.below(len(out) - i)
            out[i], out[j] = out[j], out[i]
        return out

    def np_random(self):
        """A numpy generator for bulk numbers; one recorded draw."""
        return np.random.RandomState(self.below(2 ** 31 - 1))


class Sim:
    def __init__(self, seed=None, streams=None, tier="quick", verbose=False):
        streams = streams or {}
        self.streams = {
            n: Stream(n, seed=seed, values=streams.get(n) if streams else None)
            for n in STREAMS
        }
        self.w = self.streams["workload"]
        self.s = self.streams["schedule"]
        self.f = self.streams["fault"]
        self.tier = tier
        self.faults = Counter()
        self.probes = Counter()
        self.time = 0.0            # simulated seconds covered
        self.steps = 0             # scheduler decisions taken
        self.trace = []            # human readable, bounded
        self.nontrivial = False
        self._log = hashlib.sha256()
        self._sched = hashlib.sha256()

    # -- logging (never draws, never reads a clock) -------------------------------------------
    def log(self, *what):
        line = " ".join(str(x) for x in what)
        self._log.update(line.encode() + b"\n")
        if len(self.trace) < 400:
            self.trace.append(line)

    def log_data(self, label, obj):
        """Folds a result into the event log (for determinism checks)."""
        self.log(label, digest(obj))

    def schedule_event(self, *what):
        self.steps += 1
        self._sched.update((" ".join(str(x) for x in what) + "\n").encode())

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    @property
    def log_digest(self):
        return self._log.hexdigest()[:24]

    @property
    def sched_digest(self):
        return self._sched.hexdigest()[:24]

    def recorded(self):
        return {n: list(s.recorded) for n, s in self.streams.items()}

    # -- judging -------------------------------------------------------------------------------
    def fail(self, kind, message):
        raise Violation(kind, message)

    def expect(self, cond, kind, message):
        if not cond:
            raise Violation(kind, message() if callable(message) else message)

    def call(self, what, fn, *args, **kwargs):
        """Calls the code under test on an input of the property's domain: no exception allowed."""
        try:
            return fn(*args, **kwargs)
        except (Violation, HarnessError):
            raise
        except Exception as e:  # noqa
            raise Violation(
                f"exception:{type(e).__name__}",
                f"{what} raised {type(e).__name__}: {str(e)[:300]}\n" + tail_of(e),
            ) from e


def size(sim, usual, large, per_mille=15):
    """A length: usually one of the small ones, now and then a large one (blocks, caches and buffers have edges there)."""
    n = sim.w.pick(usual)
    if sim.w.chance(per_mille, 1000):
        n = sim.w.pick(large)
        n += sim.w.between(0, n // 4)
        sim.probe("large run")
    return n


def terse(sim, kwargs, documented):
    """The arguments, sometimes without the ones that have their documented default anyway."""
    same = [k for k, v in documented.items() if k in kwargs and type(kwargs[k]) is type(v) and kwargs[k] == v]
    if same and sim.w.chance(60):
        sim.probe("documented defaults relied on")
        return {k: v for k, v in kwargs.items() if k not in same}
    return kwargs


def tail_of(e, n=4):
    return "".join(traceback.format_tb(e.__traceback__)[-n:])


def digest(obj):
    h = hashlib.sha256()
    _feed(h, obj)
    return h.hexdigest()[:16]


def _feed(h, obj):
    import pandas as pd

    if isinstance(obj, pd.DataFrame):
        h.update(repr([str(c) for c in obj.columns]).encode())
        _feed(h, obj.index)
        for i in range(obj.shape[1]):
            _feed(h, obj.iloc[:, i].values)
    elif isinstance(obj, pd.Series):
        _feed(h, obj.index)
        _feed(h, obj.values)
    elif isinstance(obj, pd.Index):
        h.update(str(obj.dtype).encode())
        _feed(h, obj.values)
    elif isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for x in obj.ravel():
                h.update(repr(x).encode())
        else:
            h.update(str(obj.shape).encode())
            h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, dict):
        for k in obj:
            h.update(repr(k).encode())
            _feed(h, obj[k])
    elif isinstance(obj, (list, tuple)):
        h.update(str(len(obj)).encode())
        for x in obj:
            _feed(h, x)
    else:
        h.update(repr(obj).encode())


def close(a, b, rtol=1e-9, atol=1e-12):
    """Elementwise equality up to rounding; NaN equals NaN, infinities must match."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return np.zeros(1, bool)
    with np.errstate(invalid="ignore"):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def first_bad(mask):
    return tuple(int(x) for x in np.argwhere(~mask)[0])
