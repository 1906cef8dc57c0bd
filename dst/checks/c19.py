"""C19: log-uniform draws of a random search have the log-uniform law, and come from the given source only."""
import copy
import math

import numpy as np

from dst import fresh
from dst.core import size
from dst.sched import FAULT_KINDS, LineFault, Scheduler

RUNS = {"quick": 700, "thorough": 20000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is a random search in which several callers draw from shared, copied and unpickled log-uniform variables with "
        "scripted or seeded random sources, switched at lines of repository code, some draws failing half-way, with noise on "
        "the global generator; scripted sources hand out every stratum of [0, 1) and its ends, so the law of the draws "
        "is compared stratum by stratum; non-trivial: at least 20 draws")
REAL = ["mizarlabs.model.model_selection.log_uniform / LogUniformGen", "scipy.stats", "sklearn ParameterSampler"]
STUB = ["uniform random source (scripted)", "scheduling of the callers"]
ASSUMPTIONS = ["1e-9 <= a < b <= 1e12", "the k-th smallest of the draws made from stratified uniforms is the k-th quantile, "
               "so any monotone way of drawing is accepted", "quantiles agree to 1e-6 of the logarithmic range"]


def warmup(tier):
    import mizarlabs.model.model_selection  # noqa
    from sklearn.model_selection import ParameterSampler  # noqa

    fresh.start()


class Scripted(np.random.RandomState):
    """A generator whose uniforms come from a list; anything else it is asked for is an error of the test."""

    def __init__(self, values):
        super().__init__(0)
        self.values, self.used = list(values), 0

    def _take(self, size):
        k = 1 if size is None else int(np.prod(size))
        if self.used + k > len(self.values):
            raise RuntimeError("more uniforms drawn than values asked for")
        out = np.array(self.values[self.used:self.used + k])
        self.used += k
        return out[0] if size is None else out.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._take(size)

    def random_sample(self, size=None):
        return self._take(size)

    random = random_sample

    def rand(self, *shape):
        return self._take(shape or None)


class Failing(np.random.RandomState):
    def uniform(self, *a, **k):
        raise OSError("the source of randomness is gone")

    random_sample = rand = uniform


def draw(a, b, seed, n):
    from mizarlabs.model.model_selection import log_uniform

    return log_uniform(a, b).rvs(size=n, random_state=seed)


def again(dist, seed, n):
    return dist.rvs(size=n, random_state=seed)


def run(sim):
    from mizarlabs.model.model_selection import log_uniform
    from sklearn.model_selection import ParameterSampler

    w = sim.w
    a = w.pick((1.0, 1e-3, 1e-6, 0.5, 100.0, 1e-9, 3)) * w.pick((1, 1.7, 2.3))
    b = a * w.pick((10.0, 1e6, 2.0, 1.001, 1e3, math.e))
    default = w.chance(10)
    if default:
        a, b = 1.0, math.e
        dist = log_uniform()
    elif w.chance(5):
        a, b = 1.0, 1.0 + w.between(1, 9)
        dist = log_uniform(b=b)
    else:
        dist = log_uniform(a, b)
    L = math.log(b / a)
    sim.log("range", a, b)
    if w.chance(25):
        dist = copy.deepcopy(dist)
        sim.probe("copied variable")
    # the distribution function, anywhere and at the ends
    rs = w.np_random()
    # around the ends and inside, in no particular order
    us = np.concatenate([[0.0, 1.0], rs.rand(8)])
    xs = np.clip(a * np.exp(us * L), a, b)
    got = np.asarray(sim.call("cdf", dist.cdf, xs), dtype=float)
    sim.expect(np.allclose(got, np.log(xs / a) / L, rtol=0, atol=1e-9), "cdf",
               lambda: f"distribution function on [{a}, {b}] at {xs} is {got}")
    out = np.asarray(sim.call("cdf", dist.cdf, np.array([a / 2, b * 2])), dtype=float)
    sim.expect(out[0] == 0 and out[1] == 1, "cdf", lambda: f"distribution function outside [{a}, {b}]: {out}")

    other = log_uniform(a * 3, b * 7)                     # another search of the same program
    lf = LineFault(sim)
    callers = w.between(1, 3)
    sch = Scheduler(sim)
    before = np.random.get_state()[1].copy() if not w.chance(30) else None
    jobs = []
    total = 0
    for c in range(callers):
        n = size(sim, (12, 20, 5, 1, 30), (1100, 10200))
        strata = (np.arange(n) + 0.5) / n
        if n > 3 and w.chance(50):
            strata[0], strata[-1] = w.pick((0.0, 2.0 ** -53, 1e-12)), w.pick((1 - 2.0 ** -53, 1 - 1e-12))
        order = w.np_random().permutation(n)
        src = Scripted(strata[order])
        one_by_one = w.chance(30)
        fault = (sim.f.between(1, 12), sim.f.pick(FAULT_KINDS)) if sim.f.chance(20) else None

        def work(src=src, n=n, one_by_one=one_by_one):
            if one_by_one:
                vals = []
                for _ in range(n):
                    vals.append(float(dist.rvs(random_state=src)))
                return np.array(vals)
            return np.asarray(dist.rvs(size=n, random_state=src), dtype=float)

        t = sch.add(f"caller {c}", work, fault=fault)
        jobs.append((t, np.sort(strata), src, n))
    sch.run()
    for t, strata, src, n in jobs:
        if t.faulted:
            if t.error is None:
                sim.probe("failure swallowed")
            continue
        if t.error is not None:
            sim.call("draw", _raise, t.error)
        vals = np.sort(t.result)
        total += n
        sim.log_data(t.name, t.result)
        sim.expect(len(vals) == n and src.used == n, "draws", lambda: f"{n} values asked for: {len(vals)} returned, {src.used} uniforms drawn")
        sim.expect((vals >= a * (1 - 1e-12)).all() and (vals <= b * (1 + 1e-12)).all(), "range",
                   lambda: f"a draw from [{a}, {b}] is {vals.min()} .. {vals.max()}")
        slack = 1e-6 + 2e-14 / (vals * L)                 # the quantile function is inverted numerically
        q = np.log(vals / a) / L
        sim.expect((np.abs(q - strata) <= slack).all() or (np.abs(q - np.sort(1 - strata)) <= slack).all(), "law",
                   lambda: f"draws from the uniforms {strata} on [{a}, {b}] are the quantiles {q}")
    if before is not None:
        sim.expect((np.random.get_state()[1] == before).all(), "global source", "draws from a given source disturb numpy's global generator")
    # a source that fails, then the same variable again; noise on the global source; the same seed elsewhere
    seed = sim.w.below(2 ** 31)
    n = w.between(2, 15)
    ref = np.asarray(sim.call("draw", draw, a, b, seed, n), dtype=float)
    if sim.f.chance(40):
        try:
            dist.rvs(size=3, random_state=Failing(0))
        except OSError:
            sim.fault("random source fails")
        else:
            sim.fail("draws", "values were drawn although the given source failed")
    if sim.f.chance(50):
        np.random.seed(sim.f.below(2 ** 31))
        np.random.rand(sim.f.below(5))
        sim.fault("global generator disturbed")
    other.rvs(size=2, random_state=1)
    vals = np.asarray(sim.call("draw", again, dist, seed, n), dtype=float)
    sim.expect(np.array_equal(vals, ref), "reproducible", lambda: f"seed {seed}: {vals} and {ref}")
    vals = np.asarray(sim.call("draw", again, dist, np.random.RandomState(seed), n), dtype=float)
    sim.expect(np.array_equal(vals, ref), "reproducible", lambda: f"generator of seed {seed}: {vals} and {ref}")
    if sim.f.chance(10):
        vals = np.asarray(fresh.ask(sim, "draw", again, dist, seed, n), dtype=float)
        sim.expect(np.array_equal(vals, ref), "reproducible", lambda: f"seed {seed} in another process: {vals} and {ref}")
    if sim.s.chance(50):
        def search():
            return [p["x"] for p in ParameterSampler({"x": dist, "y": other}, n, random_state=seed)]
        one, two = sim.call("parameter search", search), sim.call("parameter search", search)
        sim.expect(one == two and all(a * (1 - 1e-12) <= x <= b * (1 + 1e-12) for x in one), "search",
                   lambda: f"two searches with seed {seed}: {one} and {two}")
        total += n
    sim.log_data("draws", ref)
    sim.nontrivial = total >= 20


def _raise(e):
    raise e
