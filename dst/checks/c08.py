"""C08: purged cross-validation never leaks and never drops more than it must."""
import copy
import math
import pickle

import numpy as np
import pandas as pd

from dst.core import terse
from dst.purged import judge_groups, judge_split, make_embargo, make_groups, make_samples, nanos
from dst.sched import LineFault, Scheduler

RUNS = {"quick": 2400, "thorough": 60000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one cross-validator iterated by several lazy consumers: their steps are interleaved (between splits, or "
        "at every line by simulated threads), consumers are abandoned, fail in the middle and start over, the validator "
        "is saved and restored meanwhile; non-trivial: two consumers were open at the same time and a purge or embargo "
        "dropped a sample")
REAL = ["mizarlabs.model.model_selection.CombPurgedKFoldCV, purge, embargo", "pandas", "numpy"]
STUB = ["consumer threads (simulated)"]
ASSUMPTIONS = ["prediction times are non-decreasing and no evaluation precedes its prediction; at least one sample per group"]


def warmup(tier):
    import mizarlabs.model.model_selection  # noqa


class Consumer:
    def __init__(self, name, cv, X, y):
        self.name, self.cv, self.X, self.y = name, cv, X, y
        self.restart()

    def restart(self):
        self.it = iter(self.cv.split(self.X, self.y))
        self.tests = []
        self.finished = False


def run(sim):
    from mizarlabs.model.model_selection import CombPurgedKFoldCV

    w = sim.w
    X, pred, ev, step = make_samples(sim)
    n = len(X)
    g, k = make_groups(sim, n)
    emb = make_embargo(sim, step)
    P, E, B = nanos(pred), nanos(ev), emb.value
    sim.log("samples", n, "groups", g, "tested", k, "embargo", B)
    kw = terse(sim, dict(n_groups=g, n_test_splits=k, pred_times=pred, eval_times=ev, embargo_td=emb),
               dict(n_groups=10, n_test_splits=2, embargo_td=pd.Timedelta(0)))
    cv = CombPurgedKFoldCV(**kw)
    x0, p0, e0 = X.copy(), pred.copy(), ev.copy()
    total = math.comb(g, k)
    sim.expect(cv.get_n_splits() == total, "combinations", lambda: f"get_n_splits is {cv.get_n_splits()} instead of {total}")

    def check(c, split):
        train, test = split
        judge_split(sim, train, test, P, E, B, c.name)
        if len(train) + len(test) < n:
            sim.probe("splits with dropped samples")
        c.tests.append(np.array(test))

    count = w.pick((2, 1, 3, 4))
    y = X["x"] if w.chance(40) else None
    consumers = [Consumer(f"consumer {i}", cv, X, y) for i in range(count)]
    if sim.s.chance(25) and total <= 20:
        # simulated threads, preempted inside split()
        s = Scheduler(sim)

        def body(c):
            def go():
                return [split for split in c.it]
            return go

        tasks = [s.add(c.name, body(c)) for c in consumers]
        s.run()
        for c, t in zip(consumers, tasks):
            if t.error is not None:
                sim.fail(f"exception:{type(t.error).__name__}", f"{c.name}: {t.error}")
            for split in t.result:
                check(c, split)
            judge_groups(sim, c.tests, n, g, k, c.name)
        sim.nontrivial = count > 1 and sim.probes["splits with dropped samples"] > 0
    else:
        open_ = list(consumers)
        restarts = 0
        while open_:
            c = sim.s.pick(open_)
            burst = sim.s.pick((1, 1, 2, 5, 100))
            sim.schedule_event(c.name, burst)
            if restarts < 4 and sim.f.chance(4):
                sim.fault("consumer abandoned and restarted")
                restarts += 1
                c.restart()
            if restarts < 4 and sim.f.chance(3):
                sim.fault("validator saved and restored")
                restarts += 1
                c.cv = pickle.loads(pickle.dumps(cv)) if sim.f.chance(50) else copy.deepcopy(cv)
                c.restart()
            for _ in range(burst):
                at = sim.f.below(40) + 1 if restarts < 4 and sim.f.chance(3) else None
                try:
                    if at is None:
                        split = next(c.it)
                    else:
                        lf = LineFault(sim)
                        split = lf.run(lambda: next(c.it), at, "MemoryError")
                except StopIteration:
                    judge_groups(sim, c.tests, n, g, k, c.name)
                    open_.remove(c)
                    break
                except MemoryError as e:
                    sim.expect("injected" in str(e), "exception:MemoryError", str(e))
                    restarts += 1
                    c.restart()
                    break
                except Exception as e:  # noqa
                    sim.fail(f"exception:{type(e).__name__}", f"{c.name}: {e}")
                check(c, split)
        sim.nontrivial = count > 1 and sim.probes["splits with dropped samples"] > 0
    sim.expect(X.equals(x0) and pred.equals(p0) and ev.equals(e0), "input modified", "splitting modified the data or the times")
    sim.log_data("tests", [c.tests for c in consumers])
