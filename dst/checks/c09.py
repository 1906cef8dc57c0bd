"""C09: backtest paths use every out-of-sample prediction once, whatever the shuffle."""
import contextlib
import math
import random

import numpy as np
import pandas as pd

from dst.purged import expected_train, judge_groups, make_embargo, make_groups, make_samples, nanos
from dst.sched import Scheduler

RUNS = {"quick": 600, "thorough": 20000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one or several path computations whose random choices are seeded or scripted (identity, reversal, "
        "rotation), interleaved at every line with each other and with another user of the random generator, with models "
        "that fail at a seeded call followed by a repetition; non-trivial: at least two paths were judged")
REAL = ["mizarlabs.model.model_selection.combinatorial_cross_validation_paths, compute_back_test_paths, CombPurgedKFoldCV",
        "pandas", "numpy"]
STUB = ["the model (remembers its training rows; its predictions name the fit and the row)", "random.shuffle (scripted in some runs)",
        "callers (simulated threads)"]
ASSUMPTIONS = ["unique sample index shared by features, labels and times"]


def warmup(tier):
    import mizarlabs.model.model_selection  # noqa


class ModelError(Exception):
    pass


class Model:
    """Predictions tell which fit made them for which row."""

    def __init__(self, sim, n, fail_at=None, hook=None):
        self.sim, self.n, self.fail_at, self.hook = sim, n, fail_at, hook
        self.fits = []
        self.params = []
        self.calls = 0

    def _call(self):
        self.calls += 1
        if self.hook:
            self.hook()
        if self.fail_at is not None and self.calls == self.fail_at:
            self.sim.fault("model fails")
            raise ModelError("injected")

    def fit(self, X, y, **params):
        self._call()
        self.fits.append((np.asarray(X)[:, 0].astype(int), np.asarray(y)))
        self.params.append(params)
        return self

    def predict(self, X):
        self._call()
        return (len(self.fits) - 1) * self.n + np.asarray(X)[:, 0].astype(int)

    def predict_proba(self, X):
        self._call()
        p = 0.5 + 0.4 * ((len(self.fits) - 1) * self.n + np.asarray(X)[:, 0]) / (1 + 400 * self.n)
        flip = (np.asarray(X)[:, 0].astype(int) % 2).astype(bool)
        return np.where(flip[:, None], np.column_stack([p, 1 - p]), np.column_stack([1 - p, p]))


@contextlib.contextmanager
def shuffles(sim):
    """The outcomes of random.shuffle, decided by the simulator in some runs."""
    kind = sim.s.pick(("seeded", "identity", "reversed", "rotated", "drawn"))
    sim.schedule_event("shuffle", kind)
    if kind == "seeded":
        random.seed(sim.s.below(10 ** 6))
        yield
        return
    sim.fault("scripted shuffle: " + kind)
    old = random.shuffle

    def shuffle(x):
        if kind == "reversed":
            x[:] = x[::-1]
        elif kind == "rotated" and len(x) > 1:
            x[:] = x[1:] + x[:1]
        elif kind == "drawn":
            x[:] = sim.s.shuffled(x)

    random.shuffle = shuffle
    try:
        yield
    finally:
        random.shuffle = old


def judge(sim, paths, model, X, y, P, E, B, g, k, edges, label, params):
    n = len(X)
    want_paths = math.comb(g - 1, k - 1)
    sim.expect(isinstance(paths, list) and len(paths) == want_paths, "number of paths",
               lambda: f"{len(paths)} paths instead of {want_paths} for {g} groups, {k} tested")
    sim.expect(len(model.fits) == math.comb(g, k), "fits", lambda: f"{len(model.fits)} fits instead of {math.comb(g, k)}")
    sim.expect(all(p == params for p in model.params), "fit parameters", lambda: f"fit parameters {model.params[0]}, expected {params}")
    group_of = np.repeat(np.arange(g), np.diff(edges))
    used = {}
    for i, path in enumerate(paths):
        sim.expect(len(path) == n and path.index.is_unique and set(path.index) == set(X.index), "path samples",
                   lambda: f"path {i} has {len(path)} rows, {path.index.nunique()} different, for {n} samples")
        path = path.loc[X.index]
        for c in y.columns:
            sim.expect(path[c].equals(y[c]) or (path[c].values == y[c].values).all(), "label information",
                       lambda: f"path {i}: column {c} is not the one of the samples")
        code = path["predictions"].values.astype(np.int64)
        fit, row = code // n, code % n
        sim.expect((row == np.arange(n)).all(), "prediction of another sample",
                   lambda: f"path {i}: sample {int(np.argmin(row == np.arange(n)))} has the prediction of {row[row != np.arange(n)][0]}")
        p = 0.5 + 0.4 * (fit * n + row) / (1 + 400 * n)
        sim.expect(np.allclose(path["max_proba"].values.astype(float), np.maximum(p, 1 - p), rtol=0, atol=1e-12), "probability",
                   lambda: f"path {i}: max_proba is not the highest probability of the same model and sample")
        for gr in range(g):
            fits = np.unique(fit[group_of == gr])
            sim.expect(len(fits) == 1, "mixed group", lambda: f"path {i}: group {gr} mixes predictions of fits {fits.tolist()}")
            f = int(fits[0])
            sim.expect((f, gr) not in used, "reused prediction",
                       lambda: f"the predictions of fit {f} for group {gr} are in paths {used[(f, gr)]} and {i}")
            used[(f, gr)] = i
    sim.expect(len(used) == math.comb(g, k) * k, "unused predictions", lambda: f"{len(used)} of {math.comb(g, k) * k} predictions are used")
    # each fit: the train set of a split that tests exactly the groups it predicts
    tested = {}
    for f, gr in used:
        tested.setdefault(f, set()).add(gr)
    sim.expect(len({frozenset(v) for v in tested.values()}) == len(tested), "combinations", "two fits test the same groups")
    for f, groups in tested.items():
        test = np.flatnonzero(np.isin(group_of, list(groups)))
        want = expected_train(test, P, E, B)
        got, labels = model.fits[f]
        order = np.argsort(got, kind="stable")
        sim.expect(len(got) == len(want) and (got[order] == want).all(), "training rows",
                   lambda: f"fit {f} (tests groups {sorted(groups)}) used rows {got.tolist()} instead of {want.tolist()}"[:900])
        sim.expect((labels == y[label].values[got]).all(), "training labels", f"fit {f} was given labels of other rows")


def run(sim):
    from mizarlabs.model.model_selection import CombPurgedKFoldCV, combinatorial_cross_validation_paths

    w = sim.w

    def problem():
        X, pred, ev, step = make_samples(sim, n=w.pick((12, 8, 18, 26)), unique=True)
        g, k = make_groups(sim, len(X), most=36)
        emb = make_embargo(sim, step)
        rs = w.np_random()
        label = w.pick(("label", "target"))
        y = pd.DataFrame({"t1": ev.values, label: rs.randint(-1, 2, size=len(X)), "return": rs.randn(len(X))}, index=X.index)
        return X, y, pred, ev, g, k, emb, label

    count = w.pick((1, 1, 2, 3))
    same = count > 1 and w.chance(50)          # the callers share data and cross-validator
    problems = []
    for i in range(count):
        if same and i:
            problems.append(problems[0])
            continue
        X, y, pred, ev, g, k, emb, label = problem()
        cv = CombPurgedKFoldCV(n_groups=g, n_test_splits=k, pred_times=pred, eval_times=ev, embargo_td=emb)
        tests = [t for _, t in cv.split(X)]
        edges = judge_groups(sim, tests, len(X), g, k, "split")
        sim.log("problem", i, len(X), g, k, emb.value)
        problems.append((X, y, nanos(pred), nanos(ev), emb.value, g, k, edges, label, cv))

    def bystander():
        if sim.s.chance(30):
            random.seed(sim.s.below(5))
            sim.fault("random generator re-seeded by others")

    def compute(p, model, params):
        X, y, P, E, B, g, k, edges, label, cv = p
        kw = {} if label == "label" else {"label_column_name": label}
        out = list(combinatorial_cross_validation_paths(X, y, cv, model, params, **kw))
        sim.expect(len(out) == 1, "result", lambda: f"{len(out)} results yielded")
        return out[0]

    def attempt(fail):
        """One round of computations, interleaved; returns [(problem, model, params, result, error)]."""
        models, params = [], []
        for i, p in enumerate(problems):
            calls = math.comb(p[5], p[6]) * (1 + 2 * p[6])
            models.append(Model(sim, len(p[0]), sim.f.between(1, calls) if fail and sim.f.chance(70) else None, bystander))
            params.append({"epochs": i} if sim.w.chance(50) else {})
        if count == 1:
            try:
                return [(problems[0], models[0], params[0], compute(problems[0], models[0], params[0]), None)]
            except ModelError as e:
                return [(problems[0], models[0], params[0], None, e)]
        s = Scheduler(sim)
        tasks = [s.add(f"caller {i}", lambda p=p, m=m, q=q: compute(p, m, q)) for i, (p, m, q) in enumerate(zip(problems, models, params))]
        s.run()
        return [(p, m, q, t.result, t.error) for p, m, q, t in zip(problems, models, params, tasks)]

    copies = [(p[0].copy(), p[1].copy()) for p in problems]
    with shuffles(sim):
        for fail in ((True, False) if sim.f.chance(45) else (False,)):
            for p, m, q, paths, err in sim.call("paths", attempt, fail):
                if m.fail_at is not None:
                    sim.expect(isinstance(err, ModelError), "lost error", lambda: f"the model failed, the caller got {err!r} and {paths!r}"[:400])
                    continue
                if err is not None:
                    if hasattr(err, "kind"):
                        raise err
                    sim.fail(f"exception:{type(err).__name__}", f"{err}")
                judge(sim, paths, m, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], q)
                sim.log_data("paths", paths)
                if len(paths) > 1:
                    sim.nontrivial = True
                sim.probe("paths judged", len(paths))
    for p, (x0, y0) in zip(problems, copies):
        sim.expect(p[0].equals(x0) and p[1].equals(y0), "input modified", "the features or labels were modified")
