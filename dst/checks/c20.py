"""C20: feature unions and pipelines are their parts side by side, however they are executed."""
import copy

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin

from dst import fresh, joblibsim
from dst.core import Violation, size
from dst.features import _transform, catalogue
from dst.live import live
from dst.market import make_bars, make_index
from dst.sched import FAULT_KINDS, Scheduler

RUNS = {"quick": 3000, "thorough": 40000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is the life of one feature union (bar features, parts that learn, nested unions and pipelines, dropped and "
        "passed-through parts, weights) on a live history: trainings and transformations under simulated workers with "
        "failures raised at seeded lines, failing parts and lost workers, concurrent callers, moves to another process, and "
        "the training of a pipeline on top of it; non-trivial: at least two parts were judged under several workers")
REAL = ["mizarlabs.model.pipeline.MizarFeatureUnion, MizarPipeline", "the bar features", "scikit-learn FeatureUnion and Pipeline",
        "joblib.Parallel front end", "pandas", "numpy"]
STUB = ["joblib backend (simulated workers with injected failures)", "caller threads (simulated)",
        "parts and models that record what they are given", "another process is a fork made before any run"]
ASSUMPTIONS = ["parts return two-dimensional numeric columns; what a union holds after a failed training is judged from the next "
               "successful one on", "a weighted part is multiplied by its weight (1e-12 relative)"]


def warmup(tier):
    from dst.core import Sim
    import mizarlabs.model.pipeline  # noqa

    for k in range(40):
        catalogue(Sim(seed=f"warm {k}"))
    fresh.start()


class Centre(TransformerMixin, BaseEstimator):
    """Learns from the targets."""

    def fit(self, X, y):
        y = np.asarray(y, dtype=float)
        self.level_ = float(X["close"].values[y == y.max()].mean())
        self.rows_ = len(y)
        return self

    def transform(self, X):
        return np.column_stack([X["close"].values - self.level_, np.full(len(X), float(self.rows_))])


class Scale(TransformerMixin, BaseEstimator):
    """Learns from the bars; returns a frame."""

    def __init__(self, column="close"):
        self.column = column

    def fit(self, X, y=None):
        self.top_ = float(np.nanmax(X[self.column].values))
        return self

    def transform(self, X):
        return pd.DataFrame({"scaled": X[self.column] / (self.top_ or 1.0)}, index=X.index)


class PartError(Exception):
    count = 0

    @classmethod
    def now(cls, what):
        PartError.count += 1
        raise PartError(what)


class Brittle(Scale):
    """Fails on the chosen occasion."""

    plan = None

    def _maybe(self):
        if Brittle.plan is not None:
            Brittle.plan -= 1
            if Brittle.plan < 0:
                Brittle.plan = None
                PartError.now("injected failure of a part")

    def fit(self, X, y=None):
        self._maybe()
        return super().fit(X, y)

    def transform(self, X):
        self._maybe()
        return super().transform(X)


class Recorder(ClassifierMixin, BaseEstimator):
    """A model that remembers what it is given."""

    fail = False

    def fit(self, X, y, sample_weight=None):
        if Recorder.fail:
            Recorder.fail = False
            PartError.now("injected failure of the model")
        self.classes_ = np.unique(y)
        self.seen_ = (X.copy() if isinstance(X, pd.DataFrame) else np.array(X), np.array(y),
                      None if sample_weight is None else np.array(sample_weight, dtype=float))
        return self

    def predict(self, X):
        self.last_ = np.array(X, dtype=float)
        return np.nansum(self.last_, axis=1)


class PlainRecorder(Recorder):
    def fit(self, X, y):
        return super().fit(X, y)


# -- the union and, separately, what it should be -----------------------------------------------------
class Leaf:
    learns = False

    def __init__(self, make, learns=False, name=""):
        self.make, self.learns, self.name = make, learns, name

    def build(self):
        return self.make()

    def fit(self, X, y):
        self.t = self.make()
        if self.learns:
            self.t.fit(X, y)

    def value(self, X):
        return np.asarray((self.t if self.learns else self.make()).transform(X), dtype=float)


class Pass(Leaf):
    def __init__(self):
        super().__init__(None, False, "passthrough")

    def build(self):
        return "passthrough"

    def fit(self, X, y):
        pass

    def value(self, X):
        return X.values.astype(float)


class Chain:
    """The bars unchanged, then a part."""

    def __init__(self, part):
        self.part, self.learns, self.name = part, part.learns, f"chain({part.name})"

    def build(self):
        from mizarlabs.model.pipeline import MizarPipeline
        from mizarlabs.transformers.utils import IdentityTransformer

        return MizarPipeline([("same", IdentityTransformer()), ("part", self.part.build())])

    def fit(self, X, y):
        self.part.fit(X, y)

    def value(self, X):
        return self.part.value(X)


class Union:
    def __init__(self, parts, dropped, weights, jobs):
        self.parts, self.dropped, self.weights, self.jobs = parts, dropped, weights, jobs
        self.learns = any(p.learns for _, p in parts)
        self.name = f"union({', '.join(p.name for _, p in parts)})"

    def build(self):
        from mizarlabs.model.pipeline import MizarFeatureUnion

        items = [(n, p.build()) for n, p in self.parts]
        if self.dropped is not None:
            items.insert(self.dropped, ("dropped", "drop"))
        kw = {}
        if self.weights:
            kw["transformer_weights"] = dict(self.weights)
        if self.jobs is not None:
            kw["n_jobs"] = self.jobs
        return MizarFeatureUnion(items, **kw)

    def fit(self, X, y):
        for _, p in self.parts:
            p.fit(X, y)

    def value(self, X):
        return np.column_stack([p.value(X) * (self.weights or {}).get(n, 1.0) for n, p in self.parts])


def make_part(sim, depth=0):
    w = sim.w
    kind = w.below(10)
    if kind in (0, 1, 2, 3):
        for _ in range(20):
            f = catalogue(sim)
            if f.value is _transform:
                return Leaf(f.make, name=f.name)
        return Pass()
    if kind == 4:
        return Leaf(Centre, True, "Centre")
    if kind == 5:
        c = w.pick(("close", "high"))
        return Leaf(lambda: Scale(c), True, "Scale " + c)
    if kind == 6:
        return Leaf(Brittle, True, "Brittle")
    if kind == 7:
        return Pass()
    if kind == 8 and depth < 2:
        part = make_part(sim, depth + 1)
        return part if isinstance(part, (Pass, Union)) else Chain(part)
    if depth < 1:
        return make_union(sim, depth + 1)
    return Leaf(Centre, True, "Centre")


def make_union(sim, depth=0):
    w = sim.w
    parts = [(f"p{i}" if w.chance(80) else f"a{9 - i}", make_part(sim, depth)) for i in range(w.between(1, 4))]
    weights = {n: w.pick((2.0, 0.5, 0, -1.0, 3)) for n, _ in parts if w.chance(50)} if w.chance(25) else None
    return Union(parts, w.below(len(parts) + 1) if w.chance(15) else None, weights, w.pick((None, -1, 2, 1)))


def _remote(union, X):
    return union.transform(X)


def _remote_predict(pipe, X):
    return pipe.predict(X)


def run(sim):
    from mizarlabs.model.pipeline import MizarPipeline

    w, f = sim.w, sim.f
    Brittle.plan = None
    Recorder.fail = False
    spec = make_union(sim)
    n = size(sim, (30, 12, 45, 5, 2), (300, 600), 10)
    index = make_index(sim, n)
    if w.chance(15):
        index = index.tz_localize("UTC")
    bars = make_bars(sim, index)
    rs = w.np_random()
    y_all = pd.Series(rs.choice([-1, 1], size=n), index=index)
    weight_all = pd.Series(np.round(rs.rand(n), 3) + 0.1, index=index)
    union = spec.build()
    sim.log("union", spec.name, "weights", spec.weights, "jobs", spec.jobs, "bars", n)
    fitted = not spec.learns
    if fitted:
        spec.fit(bars, y_all)
    many = 0

    def same(got, want):
        return got.shape == want.shape and np.isclose(got, want, rtol=1e-12, atol=0, equal_nan=True).all()

    def judge(out, X, what, spec=spec):
        want = spec.value(X)
        sim.expect(isinstance(out, pd.DataFrame) and out.index.equals(X.index), "rows",
                   lambda: f"{what}: {type(out).__name__} with rows {getattr(out, 'index', None)} for the bars {X.index}"[:600])
        got = out.values.astype(float)
        sim.log_data(what, got)

        def why():
            if got.shape != want.shape:
                return f"shape {got.shape} instead of {want.shape}"
            r, c = map(int, np.argwhere(~np.isclose(got, want, rtol=1e-12, atol=0, equal_nan=True))[0])
            return f"row {r} column {c} is {got[r, c]} instead of {want[r, c]}"
        sim.expect(same(got, want), "columns", lambda: f"{what} of {spec.name}: {why()}")

    def pool(faulty):
        workers = sim.s.pick((1, 2, 3, 5))
        kind = sim.s.pick(("thread", "process"))
        faults = {}
        if faulty:
            if f.chance(25):
                faults[f.below(4)] = ("lost",)
            else:
                faults[f.below(4)] = (f.between(1, 25), f.pick(FAULT_KINDS))
        return workers, joblibsim.active(sim, workers, kind, faults=faults, coarse=sim.s.chance(40), numbered="sklearn")

    def attempt(what, fn, *data):
        """(done, result); a failure must be an injected one, and every injected one must arrive here."""
        copies = [None if d is None else d.copy() for d in data]
        faulty = f.chance(22)
        if f.chance(12) and "Brittle" in spec.name:
            Brittle.plan = f.below(3)
        before = PartError.count
        workers, p = pool(faulty)
        error = None
        with p as plan:
            try:
                out = fn()
            except BaseException as e:  # noqa
                if isinstance(e, (Violation, SystemExit)):
                    raise
                error = e
        raised = PartError.count > before
        Brittle.plan = None
        Recorder.fail = False
        for d, c in zip(data, copies):
            sim.expect(d is None or d.equals(c), "input modified", f"{what} modified what it was given")
        if error is None:
            sim.expect(not plan.fired and not raised, "failure swallowed", lambda: f"{what}: a part failed and no error arrived")
            return True, out, workers
        if not plan.fired and not raised:
            sim.call(what, _raise, error)
        if raised:
            sim.fault("failing part")
        sim.log(what, "failed:", type(error).__name__)
        return False, None, workers

    for tick in live(sim, bars, calls=w.between(2, 5)):
        X = tick.frame
        y = y_all.iloc[:tick.n]
        if tick.restarted:
            union = spec.build()
            fitted = not spec.learns
        op = w.pick(("transform", "fit_transform", "fit", "pipeline", "callers", "elsewhere", "revised", "gapped"))
        if op == "gapped" and tick.n < 3:
            op = "fit_transform"
        if op in ("transform", "callers", "elsewhere", "revised") and not fitted:
            op = "fit_transform"
        sim.schedule_event(op, tick.n)
        if op in ("fit", "fit_transform"):
            if op == "fit":
                done, _, workers = attempt("training", lambda: union.fit(X, y), X, y)
            else:
                done, out, workers = attempt("training and transformation", lambda: union.fit_transform(X, y), X, y)
            fitted = done or not spec.learns
            if done:
                spec.fit(X, y)
                if op == "fit_transform":
                    judge(out, X, "training and transformation")
                    many += len(spec.parts) > 1 and workers > 1
        elif op == "transform":
            done, out, workers = attempt("transformation", lambda: union.transform(X), X)
            if done:
                judge(out, X, "transformation")
                many += len(spec.parts) > 1 and workers > 1
        elif op == "revised":
            # the caller keeps one frame and corrects it in place
            Z = X.copy()
            if spec.learns and w.chance(50):
                spec.fit(Z, y)
                judge(sim.call("training and transformation", union.fit_transform, Z, y), Z, "training and transformation")
            else:
                how = union.fit_transform if not spec.learns and w.chance(50) else (lambda d, _: union.transform(d))
                judge(sim.call("transformation", how, Z, y), Z, "transformation")
            for _ in range(w.between(1, 2)):
                r = w.below(len(Z))
                Z.iloc[r] = Z.iloc[r] * w.pick((1.25, 0.5, 2.0))
                judge(sim.call("transformation", union.transform, Z), Z, "transformation of a frame corrected in place")
            sim.fault("frame corrected in place")
        elif op == "gapped":
            # the caller's frames miss one bar or the other
            rows = [np.delete(np.arange(tick.n), w.pick((0, 0, tick.n - 1, w.below(tick.n)))) for _ in range(2)]
            rows.append(np.delete(np.arange(tick.n), w.between(1, tick.n - 2)))
            A = X.iloc[rows[0]]
            spec.fit(A, y.iloc[rows[0]])
            judge(sim.call("training and transformation", union.fit_transform, A, y.iloc[rows[0]]), A, "training and transformation")
            fitted = True
            for r in w.np_random().permutation(3):
                judge(sim.call("transformation", union.transform, X.iloc[rows[r]]), X.iloc[rows[r]], "transformation of bars with a gap")
            sim.fault("bar missing from a frame")
        elif op == "callers":
            sch = Scheduler(sim)
            frames = [X, bars.iloc[: w.between(1, n)]]
            tasks = [sch.add(f"caller {i}", lambda d=d: union.transform(d)) for i, d in enumerate(frames)]
            sch.run()
            for t, d in zip(tasks, frames):
                if t.error is not None:
                    sim.call("transformation", _raise, t.error)
                judge(t.result, d, "transformation by one of two callers")
        elif op == "elsewhere":
            judge(fresh.ask(sim, "transformation", _remote, union, X), X, "transformation")
        else:
            weighted = w.chance(60)
            wt = weight_all.iloc[:tick.n] if weighted else None
            if w.chance(30):              # samples in another order than that of time
                order = w.np_random().permutation(tick.n)
                X, y = X.iloc[order], y.iloc[order]
                wt = None if wt is None else wt.iloc[order]
                sim.probe("rows in another order")
            wt = wt.values if weighted and w.chance(30) else wt
            pipe = MizarPipeline([("features", spec.build()), ("model", Recorder() if weighted or w.chance(50) else PlainRecorder())])
            model = copy.deepcopy(spec)
            whole = tick.frame, y_all.iloc[:tick.n], weight_all.iloc[:tick.n]
            takes_weights = type(pipe.named_steps["model"]) is Recorder
            for round_ in range(w.between(1, 3)):
                if round_ and w.chance(35):       # other samples, often as many
                    rows = np.sort(w.np_random().permutation(tick.n)[: max(1, tick.n - w.below(2))])
                    X, y, wt = (d.iloc[rows] for d in whole)
                    if not weighted:
                        wt = None
                if round_ and takes_weights and w.chance(50):
                    weighted = not weighted
                    wt = weight_all.loc[X.index] if weighted else None
                if f.chance(10):
                    Recorder.fail = True
                if weighted:
                    go = (lambda: pipe.fit(X, y, wt)) if w.chance(30) else (lambda: pipe.fit(X, y, sample_weight=wt))
                else:
                    go = lambda: pipe.fit(X, y)  # noqa
                done, _, workers = attempt("training of a pipeline", go, X, y)
                if not done:
                    continue
                model.fit(X, y)
                fx, fy, fw = pipe.named_steps["model"].seen_
                judge(fx, X, "features the model is trained on", model)
                sim.expect((fy == y.values).all(), "targets", lambda: f"the model is trained on the targets {fy}")
                sim.expect((fw is None) == (wt is None) and (wt is None or np.array_equal(fw, np.asarray(wt))), "weights",
                           lambda: f"the model is trained with the weights {fw} instead of {None if wt is None else np.asarray(wt)}")
                if f.chance(5):
                    vals = fresh.ask(sim, "prediction", _remote_predict, pipe, bars)
                else:
                    vals = sim.call("prediction", pipe.predict, bars)
                    sim.expect(same(pipe.named_steps["model"].last_, model.value(bars)), "features",
                               lambda: f"{spec.name}: the model predicts from other features than the ones of the bars")
                sim.expect(np.allclose(vals, np.nansum(model.value(bars), axis=1), rtol=1e-9, equal_nan=True), "predictions",
                           lambda: f"{spec.name}: predictions {vals[:5]}")
                sim.probe("pipelines trained")
    sim.nontrivial = many > 0
    sim.probe("outputs judged under several workers", many)


def _raise(e):
    raise e
