"""C21: a search over pipelines and ensembles is the sum of trainings done alone."""
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin

from dst import fresh, joblibsim
from dst.bagging import Majority
from dst.core import Violation, terse
from dst.market import make_bars, make_index
from dst.purged import judge_groups, judge_split, nanos
from dst.sched import FAULT_KINDS

RUNS = {"quick": 450, "thorough": 8000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is a user's session of cross-validations, grid searches and random searches (over feature parameters, ensemble "
        "parameters and log-uniform variables) with the purged cross-validator, under simulated workers with failures raised at "
        "seeded lines and lost workers, repeated after failures; non-trivial: at least six scores under several workers were "
        "compared with trainings done alone")
REAL = ["mizarlabs.model (pipeline, ensemble, cross-validator, log-uniform variable)", "the bar features",
        "scikit-learn GridSearchCV, RandomizedSearchCV, cross_val_score, cross_val_predict", "joblib.Parallel front end", "pandas"]
STUB = ["joblib backend (simulated workers with injected failures)", "models that accept missing features",
        "another process is a fork made before any run"]
ASSUMPTIONS = ["integer seeds; scores agree within 1e-9", "with an error score, a training hit by a failure may have no score"]


def warmup(tier):
    import mizarlabs.model.pipeline  # noqa
    import mizarlabs.model.sequentially_bootstrapped_bagging_classifier  # noqa

    fresh.start()


class Nearest(ClassifierMixin, BaseEstimator):
    """Class means of features that may be missing; soft probabilities."""

    def __init__(self, temperature=1.0, random_state=None):
        self.temperature = temperature
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        X = np.nan_to_num(np.asarray(X, dtype=float), posinf=0.0, neginf=0.0)
        w = np.ones(len(X)) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        y = np.asarray(y)
        self.classes_ = np.unique(y)
        self.scale_ = np.abs(X).mean(axis=0) + 1e-12
        self.means_ = np.array([np.average(X[y == c] / self.scale_, axis=0, weights=w[y == c] + 1e-9) for c in self.classes_])
        self.jitter_ = 0.0 if self.random_state is None else np.random.RandomState(self.random_state).rand() * 0.01
        return self

    def predict_proba(self, X):
        X = np.nan_to_num(np.asarray(X, dtype=float), posinf=0.0, neginf=0.0) / self.scale_
        d = np.abs(X[:, None, :] - self.means_[None]).sum(axis=2) + self.jitter_
        d = np.minimum(d, 50.0)
        e = np.exp(-self.temperature * (d - d.min(axis=1, keepdims=True)))
        return e / e.sum(axis=1, keepdims=True)

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]


class Level(TransformerMixin, BaseEstimator):
    """Learns from the bars it is trained on."""

    def __init__(self, q=0.5):
        self.q = q

    def fit(self, X, y=None):
        self.level_ = float(np.quantile(X["close"].values, self.q))
        return self

    def transform(self, X):
        return (X[["close"]] / self.level_).values


def part_kinds():
    """name -> (constructor, {parameter: values})"""
    from mizarlabs.transformers.features.custom import LocalMaxToCloseRatio
    from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformer, high_to_low_ratio
    from mizarlabs.transformers.microstructural_features import first_generation as g1, second_generation as g2
    from mizarlabs.transformers.microstructural_features.vpin import VPIN
    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.moving_average import ExponentialWeightedMovingAverageDifference, MovingAverageCrossOver
    from mizarlabs.transformers.technical.volume import BuySellImbalance

    W = dict(window=(2, 3, 5))
    col = ("close", "open")
    hl = dict(high_column_name=("high", "close"), low_column_name=("low", "open"))
    vol = ("quote_asset_volume", "quote_asset_buy_volume")
    return [
        (g1.RollMeasure, dict(W, close_column_name=col)),
        (g1.RollImpact, dict(W, close_column_name=col, quote_asset_volume_column_name=vol)),
        (g1.ParkinsonVolatility, dict(W, **hl)),
        (g1.CorwinSchultzSpread, dict(W, high_column_name=("high",))),
        (g1.BeckersParkinsonVolatility, dict(W, low_column_name=("low",))),
        (g2.KyleLambda, dict(W, close_column_name=col, base_asset_volume_column_name=("base_asset_volume", "base_asset_buy_volume"))),
        (g2.AmihudLambda, dict(W, close_column_name=col, quote_asset_volume_column_name=vol)),
        (g2.HasbrouckLambda, dict(W, close_column_name=col, quote_asset_volume_column_name=vol)),
        (VPIN, dict(W, base_asset_volume_column_name=("base_asset_volume", "quote_asset_volume"))),
        (LocalMaxToCloseRatio, W),
        (RollingZScoreTransformer, dict(window=(3, 4), to_series_func=(high_to_low_ratio, close_of))),
        (MovingAverageCrossOver, dict(fast=(1, 2, 3), slow=(3, 5), column_name=col, fill_between_crossovers=(True, False))),
        (ExponentialWeightedMovingAverageDifference, dict(fast=(1, 2, 3), slow=(3, 5), column_name=col, normalised=(True, False))),
        (MACDHistogramCrossOver, dict(fast_period=(2, 3), slow_period=(3, 4), signal_period=(2, 3), column_name=col)),
        (BuySellImbalance, dict(fast=(1, 2), slow=(2, 4), volume_type=("quote", "base"))),
        (Level, dict(q=(0.5, 0.25))),
    ]


def close_of(X):
    return X["close"]


# what a user searches over: a recipe can be built from nothing with any candidate's values ------------
class Recipe:
    """A model (ensemble or simple one) on features, plain or as a pipeline."""

    def __init__(self, sim, spans, price_bars):
        w = sim.w
        self.spans, self.price_bars = spans, price_bars
        self.kind = w.pick(("pipeline ensemble", "pipeline", "pipeline", "ensemble"))
        self.parts = []
        self.space = {}
        kinds = part_kinds()
        if "pipeline" in self.kind:
            for i in range(w.between(1, 3)):
                cls, space = w.pick(kinds)
                self.parts.append([f"p{i}", cls, {k: w.pick(v) for k, v in space.items()}])
                for k, v in space.items():
                    if len(v) > 1 and w.chance(40):
                        self.space[f"features__p{i}__{k}"] = list(v)
        base = w.pick((Nearest(), Nearest(2.0), Majority())) if "ensemble" not in self.kind or w.chance(60) else Nearest(0.5)
        if "ensemble" in self.kind:
            self.model = dict(base_estimator=base, n_estimators=w.pick((2, 1, 3)), max_samples=w.pick((1.0, 0.5)),
                              max_features=w.pick((1.0, 0.6)), random_state=w.below(1000), bootstrap_features=w.chance(20),
                              update_probs_every=w.pick((1, 3)), n_jobs=w.pick((None, 2)))
            options = dict(n_estimators=[1, 2, 3], max_features=[1.0, 0.6], max_samples=[1.0, 0.5], random_state=[0, 1, 7],
                           update_probs_every=[1, 2, 20])
            if isinstance(base, Nearest):
                options["base_estimator__temperature"] = [0.1, 1.0, 4.0]
            if w.chance(40):
                # the same events held longer
                bars = price_bars.index
                longer = bars[np.minimum(bars.get_indexer(spans) + w.pick((2, 5)), len(bars) - 1)]
                options["samples_info_sets"] = [spans.copy(), pd.Series(longer, index=spans.index, name=spans.name)]
        else:
            if isinstance(base, Majority):
                base = Nearest()
            self.model = dict(temperature=base.temperature)
            options = dict(temperature=[0.1, 1.0, 4.0])
        self.ratio = "temperature" if "temperature" in options else "base_estimator__temperature" if "base_estimator__temperature" in options else None
        prefix = "model__" if self.parts else ""
        for k, v in options.items():
            if w.chance(45):
                self.space[prefix + k] = v
        if not self.space:
            k = w.pick(sorted(options))
            self.space[prefix + k] = options[k]
        self.prefix = prefix
        self.union_jobs = w.pick((None, None, 2))

    def make_part(self, cls, kw):
        return cls(**kw)

    def build(self, values=(), rows=None):
        """From constructors only; `values` as scikit-learn names them. An ensemble may know the spans of some rows only."""
        from mizarlabs.model.pipeline import MizarFeatureUnion, MizarPipeline
        from mizarlabs.model.sequentially_bootstrapped_bagging_classifier import SequentiallyBootstrappedBaggingClassifier

        values = dict(values)
        model = dict(self.model)
        parts = [[n, c, dict(kw)] for n, c, kw in self.parts]
        for name, v in values.items():
            if name.startswith("features__"):
                _, part, key = name.split("__")
                next(p for p in parts if p[0] == part)[2][key] = v
            else:
                key = name[len(self.prefix):]
                if key == "base_estimator__temperature":
                    model["base_estimator"] = Nearest(v)
                else:
                    model[key] = v
        if "ensemble" in self.kind:
            base = model.pop("base_estimator")
            spans = model.pop("samples_info_sets", self.spans)
            final = SequentiallyBootstrappedBaggingClassifier(samples_info_sets=spans.copy() if rows is None else spans.iloc[rows],
                                                              price_bars=self.price_bars.copy(), base_estimator=type(base)(**base.get_params()), **model)
        else:
            final = Nearest(**model)
        made = [(n, self.make_part(c, kw)) for n, c, kw in parts]
        if not parts:
            return Alone([], final), final
        union = MizarFeatureUnion([(n, p) for n, p in made], n_jobs=self.union_jobs)
        return (Alone([self.make_part(c, kw) for _, c, kw in parts], final),
                MizarPipeline([("features", union), ("model", final)]))


class Alone:
    """Parts trained one by one, put side by side, then the model."""

    def __init__(self, parts, model):
        self.parts, self.model = parts, model

    def features(self, X):
        if not self.parts:
            return X
        return pd.DataFrame(np.column_stack([np.asarray(p.transform(X), dtype=float) for p in self.parts]), index=X.index)

    def fit(self, X, y, sample_weight=None):
        for p in self.parts:
            p.fit(X, y)
        kw = {} if sample_weight is None else dict(sample_weight=sample_weight)
        self.model.fit(self.features(X), y, **kw)
        return self

    def predict_proba(self, X):
        return self.model.predict_proba(self.features(X))

    def predict(self, X):
        return self.model.predict(self.features(X))


def score(est, X, y):
    """Sees every probability of every row."""
    P = np.asarray(est.predict_proba(X), dtype=float)
    rows = 1.0 + np.cos(np.arange(len(X)))
    cols = 1.0 + np.arange(P.shape[1])
    return float((P * rows[:, None] * cols[None, :]).sum() / len(X))


def _remote(model, X):
    return np.asarray(model.predict_proba(X), dtype=float)


def run(sim):
    from sklearn.model_selection import (GridSearchCV, ParameterSampler, RandomizedSearchCV, cross_val_predict, cross_val_score)
    from mizarlabs.model.model_selection import CombPurgedKFoldCV, log_uniform

    w, f = sim.w, sim.f
    n = w.pick((24, 18, 30, 40))
    index = make_index(sim, n + 10, unit_ms=3600_000, irregular=w.below(2))
    bars = make_bars(sim, index)
    rs = w.np_random()
    ends = np.minimum(np.arange(n) + rs.randint(0, w.pick((2, 4)), size=n), n + 9)
    spans = pd.Series(index[ends], index=index[:n], name="event_end_time")
    recipe = Recipe(sim, spans, bars[["close"]])
    if recipe.parts:
        X = bars.iloc[:n].copy()
    else:
        X = pd.DataFrame(rs.randn(n, 3), index=index[:n], columns=["a", "b", "c"])
    y = pd.Series(np.array(w.pick(((0, 1), (-1, 1), (-1, 0, 1))))[rs.permutation(n) % w.pick((2, 2, 3)) % 2], index=X.index)
    weights = pd.Series(np.round(rs.rand(n), 3) + 0.1, index=X.index) if w.chance(35) else None
    g = w.pick((3, 4))
    k = w.pick((1, 2))
    embargo = pd.Timedelta(hours=w.pick((0, 1, 2)))

    def make_cv():
        return CombPurgedKFoldCV(n_groups=g, n_test_splits=k, pred_times=pd.Series(X.index, index=X.index), eval_times=spans.copy(),
                                 embargo_td=embargo)

    splits = [(np.asarray(a), np.asarray(b)) for a, b in sim.call("splits", lambda: list(make_cv().split(X)))]
    judge_groups(sim, [b for _, b in splits], n, g, k, "cross-validator")
    for a, b in splits:
        judge_split(sim, a, b, nanos(X.index), nanos(spans.values), embargo.value, "cross-validator")
    if any(len(a) < 6 or y.iloc[a].nunique() < y.nunique() for a, _ in splits):
        sim.probe("too little to train on")
        return
    sim.log("recipe", recipe.kind, [(p[0], p[1].__name__, sorted(map(str, p[2].items()))) for p in recipe.parts],
            sorted(map(str, recipe.space.items())), "rows", n, "splits", len(splits), "weighted" if weights is not None else "")

    known = {}

    def alone(values, rows=None):
        """A training from constructors on some rows only."""
        key = (tuple(sorted((a, repr(b)) for a, b in values.items())), None if rows is None else tuple(rows))
        if key not in known:
            ref, _ = recipe.build(values, rows)
            a = np.arange(n) if rows is None else rows
            known[key] = ref.fit(X.iloc[a], y.iloc[a], None if weights is None else weights.iloc[a])
        return known[key]

    def valid(values):
        try:
            recipe.build(values)
            return True
        except ValueError:
            return False                                     # a fast average slower than the slow one

    _, user_model = recipe.build()
    cv = make_cv()
    x0, y0 = X.copy(), y.copy()
    w0 = None if weights is None else weights.copy()
    params0 = {a: repr(b) for a, b in sim.call("parameters", user_model.get_params).items()}
    fit_kw = {} if weights is None else dict(sample_weight=weights)
    compared = 0

    for _ in range(w.between(1, 3)):
        op = w.pick(("grid", "random", "score", "predict") if k == 1 else ("grid", "random", "score"))
        error_score = w.pick(("raise", "raise", np.nan)) if op in ("grid", "random", "score") else "raise"
        space, seed, expected = dict(recipe.space), w.below(1000), None
        if op in ("grid", "random"):
            while np.prod([len(v) for v in space.values()]) > (6 if op == "grid" else 10 ** 9):
                space.pop(w.pick(sorted(space)))
            if op == "grid":
                space = {a: w.subset(v, 60) or v[:1] for a, v in space.items()}
                combos = [{}]
                for a in sorted(space):
                    combos = [dict(c, **{a: v}) for c in combos for v in space[a]]
                if not all(valid(c) for c in combos):
                    continue
                search = GridSearchCV(user_model, space, scoring=score, cv=cv, error_score=error_score)
            else:
                rng = None
                if recipe.ratio:
                    rng = w.pick(((0.01, 10.0), (0.5, 2.0)))

                def dists():
                    d = {a: list(v) for a, v in space.items()}
                    if rng:
                        d[recipe.prefix + recipe.ratio] = log_uniform(*rng)
                    return d
                iters = w.between(1, 4)
                if np.prod([len(v) for v in space.values()]) <= iters and not rng:
                    continue
                expected = sim.call("candidates", lambda: list(ParameterSampler(dists(), iters, random_state=seed)))
                if not all(valid(c) for c in expected):
                    continue
                search = RandomizedSearchCV(user_model, dists(), n_iter=iters, random_state=seed, scoring=score, cv=cv,
                                            error_score=error_score)
                if rng:
                    for c in expected:
                        sim.expect(rng[0] <= c[recipe.prefix + recipe.ratio] <= rng[1], "range", lambda: f"{c} for the range {rng}")
                    sim.probe("log-uniform candidates", len(expected))
        for attempt in range(3):
            workers = sim.s.pick((2, 3, 1, 5))
            kind = sim.s.pick(("thread", "process", "thread"))
            faults = {}
            if attempt < 2 and f.chance(35):
                t = f.below(len(splits) * 2)
                faults[t] = ("lost",) if f.chance(25) else (f.between(1, 40), f.pick(FAULT_KINDS))
            noise = None
            if sim.s.chance(30):
                noise = lambda: np.random.rand(3)  # noqa
            error, out = None, None
            with joblibsim.active(sim, workers, kind, faults=faults, coarse=sim.s.chance(25), numbered="sklearn", noise=noise) as plan:
                jobs = sim.s.pick((workers, -1, None))
                try:
                    if op in ("grid", "random"):
                        search.set_params(n_jobs=jobs)
                        search.fit(X, y, **fit_kw)
                    elif op == "score":
                        out = cross_val_score(user_model, X, y, cv=cv, scoring=score, n_jobs=jobs, fit_params=fit_kw or None,
                                              error_score=error_score)
                    else:
                        out = cross_val_predict(user_model, X, y, cv=cv, n_jobs=jobs, fit_params=fit_kw or None)
                except BaseException as e:  # noqa
                    if isinstance(e, (Violation, SystemExit)):
                        raise
                    error = e
            what = f"{op} with {workers} {kind} workers"
            sim.log(what, "faults", sorted(plan.fired), "error", type(error).__name__)
            sim.expect(X.equals(x0) and y.equals(y0) and (weights is None or weights.equals(w0)), "data modified",
                       f"{what} modified the data")
            now = {a: repr(b) for a, b in user_model.get_params().items()}
            sim.expect(now == params0 and not hasattr(user_model, "estimators_"), "model modified",
                       lambda: f"{what} changed the model it was given")
            if error is not None:
                if not plan.fired:
                    sim.call(what, _raise, error)
                continue
            soft = op in ("grid", "random", "score") and error_score != "raise"
            sim.expect(not plan.fired or soft, "failure swallowed", lambda: f"{what}: a training failed and no error arrived")
            compared += judge(sim, op, what, search if op in ("grid", "random") else None, out, splits, alone, X, y,
                              len(plan.fired) if soft else 0, expected, workers)
            break
    sim.nontrivial = compared >= 6
    sim.probe("scores compared", compared)


def judge(sim, op, what, search, out, splits, alone, X, y, excused, expected, workers):
    """Number of scores compared."""
    def near(a, b):
        return np.isclose(a, b, rtol=1e-9, atol=1e-9)

    many = 0
    missing = 0
    if op == "predict":
        out = np.asarray(out)
        sim.expect(out.shape == (len(X),), "out-of-sample prediction", lambda: f"{what}: {out.shape} predictions for {len(X)} rows")
        for a, b in splits:
            ref = alone({}, a)
            top = np.sort(ref.predict_proba(X.iloc[b]), axis=1)
            clear = top[:, -1] - top[:, -2] > 1e-9 if top.shape[1] > 1 else np.ones(len(b), bool)
            sim.expect((out[b] == ref.predict(X.iloc[b]))[clear].all(), "out-of-sample prediction",
                       lambda: f"{what}: rows {b.tolist()} are not predicted by the model trained on the train set of their split")
        return len(splits) * (workers > 1)
    if op == "score":
        table = [({}, out)]
    else:
        res = search.cv_results_
        table = [(p, [res[f"split{i}_test_score"][c] for i in range(len(splits))]) for c, p in enumerate(res["params"])]
        if expected is not None:
            sim.expect([repr(sorted(p.items())) for p, _ in table] == [repr(sorted(p.items())) for p in expected], "candidates",
                       lambda: f"{what}: candidates {[p for p, _ in table]} instead of {expected}")
    for p, scores in table:
        sim.expect(len(scores) == len(splits), "scores", lambda: f"{what}: {len(scores)} scores for {len(splits)} splits")
        for (a, b), s in zip(splits, scores):
            if np.isnan(s) and missing < excused:
                missing += 1
                continue
            want = score(alone(p, a), X.iloc[b], y.iloc[b])
            sim.expect(bool(near(s, want)), "score", lambda: f"{what}: candidate {p} tested on {b.tolist()} scores {s!r}, trained alone "
                                                             f"on {a.tolist()} it scores {want!r}")
            many += workers > 1
    if search is not None:
        best = search.best_params_
        want = alone(best).predict_proba(X)
        got = np.asarray(sim.call("prediction of the best model", search.predict_proba, X))
        sim.expect(got.shape == want.shape and near(got, want).all(), "best model",
                   lambda: f"{what}: the model kept for {best} is not the one trained alone on everything")
        means = [np.mean(s) for _, s in table]
        if not any(np.isnan(m) for m in means):
            sim.expect(bool(near(max(means), search.best_score_)), "best model", lambda: f"{what}: {best} is not the best of {means}")
        if sim.f.chance(8):
            got = fresh.ask(sim, "prediction", _remote, search.best_estimator_, X)
            sim.expect(near(got, want).all(), "best model", f"{what}: the best model differs in another process")
    sim.log_data(what, [list(map(float, s)) for _, s in table])
    return many


def _raise(e):
    raise e
