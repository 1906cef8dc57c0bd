"""Shared by the ensemble checks: data, configurations, what is observable of an ensemble."""
import numpy as np
import pandas as pd

from dst.market import make_index


def make_data(sim, n=None, features=None):
    """(X, y, spans, bars, weights or None)."""
    w = sim.w
    n = n or w.pick((14, 10, 20, 28))
    bars_n = n + w.pick((6, 0, 15))
    idx = make_index(sim, bars_n + 8, unit_ms=3600_000)
    rs = w.np_random()
    bars = pd.DataFrame({"close": 1.0 + rs.rand(bars_n + 8)}, index=idx)
    pos = np.sort(rs.choice(bars_n, size=n, replace=False))
    longest = w.pick((4, 1, 8))
    ends = np.minimum(pos + rs.randint(0, longest + 1, size=n), bars_n + 7)
    spans = pd.Series(idx[ends], index=idx[pos], name=w.pick(("event_end_time", "event_end_time", "t1")))
    k = features or w.pick((3, 1, 2, 5))
    X = pd.DataFrame(rs.randn(n, k), index=idx[pos], columns=[f"f{i}" for i in range(k)])
    classes = w.pick(((0, 1), (-1, 1), (-1, 0, 1), ("down", "up")))
    y = rs.choice(len(classes), size=n)
    y[: len(classes)] = np.arange(len(classes))
    y = pd.Series(np.array(classes)[y], index=idx[pos])
    weights = None
    if w.chance(40):
        weights = pd.Series(rs.rand(n) + 0.1, index=idx[pos])
    return X, y, spans, bars, weights


def make_config(sim, k, oob=True):
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.tree import DecisionTreeClassifier, ExtraTreeClassifier

    w = sim.w
    base = w.pick((None, "extra", "tree", "knn", "nb", "majority"))
    est = {
        None: None, "extra": ExtraTreeClassifier(max_depth=3), "tree": DecisionTreeClassifier(max_features=1, max_depth=3),
        "knn": KNeighborsClassifier(n_neighbors=1), "nb": GaussianNB(), "majority": Majority(),
    }[base]
    kw = dict(
        base_estimator=est,
        n_estimators=w.pick((4, 2, 3, 6, 1, 8)),
        max_samples=w.pick((1.0, 0.5, 6, 0.8)),
        max_features=w.pick((1.0, 1.0, 1, 0.7)) if k > 1 else 1.0,
        bootstrap_features=w.chance(30),
        oob_score=oob and w.chance(50),
        update_probs_every=w.pick((1, 1, 2, 3, 7, 50)),
        random_state=w.pick((0, 1, 42, 12345, 2 ** 31 - 1)) + w.below(1000) * (w.below(2)),
    )
    kw["random_state"] %= 2 ** 31
    return base, kw


def build(spans, bars, kw, **more):
    from mizarlabs.model.sequentially_bootstrapped_bagging_classifier import SequentiallyBootstrappedBaggingClassifier
    from sklearn.base import clone

    kw = dict(kw, **more)
    if spans.name != "event_end_time":
        kw["event_end_time_column_name"] = spans.name
    if kw.get("base_estimator") is not None:
        kw["base_estimator"] = clone(kw["base_estimator"])
    return SequentiallyBootstrappedBaggingClassifier(samples_info_sets=spans.copy(), price_bars=bars.copy(), **kw)


def observe(m, X):
    """Everything a user can see of a trained ensemble."""
    V = X.values
    out = {
        "samples": [np.asarray(s).tolist() for s in m.estimators_samples_],
        "features": [np.asarray(f).tolist() for f in m.estimators_features_],
        "members": [np.asarray(e.predict(V[:, f])).tolist() for e, f in zip(m.estimators_, m.estimators_features_)],
        "predict": np.asarray(m.predict(X)).tolist(),
        "classes": np.asarray(m.classes_).tolist(),
        "proba": np.asarray(m.predict_proba(X)),
    }
    if m.oob_score:
        out["oob_score"] = float(m.oob_score_)
        out["oob"] = np.asarray(m.oob_decision_function_)
    return out


def differs(a, b):
    """None or a description of the first difference.

    A tie between classes is broken by the rounding of the sum over jobs: those predictions do not count.
    """
    tie = []
    if "proba" in a:
        top = np.sort(np.asarray(a["proba"]), axis=1)
        tie = (top[:, -1] - top[:, -2] < 1e-9).tolist() if top.shape[1] > 1 else [False] * len(top)
    for k in a:
        if k not in b:
            return f"{k} is missing"
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or not np.allclose(a[k], b[k], rtol=1e-9, atol=1e-12, equal_nan=True):
                return f"{k}: {a[k].tolist()} / {b[k].tolist()}"[:500]
        elif k == "predict" and len(a[k]) == len(b[k]) == len(tie):
            for i, (x, z) in enumerate(zip(a[k], b[k])):
                if x != z and not tie[i]:
                    return f"predict[{i}]: {x} / {z}"
        elif a[k] != b[k] and not (isinstance(a[k], float) and np.isnan(a[k]) and np.isnan(b[k])):
            if isinstance(a[k], list) and len(a[k]) != len(b[k]):
                return f"{k}: {len(a[k])} and {len(b[k])} entries"
            if isinstance(a[k], list):
                i = [x == z for x, z in zip(a[k], b[k])].index(False)
                return f"{k}[{i}]: {a[k][i]} / {b[k][i]}"[:500]
            return f"{k}: {a[k]} / {b[k]}"[:500]
    return None


from sklearn.base import BaseEstimator, ClassifierMixin  # noqa


class Majority(ClassifierMixin, BaseEstimator):
    """Weighted vote of the classes with a random tie-break; no predict_proba."""

    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight)
        self.classes_, inv = np.unique(y, return_inverse=True)
        score = np.bincount(inv, weights=w, minlength=len(self.classes_))
        self.noise_ = np.random.RandomState(self.random_state).rand(len(self.classes_))
        self.best_ = self.classes_[np.argmax(score * (0.9 + 0.2 * self.noise_))]
        self.mean_ = np.average(X[:, 0], weights=w) if w.sum() > 0 else 0.0
        return self

    def predict(self, X):
        other = self.classes_[int(self.noise_[0] * len(self.classes_))]
        return np.where(np.asarray(X)[:, 0] > self.mean_, self.best_, other)
