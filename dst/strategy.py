"""Strategies under simulation: models and transformers with seeded failures, and the rule they must follow."""
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin

from dst.checks.c03 import discrete_options, signal
from dst.checks.c11 import align
from dst.core import close
from dst.market import MS, make_bars, make_index


TINY = 2.0 ** -34       # an exact change of unit


class ModelError(Exception):
    pass


class Model(ClassifierMixin, BaseEstimator):
    """A fitted classifier that is a fixed function of its features; can be told to fail."""

    def __init__(self, classes=(0, 1), seed=1):
        self.classes = classes
        self.seed = seed
        self.classes_ = np.array(classes)
        self.k = len(classes)
        if seed % 2:
            self.n_classes_ = self.k        # pipelines and many models do not have it
        self.fail = None
        self.scale = 1.0

    def fit(self, X, y, sample_weight=None):
        return self

    def _score(self, X):
        X = np.asarray(X, dtype=float) * self.scale
        if not np.isfinite(X).all():
            raise ValueError("the model was given incomplete features")
        w = np.cos(self.seed + np.arange(X.shape[1]))
        return np.floor(np.abs((X * w).sum(axis=1)) * 50 + self.seed) % 101

    def predict(self, X):
        if self.fail == "predict":
            raise ModelError("predict")
        s = self._score(X)
        return self.classes_[(s % self.k).astype(int)]

    def predict_proba(self, X):
        if self.fail == "predict_proba":
            raise ModelError("predict_proba")
        s = self._score(X)
        k = self.k
        p = 1.0 / k + (1 - 1.0 / k) * (1 + s) / 103.0
        out = np.empty((len(s), k))
        out[:] = ((1 - p) / (k - 1))[:, None]
        out[np.arange(len(s)), (s % k).astype(int)] = p
        return out


class Step(TransformerMixin, BaseEstimator):
    """A causal feature transformer; can be told to fail."""

    def __init__(self, kind="close", k=1):
        self.kind = kind
        self.k = k
        self.fail = False

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        if self.fail:
            raise ModelError("transform")
        return causal(self.kind, self.k, X)


def causal(kind, k, X):
    if kind == "raw":
        return X
    if kind == "close":
        return X[["close"]]
    if kind == "change":
        return X[["close", "volume"]].pct_change(k)
    if kind == "mean":
        return X[["close"]].rolling(k + 1).mean()
    if kind == "diff":
        return X[["close", "volume"]].diff(k)
    if kind == "gap":                       # undefined at some bars
        v = X["volume"].values.reshape(-1, 1)
        return X[["close"]].where(v > (30 if v.max() > 1e-3 else 30 * TINY))
    if kind == "union":                     # what a feature union returns
        return pd.DataFrame(np.column_stack([X["close"], X["volume"].rolling(k).mean()]), index=X.index)
    raise KeyError(kind)


class HalfSizer(TransformerMixin, BaseEstimator):
    """A bet sizer of the user's own."""

    def transform(self, X):
        size = X["prob"] * 0.5 + 0.25 * X["pred"].abs()
        if "side" in X:
            size = size * X["side"].abs()
        return size


class WildSizer(TransformerMixin, BaseEstimator):
    """A bet sizer that does not care about bounds."""

    def __init__(self, offset=1.4):
        self.offset = offset

    def transform(self, X):
        return 3 * X["prob"] - self.offset


class Strategy:
    """A pipeline, how it was configured, and its rule evaluated independently."""

    def __init__(self, sim, closing=None, wild=False):
        from sklearn.preprocessing import FunctionTransformer
        from mizarlabs.model.pipeline import MizarFeatureUnion, StrategySignalPipeline
        from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

        w = sim.w
        self.sim = sim
        self.names = ["lead", "other"] if w.chance(50) else ["lead"]
        self.how = {k: w.pick(("mean", "min", "max")) for k in self.names if k != "lead"}
        self.steps = []
        self.unit = TINY if w.chance(15) else 1.0
        kinds = ("close", "change" if self.unit == 1 else "diff", "mean", "gap", "raw")

        def transformer(name):
            kind = w.pick(kinds if name == "lead" else kinds[:3])
            k = w.between(1, 3)
            if kind == "raw" and w.chance(60):
                return None, (kind, k)
            if w.chance(15) and kind != "gap":
                u = MizarFeatureUnion([("a", FunctionTransformer(causal_close)), ("b", FunctionTransformer(causal_volume, kw_args={"k": k}))])
                return u, ("union", k)
            s = Step(kind, k)
            self.steps.append(s)
            return s, (kind, k)

        order = w.shuffled(self.names)
        self.primary = {n: transformer(n) for n in order}
        self.meta = None
        if w.chance(55):
            keys = w.subset(self.names, 60) or ["lead"]
            self.meta = {n: transformer(n) for n in w.shuffled(keys)}
        self.use_pred, self.use_proba = (w.pick(((True, True), (True, False), (False, True), (False, False))) if self.meta
                                         else (True, True))
        pc = w.pick(((-1, 1), (0, 1), (-1, 0, 1)))
        if wild and w.chance(40):
            pc = w.pick(((-2, 2), (-1, 2), (-1.5, 0, 1)))
        self.pmodel = Model(pc, w.between(1, 50))
        self.mmodel = Model(w.pick(((0.0, 1.0), (0, 1), (1.0, 0.0))), w.between(1, 50)) if self.meta else None
        for m in (self.pmodel, self.mmodel):
            if m is not None:
                m.scale = 1 / self.unit
        self.sizer, self.sizer_kw = None, None
        kind = w.below(4)
        if kind in (1, 2):
            ncls = 2 if self.meta else len(pc)
            step = w.pick((None, None, 0.1, 0.25))
            self.sizer_kw = dict(num_classes=ncls, meta_labeling=bool(self.meta), discretise=step is not None, step_size=step)
            self.sizer = BetSizingFromProbabilities(**self.sizer_kw)
        elif kind == 3:
            self.sizer = HalfSizer()
        if wild and w.chance(40):
            self.sizer, self.sizer_kw = WildSizer(w.pick((1.4, 1.7, 1.0))), None
        elif wild and self.sizer_kw and not set(pc) <= {-1, 0, 1}:
            self.sizer, self.sizer_kw = None, None      # the bet sizer refuses such sides
        self.pipe = StrategySignalPipeline(
            {n: t for n, (t, _) in self.primary.items()}, "lead", dict(self.how),
            {n: t for n, (t, _) in self.meta.items()} if self.meta else None,
            metalabeling_use_proba_primary_model=self.use_proba, metalabeling_use_predictions_primary_model=self.use_pred,
            bet_sizer=self.sizer, closing_positions_model=closing,
        )
        self.pipe.set_primary_model(self.pmodel)
        if self.meta:
            self.pipe.set_metalabeling_model(self.mmodel)

    def describe(self):
        return (f"primary {[(k, v[1]) for k, v in self.primary.items()]} classes {self.pmodel.classes}; "
                f"meta {[(k, v[1]) for k, v in self.meta.items()] if self.meta else None} "
                f"pred={self.use_pred} proba={self.use_proba}; sizer {type(self.sizer).__name__} {self.sizer_kw}; {self.how}")

    # -- data ----------------------------------------------------------------------------------
    def make_data(self, n, unit=None):
        sim, w = self.sim, self.sim.w
        lead = make_index(sim, n, unit_ms=unit)
        bars = make_bars(sim, lead, zero_volume=False)
        bars["volume"] = bars["base_asset_volume"]
        out = {"lead": bars[["close", "volume"]] if w.chance(50) else bars[["open", "close", "volume", "high", "low"]]}
        for name in self.names:
            if name == "lead":
                continue
            m = w.pick((n, 2 * n, max(2, n // 2)))
            rs = w.np_random()
            a, b = lead[0].value // MS, lead[-1].value // MS
            span = max(b - a, 1)
            t = a + ((rs.rand(m) * 1.2 - 0.1) * span).astype(np.int64)
            t = np.unique(np.append(t, a - span // 50 - 1))       # something is there from the beginning
            idx = pd.DatetimeIndex(t * MS)
            out[name] = pd.DataFrame({"close": 50 + rs.randn(len(t)).cumsum(), "volume": rs.gamma(2.0, 20.0, size=len(t))}, index=idx)
        if self.unit != 1:
            for v in out.values():
                v *= self.unit
            sim.probe("features of a tiny magnitude")
        return out

    @staticmethod
    def upto(data, m):
        """What is known when the m-th leading bar closes."""
        t = data["lead"].index[m - 1]
        return {k: (v.iloc[:m] if k == "lead" else v[v.index <= t]) for k, v in data.items()}

    # -- the rule ------------------------------------------------------------------------------
    def features(self, specs, data):
        lead = data["lead"].index
        cols = []
        for name, (_, (kind, k)) in specs.items():
            X = causal(kind, k, data[name])
            v = X.values.astype(float)
            cols.append(v if name == "lead" else align(lead.asi8, v, X.index.asi8, self.how[name])[0])
        return np.column_stack(cols)

    def rule(self, data):
        """dict: side, proba (per bar, NaN when undefined), options for the size per bar; 'may_fail'."""
        n = len(data["lead"])
        P = self.features(self.primary, data)
        ok = ~np.isnan(P).any(axis=1)
        side = np.full(n, np.nan)
        proba = np.full((n, len(self.pmodel.classes_)), np.nan)
        if ok.any():
            side[ok] = self.pmodel.predict(P[ok])
            proba[ok] = self.pmodel.predict_proba(P[ok])
        out = dict(ok=ok, side=side, proba=proba, may_fail=not ok.any(), P=P)
        if any(v.index[-1] < data["lead"].index[0] for v in data.values()):
            out["may_fail"] = True            # the feeds do not overlap: refused
        deciding, classes = proba, self.pmodel.classes_
        if self.meta:
            M = self.features(self.meta, data)
            mok = ~np.isnan(M).any(axis=1)
            if self.use_proba or self.use_pred:
                mok = mok & ok
            cols = [M]
            if self.use_pred:
                cols.append(side.reshape(-1, 1))
            if self.use_proba:
                cols.append(proba)
            M = np.column_stack(cols)
            out.update(M=M, mok=mok)
            if not mok.any():
                out["may_fail"] = True
            deciding = np.full((n, len(self.mmodel.classes_)), np.nan)
            mpred = np.full(n, np.nan)
            if mok.any():
                deciding[mok] = self.mmodel.predict_proba(M[mok])
                mpred[mok] = self.mmodel.predict(M[mok])
            classes = self.mmodel.classes_
            out.update(mproba=deciding, mpred=mpred)
        sizes = []
        for i in range(n):
            d = deciding[i]
            if np.isnan(d).any() or np.isnan(side[i]):
                sizes.append(None)
            elif self.sizer is None:
                sizes.append([d[list(classes).index(1)]] if self.meta else [d.max()])
            else:
                best = d.max()
                opts = []
                for c in [classes[j] for j in range(len(d)) if d[j] == best]:
                    if isinstance(self.sizer, WildSizer):
                        opts.append(3 * best - self.sizer.offset)
                    elif isinstance(self.sizer, HalfSizer):
                        opts.append(best * 0.5 + 0.25 * abs(c) if not self.meta else (best * 0.5 + 0.25 * abs(c)) * abs(side[i]))
                    else:
                        x = signal(best, c, self.sizer_kw["num_classes"]) * (side[i] if self.meta else 1)
                        st = self.sizer_kw["step_size"]
                        opts += [abs(o) for o in discrete_options(x, st)] if st else [abs(x)]
                sizes.append(opts)
        out["sizes"] = sizes
        return out

    def judge_signal(self, sim, got, data, rule, what):
        lead = data["lead"].index
        want = [i for i, s in enumerate(rule["sizes"]) if s is not None]
        sim.expect(isinstance(got, pd.DataFrame) and set(got.columns) == {"side", "size"}, "type", lambda: f"{what}: {got!r:.300}")
        sim.expect(list(got.index) == list(lead[want]), "signal bars",
                   lambda: f"{what}: signals for bars {[lead.get_loc(t) if t in lead else str(t) for t in got.index]}, expected {want}\n{self.describe()}")
        for i, (sd, sz) in zip(want, zip(got["side"].values.astype(float), got["size"].values.astype(float))):
            sim.expect(sd == rule["side"][i], "side", lambda: f"{what}: side of bar {i} is {sd}, the primary model says {rule['side'][i]}\n{self.describe()}")
            sim.expect(any(close(sz, o, rtol=1e-9, atol=1e-9).all() for o in rule["sizes"][i]), "size",
                       lambda: f"{what}: size of bar {i} is {sz}, the rule says {rule['sizes'][i]}\n{self.describe()}")
        sim.probe("signals judged", len(want))
        return want


def causal_close(X):
    return X[["close"]]


def causal_volume(X, k=1):
    return X[["volume"]].rolling(k).mean()


def frozen(data):
    return {k: v.copy() for k, v in data.items()}


def unmodified(sim, data, copies, what):
    for k, v in data.items():
        sim.expect(v.equals(copies[k]) and list(v.columns) == list(copies[k].columns) and v.index.equals(copies[k].index),
                   "input modified", lambda: f"{what} modified the frame {k}")
