"""C18: every bar feature and rule-based signal is the online estimator it is named after."""
import math
from types import SimpleNamespace

import numpy as np
import pandas as pd

from dst import estimators as est
from dst.core import size, terse
from dst.live import live
from dst.market import make_bars, make_index, make_prices
from dst.sched import FAULT_KINDS, LineFault

RUNS = {"quick": 6000, "thorough": 100000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one feature or signal computed by a live process on the bars received so far (delayed, stalled, lost and "
        "re-sent, duplicated), after crashes that truncate the history, interrupted calls and uses for other instruments, "
        "each value against a small estimator that is fed the same bars one at a time; non-trivial: at least ten values "
        "that are not missing were compared")
REAL = ["mizarlabs.transformers.microstructural_features", "mizarlabs.transformers.features", "mizarlabs.transformers.technical",
        "mizarlabs.transformers.targets.labeling.get_daily_vol", "pandas", "numpy", "TA-lib (also trusted for EMA, RSI and MACD)"]
STUB = ["bar transport, clock and process (simulated)"]
ASSUMPTIONS = ["unique increasing times, positive prices, high > low or equal, non-negative volumes with total = buy + sell",
               "values agree up to the rounding of rolling sums; ratios of zeros, near-zero spreads of z-scores and thresholds "
               "met within rounding are left open"]


def warmup(tier):
    from dst.core import Sim

    feature(Sim(seed="warm"))


class F:
    def __init__(self, name, make, reference, names=(), predict=False, daily=False):
        self.name, self.make, self.reference, self.names, self.predict, self.daily = name, make, reference, names, predict, daily

    def value(self, t, X):
        if self.daily:
            s = t(X["close"])
            return s.reindex(X.index).values.astype(float), s.index
        if self.predict:
            p = t.predict(X)
            if isinstance(p, pd.Series):
                p = p.reindex(X.index)
            return np.asarray(p, dtype=float).reshape(-1), None
        return np.asarray(t.transform(X), dtype=float).reshape(len(X), -1)[:, 0], None

    def proba(self, t, X):
        return np.asarray(t.predict_proba(X), dtype=float), [float(c) for c in t.classes_], int(t.n_classes_)


def feature(sim):
    from mizarlabs.transformers.features.custom import LocalMaxToCloseRatio
    from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformer, RollingZScoreTransformerFactory
    from mizarlabs.transformers.microstructural_features import first_generation as g1, second_generation as g2
    from mizarlabs.transformers.microstructural_features.vpin import VPIN
    from mizarlabs.transformers.targets.labeling import get_daily_vol
    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
    from mizarlabs.transformers.technical.moving_average import (
        ExponentialWeightedMovingAverageDifference, MovingAverageCrossOver, MovingAverageCrossOverPredictor)
    from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation
    from mizarlabs.transformers.technical.volume import BuySellImbalance

    w = sim.w
    n = w.pick((5, 2, 3, 8, 13, 20))
    fast = w.pick((3, 1, 2, 4, 5))
    slow = fast + w.pick((4, 0, 1, 2, 10))
    own = w.chance(30)                                # other column names than the defaults

    def cols(**kw):
        return {k: "my_" + v for k, v in kw.items()} if own else {}

    def names(**kw):
        return [v for v in kw.values()] if own else []

    kind = w.below(20)
    c, v, q = (dict(close_column_name="close"), dict(base_asset_volume_column_name="base_asset_volume"),
               dict(quote_asset_volume_column_name="quote_asset_volume"))
    hl = dict(high_column_name="high", low_column_name="low")
    vp = dict(v, base_asset_buy_volume_column_name="base_asset_buy_volume",
              base_asset_sell_volume_column_name="base_asset_sell_volume")
    table = [
        ("RollMeasure", g1.RollMeasure, c, lambda: est.Roll(n)),
        ("RollImpact", g1.RollImpact, {**c, **q}, lambda: est.Roll(n, True)),
        ("ParkinsonVolatility", g1.ParkinsonVolatility, hl, lambda: est.Parkinson(n)),
        ("CorwinSchultzSpread", g1.CorwinSchultzSpread, hl, lambda: est.CorwinSchultz(n)),
        ("BeckersParkinsonVolatility", g1.BeckersParkinsonVolatility, hl, lambda: est.BeckersParkinson(n)),
        ("KyleLambda", g2.KyleLambda, {**c, **v}, lambda: est.Impact(n, "kyle")),
        ("AmihudLambda", g2.AmihudLambda, {**c, **q}, lambda: est.Impact(n, "amihud")),
        ("HasbrouckLambda", g2.HasbrouckLambda, {**c, **q}, lambda: est.Impact(n, "hasbrouck")),
        ("VPIN", VPIN, vp, lambda: est.Vpin(n)),
    ]
    if kind < len(table):
        name, cls, columns, ref = table[kind]
        args = terse(sim, dict(window=n), dict(window=20))
        return F(f"{name}({n})", lambda: cls(**args, **cols(**columns)), ref, names(**columns))
    if kind == 9:
        m = max(3, n)
        key = w.pick(("buy_sell_diff", "bar_arrival_time", "average_buy_size", "high_to_low_ratio", "own"))
        if key == "own":
            return F(f"RollingZScore own ({m})", lambda: RollingZScoreTransformer(m, lambda X: X["close"] - X["open"]),
                     lambda: est.ZScore(m, key))
        return F(f"RollingZScore {key} ({m})", lambda: RollingZScoreTransformerFactory.get_transformer(key, m), lambda: est.ZScore(m, key))
    col = "my_close" if own else "close"
    nm = ["close"] if own else []
    if kind in (10, 11):
        fill = w.chance(50)
        args = terse(sim, dict(fill_between_crossovers=fill), dict(fill_between_crossovers=False))
        cls = MovingAverageCrossOver if kind == 10 else MovingAverageCrossOverPredictor
        return F(f"{cls.__name__}({fast}, {slow}, fill={fill})", lambda: cls(fast, slow, col, **args),
                 lambda: est.CrossOver(fast, slow, fill), nm, predict=kind == 11)
    if kind == 12:
        norm = w.chance(60)
        args = terse(sim, dict(normalised=norm), dict(normalised=True))
        return F(f"EWMADifference({fast}, {slow}, {norm})", lambda: ExponentialWeightedMovingAverageDifference(fast, slow, col, **args),
                 lambda: est.EwmaDiff(fast, slow, norm), nm)
    if kind == 13:
        p = (fast + 1, slow + 2, max(2, n // 2)) if w.chance(75) else (12, 26, 9)
        args = terse(sim, dict(zip(("fast_period", "slow_period", "signal_period"), p)),
                     dict(fast_period=12, slow_period=26, signal_period=9))
        args.update(terse(sim, dict(column_name=col), dict(column_name="close")))
        return F(f"MACDHistogramCrossOver{p}", lambda: MACDHistogramCrossOver(**args), lambda: est.Macd(*p), nm)
    if kind == 14:
        thr = w.pick((0.002, 0.0, 0.01))
        return F(f"MeanReversionStrategy({thr}, {n})", lambda: MeanReversionStrategy(thr, n), lambda: est.MeanReversion(thr, n), predict=True)
    if kind == 15:
        kw = dict(rsi_upper_threshold=w.pick((70, 55, 101, 100)), rsi_lower_threshold=w.pick((30, 45, -1, 0)),
                  bar_arrival_upper_threshold=w.pick((0.5, 10.0, 0.05)), bar_arrival_lower_threshold=w.pick((-0.5, -10.0, -0.05)),
                  rsi_timeperiod=max(2, n), bar_arrival_fast_period=fast, bar_arrival_slow_period=slow,
                  max_bar_arrival_mean_diff=w.pick((10 ** 12, 10 ** 9, 10 ** 14)))
        return F(f"BarArrivalRSIStrategy({kw})", lambda: BarArrivalRSIStrategy(**kw), lambda: est.BarArrivalRsi(kw), predict=True)
    if kind == 16:
        kw = dict(rsi_timeperiod=max(2, n), rsi_threshold=w.pick((50, 35, 65, 101, 100)), rsi_confirmation_period=w.pick((2, 1, 4)),
                  rsi_moving_average_window=w.pick((2, 1, 4)))
        return F(f"RSIConfirmation({kw})", lambda: RSIConfirmation(**kw), lambda: est.RsiConfirm(kw), predict=True)
    if kind == 17:
        vt = w.pick(("quote", "base"))
        return F(f"BuySellImbalance({fast}, {slow}, {vt})", lambda: BuySellImbalance(fast, slow, vt), lambda: est.Imbalance(fast, slow, vt))
    if kind == 18:
        return F(f"LocalMaxToCloseRatio({n})", lambda: LocalMaxToCloseRatio(n), lambda: est.LocalMax(n))
    span = w.pick((100, 5, 20))
    args = terse(sim, dict(ewm_span=span), dict(ewm_span=100))
    return F(f"daily volatility({span})", lambda: (lambda close: get_daily_vol(close, **args)), lambda: est.DailyVol(span), daily=True)


def feed(f, frame):
    """The reference, one bar at a time."""
    e = f.reference()
    fields = list(frame.columns)
    out = []
    for t, row in zip(frame.index.asi8, frame.values):
        out.append(e.add(SimpleNamespace(time=int(t), **dict(zip(fields, (float(x) for x in row))))))
    return out


def judge_proba(sim, f, proba, classes, count, got, X):
    """Everything on the predicted class."""
    sim.expect(count == len(classes) == len(set(classes)) and proba.shape == (len(X), count), "classes",
               lambda: f"{f.name}: {count} classes {classes}, probabilities of shape {proba.shape} for {len(X)} bars")
    known = ~np.isnan(got)                                  # the first bar may have no arrival time
    sim.expect(np.isin(got[known], classes).all(), "classes",
               lambda: f"{f.name}: predicts {sorted(set(got[known].tolist()))}, its classes are {classes}")
    if known.all():
        want = (got[:, None] == np.asarray(classes)[None, :]).astype(float)
        sim.expect(np.array_equal(proba, want), "probabilities",
                   lambda: f"{f.name}: predicts {got.tolist()}, its probabilities for {classes} are {proba.tolist()}")


def run(sim):
    w = sim.w
    f = feature(sim)
    n = size(sim, (40, 25, 60, 12, 110, 3, 1), (600, 1100))
    unit = None
    if f.daily:
        n = size(sim, (60, 30, 110), (600, 1100))
        unit = w.pick((3 * 3600_000, 7 * 3600_000, 86_400_000, 3600_000))
    index = make_index(sim, n, unit_ms=unit)
    prices = make_prices(sim, n, None if w.chance(70) else "grid")
    if w.chance(12):                                        # a market that only goes one way
        prices = np.sort(prices)[::w.pick((1, -1))]
        sim.probe("one-way market")
    frame = make_bars(sim, index, prices)
    if w.chance(25):                                        # whole volumes and silent stretches
        rs = w.np_random()
        for side in ("buy", "sell"):
            frame[f"base_asset_{side}_volume"] = np.round(frame[f"base_asset_{side}_volume"])
        a = rs.randint(0, n)
        frame.iloc[a:a + rs.randint(1, 30), [frame.columns.get_loc(x) for x in ("base_asset_buy_volume", "base_asset_sell_volume")]] = 0.0
        for x in ("buy", "sell"):
            frame[f"quote_asset_{x}_volume"] = frame[f"base_asset_{x}_volume"] * frame["close"]
        for x in ("base", "quote"):
            frame[f"{x}_asset_volume"] = frame[f"{x}_asset_buy_volume"] + frame[f"{x}_asset_sell_volume"]
        sim.probe("stretch without volume")
    if w.chance(10):                                        # bars without a range
        rs = w.np_random()
        flat = rs.rand(n) < 0.3
        for x in ("open", "high", "low"):
            frame.loc[flat, x] = frame.loc[flat, "close"]
    if w.chance(10) and "ZScore" not in f.name:             # bars with a very wide range
        rs = w.np_random()
        wide = np.exp(np.minimum(rs.gamma(1.0, 1.0, size=n), 3.0) * (rs.rand(n) < w.pick((0.3, 1.0))))
        frame["high"] *= wide
        frame["low"] /= wide
        sim.probe("wide bars")
    want = feed(f, frame)
    given = frame.rename(columns={x: "my_" + x for x in f.names})
    if w.chance(12):
        given = given.tz_localize("UTC")
    if f.names and w.chance(50):                            # the default names belong to something else
        for x in f.names:
            given[x] = 1.0
        sim.probe("decoy columns")
    g0 = given.copy()
    sim.log("feature", f.name, "bars", n, "columns", f.names)
    t = f.make()
    lf = LineFault(sim)
    compared = 0

    def judge(got, rows, want, X, first):
        nonlocal compared
        sim.expect(len(got) == len(want), "rows", lambda: f"{f.name}: {len(got)} values for {len(want)} bars")
        if f.daily:
            idx = rows
            sim.expect(idx.is_unique and idx.is_monotonic_increasing and idx.isin(X.index).all(), "rows",
                       lambda: f"{f.name}: rows that are not bars")
        for i, (g, (v, slack)) in enumerate(zip(got, want)):
            if v is None:
                continue
            ok = (math.isnan(g) or math.isinf(g)) if math.isnan(v) else abs(g - v) <= slack + 1e-8 * abs(v)
            sim.expect(ok, "value", lambda: f"{f.name}: bar {first + i} (history from bar {first}, {len(want)} bars) is {g!r}, "
                                            f"the estimator fed bar by bar gives {v!r}")
            if not math.isnan(v):
                compared += 1

    for tick in live(sim, given, calls=w.between(2, 4)):
        if tick.restarted:
            t = f.make()
        if sim.f.chance(12):
            f0 = tick.frame.copy()
            at, kind = sim.f.between(1, 40), sim.f.pick(FAULT_KINDS)
            try:
                lf.run(lambda: f.value(t, tick.frame), at, kind)
            except BaseException:  # noqa
                if not lf.fired:
                    raise
            sim.expect(tick.frame.equals(f0), "input modified", f"an interrupted call of {f.name} modified the bars")
        if w.chance(15):
            k = w.between(1, n)
            other = make_bars(sim, make_index(sim, k)).rename(columns={x: "my_" + x for x in f.names})
            sim.call(f.name + " of another instrument", f.value, t, other)
            sim.probe("other instrument in between")
        first = 0
        if tick.restarted and sim.f.chance(60) and tick.n > 1:
            first = sim.f.below(tick.n)
            sim.fault("history truncated at restart")
        X = tick.frame.iloc[first:]
        got, rows = sim.call(f.name, f.value, t, X)
        sim.log_data(f"{tick.n} bars from {first}", got)
        judge(got, rows, want[:tick.n] if not first else feed(f, frame.iloc[first:tick.n]), X, first)
        if f.predict and w.chance(50):
            proba, classes, count = sim.call(f.name + " probabilities", f.proba, t, X)
            judge_proba(sim, f, proba, classes, count, got, X)
    sim.expect(given.equals(g0), "input modified", f"{f.name} modified the bars")
    sim.nontrivial = compared >= 10
    sim.probe("values compared", compared)
