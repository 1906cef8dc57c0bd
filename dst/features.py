"""The bar features and rule-based signals: how to make one, how to compute it, what it may need."""
import numpy as np
import pandas as pd


class Feature:
    """make(): a new transformer; value(t, X): 2-d float array; window: bars needed, None when infinite."""

    def __init__(self, name, make, value, window=None, noisy=None):
        self.name, self.make, self.value, self.window, self.noisy = name, make, value, window, noisy


def _transform(t, X):
    return np.asarray(t.transform(X), dtype=float)


def _predict(t, X):
    p = t.predict(X)
    if isinstance(p, pd.Series) and len(p) == len(X) and not p.index.equals(X.index):
        raise ValueError("predictions are not in the order of the bars")
    return np.column_stack([np.asarray(p, dtype=float).reshape(len(p), -1), np.asarray(t.predict_proba(X), dtype=float)])


def _daily(t, X):
    s = t(X["close"])
    if not s.index.isin(X.index).all() or not s.index.is_monotonic_increasing or not s.index.is_unique:
        raise ValueError("daily volatility has rows that are not bars, or unordered ones")
    return s.reindex(X.index).values.astype(float).reshape(-1, 1)


def catalogue(sim):
    """One feature with seeded parameters."""
    from mizarlabs.transformers.features.custom import LocalMaxToCloseRatio
    from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformer, RollingZScoreTransformerFactory
    from mizarlabs.transformers.microstructural_features import first_generation as g1, second_generation as g2
    from mizarlabs.transformers.microstructural_features.vpin import VPIN
    from mizarlabs.transformers.targets.labeling import get_daily_vol
    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
    from mizarlabs.transformers.technical.moving_average import (
        ExponentialWeightedMovingAverageDifference, MovingAverageCrossOver, MovingAverageCrossOverPredictor)
    from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation
    from mizarlabs.transformers.technical.volume import BuySellImbalance

    w = sim.w
    n = w.pick((5, 2, 3, 8, 13, 20))
    fast = w.pick((3, 1, 2, 5))
    slow = fast + w.pick((4, 0, 1, 2, 10))
    kind = w.below(21)
    # windows are in bars: how many bars from the (re)start until the value no longer depends on older bars
    if kind == 0:
        return Feature("RollMeasure", lambda: g1.RollMeasure(window=n), _transform, n + 3, "sqrt")
    if kind == 1:
        return Feature("RollImpact", lambda: g1.RollImpact(window=n), _transform, n + 3, "sqrt/volume")
    if kind == 2:
        return Feature("ParkinsonVolatility", lambda: g1.ParkinsonVolatility(window=n), _transform, n)
    if kind == 3:
        return Feature("CorwinSchultzSpread", lambda: g1.CorwinSchultzSpread(window=n), _transform, n + 2, "root")
    if kind == 4:
        return Feature("BeckersParkinsonVolatility", lambda: g1.BeckersParkinsonVolatility(window=n), _transform, n + 2, "root")
    if kind == 5:
        return Feature("KyleLambda", lambda: g2.KyleLambda(window=n), _transform, n + 1)
    if kind == 6:
        return Feature("AmihudLambda", lambda: g2.AmihudLambda(window=n), _transform, n + 1)
    if kind == 7:
        return Feature("HasbrouckLambda", lambda: g2.HasbrouckLambda(window=n), _transform, n + 1)
    if kind == 8:
        return Feature("VPIN", lambda: VPIN(window=n), _transform, n + 1)
    if kind in (9, 10):
        m = max(3, n)
        key = w.pick(("buy_sell_diff", "bar_arrival_time", "average_buy_size", "high_to_low_ratio", "own"))
        if key == "own":
            return Feature("RollingZScore own", lambda: RollingZScoreTransformer(m, lambda X: X["close"] - X["open"]), _transform, m + 1, "zscore")
        return Feature("RollingZScore " + key, lambda: RollingZScoreTransformerFactory.get_transformer(key, m), _transform, m + 1, "zscore")
    if kind == 11:
        return Feature("MovingAverageCrossOver", lambda: MovingAverageCrossOver(fast, slow, "close"), _transform, slow + 1, f"cross {fast} {slow}")
    if kind == 12:
        return Feature("MovingAverageCrossOver filled", lambda: MovingAverageCrossOver(fast, slow, "close", True), _transform)
    if kind == 13:
        fill = w.chance(60)
        return Feature(f"MovingAverageCrossOverPredictor fill={fill}", lambda: MovingAverageCrossOverPredictor(fast, slow, "close", fill), _predict)
    if kind == 14:
        norm = w.chance(60)
        return Feature("EWMADifference", lambda: ExponentialWeightedMovingAverageDifference(fast, slow, "close", norm), _transform)
    if kind == 15:
        return Feature("MACDHistogramCrossOver", lambda: MACDHistogramCrossOver(fast + 1, slow + 2, max(2, n // 2)), _transform)
    if kind == 16:
        thr = w.pick((0.002, 0.0, 0.01))
        return Feature("MeanReversionStrategy", lambda: MeanReversionStrategy(thr, n), _predict)
    if kind == 17:
        lo = w.pick((30, 45, 0))
        kw = dict(rsi_upper_threshold=w.pick((70, 55, 101)), rsi_lower_threshold=lo, bar_arrival_upper_threshold=w.pick((0.5, 10.0)),
                  bar_arrival_lower_threshold=w.pick((-0.5, -10.0)), rsi_timeperiod=max(2, n), bar_arrival_fast_period=fast,
                  bar_arrival_slow_period=slow, max_bar_arrival_mean_diff=w.pick((10 ** 12, 10 ** 9, 10 ** 14)))
        return Feature("BarArrivalRSIStrategy", lambda: BarArrivalRSIStrategy(**kw), _predict)
    if kind == 18:
        kw = dict(rsi_timeperiod=max(2, n), rsi_threshold=w.pick((50, 35, 65)), rsi_confirmation_period=w.pick((2, 1, 4)),
                  rsi_moving_average_window=w.pick((2, 1, 4)))
        return Feature("RSIConfirmation", lambda: RSIConfirmation(**kw), _predict)
    if kind == 19:
        vt = w.pick(("quote", "base"))
        return Feature("BuySellImbalance " + vt, lambda: BuySellImbalance(fast, slow, vt), _transform)
    if w.chance(50):
        return Feature("LocalMaxToCloseRatio", lambda: LocalMaxToCloseRatio(n), _transform, n)
    span = w.pick((100, 5, 20))
    return Feature("daily volatility", lambda: (lambda c: get_daily_vol(c, ewm_span=span)), _daily)
