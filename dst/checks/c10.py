"""C10: features and indicator signals never look ahead and never repaint."""
import numpy as np
import pandas as pd

from dst.core import size
from dst.features import catalogue
from dst.live import live
from dst.market import make_bars, make_index

RUNS = {"quick": 8000, "thorough": 100000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one feature or signal computed by a live process on the bars it has received so far (delayed, stalled, "
        "lost and re-sent, duplicated), also after crashes with a truncated history and after being used for another "
        "instrument, against the same feature on the whole history; non-trivial: at least ten values that are not "
        "missing were compared on a strictly shorter history")
REAL = ["mizarlabs.transformers.microstructural_features", "mizarlabs.transformers.features", "mizarlabs.transformers.technical",
        "mizarlabs.transformers.targets.labeling.get_daily_vol", "TA-lib", "pandas", "numpy"]
STUB = ["bar transport, clock and process (simulated)"]
ASSUMPTIONS = ["unique increasing times, positive prices, non-negative volumes with total = buy + sell",
               "values agree up to 1e-9 relative on the same history start; after a truncated start up to rounding of the "
               "rolling sums (1e-6 of the scale), and not where the result is the ratio or sign of a rounding error"]


def warmup(tier):
    from dst.core import Sim

    catalogue(Sim(seed="warm"))


def names(f):
    return f.name.split()[0]


def restart_tolerant(f, frame, start, full, got):
    """Mask of rows where a truncated history must give the same value up to rounding, given the bars."""
    full, got = full[start:], got
    n = len(got)
    scale = np.nanmax(np.abs(np.where(np.isfinite(full), full, np.nan)), initial=0.0)
    ok = np.isclose(full, got, rtol=1e-6, atol=1e-6 * scale + 1e-15, equal_nan=True)
    if f.noisy in ("sqrt", "sqrt/volume"):
        # square root of a covariance whose rounding error is relative to the variance of the moves
        close = frame["close"].values
        top = np.abs(np.diff(close)).max() if len(close) > 1 else 0.0
        a, b = full, got
        if f.noisy == "sqrt/volume":
            v = frame["quote_asset_volume"].values[start:].reshape(-1, 1)
            with np.errstate(invalid="ignore"):
                a, b = np.where(v > 0, a * v, 0), np.where(v > 0, b * v, 0)
        a, b = a ** 2, b ** 2
        ok |= np.isclose(a, b, rtol=1e-6, atol=1e-9 * (top ** 2 + 1e-12 * close.max() ** 2), equal_nan=True)
    if f.noisy == "zscore":
        # a window that hardly varies has no meaningful z-score
        m = f.window - 1
        s = _series(f, frame)
        r = s.rolling(m)
        var = (r.max() - r.min()).values[start:]
        level = np.nanmax(np.abs(s.values), initial=0.0)
        ok |= ~(var > 1e-4 * level).reshape(-1, 1)
    if f.noisy and f.noisy.startswith("cross"):
        _, fast, slow = f.noisy.split()
        c = frame["close"]
        d = (c.rolling(int(fast)).mean() - c.rolling(int(slow)).mean()).abs()
        near = (d < 1e-9 * c.max())
        near = (near | near.shift(1, fill_value=True)).values[start:]
        ok |= near.reshape(-1, 1)
    ok[: f.window] = True
    return ok[:n]


def _series(f, X):
    key = f.name.split()[1]
    if key == "buy_sell_diff":
        return X.quote_asset_buy_volume - X.quote_asset_sell_volume
    if key == "bar_arrival_time":
        return pd.Series(X.index.asi8, index=X.index).diff()
    if key == "average_buy_size":
        return X.quote_asset_buy_volume / X.num_buy_ticks
    if key == "high_to_low_ratio":
        return X.high / X.low
    return X["close"] - X["open"]


def run(sim):
    w = sim.w
    f = catalogue(sim)
    n = size(sim, (40, 25, 60, 12, 120), (600, 1100))
    unit = None
    if f.name == "daily volatility":
        n = size(sim, (60, 30, 120), (600, 1100))
        unit = w.pick((3 * 3600_000, 7 * 3600_000, 86_400_000, 3600_000))
    index = make_index(sim, n, unit_ms=unit)
    frame = make_bars(sim, index)
    dead = w.chance(15)
    if dead:                          # bars in which nothing was traded
        none = w.np_random().rand(n) < 0.15
        for c in frame.columns:
            if "volume" in c or c.startswith("num_"):
                frame.loc[none, c] = 0.0
        sim.probe("bars without trades", int(none.sum()))
    if w.chance(8):                   # an erroneous print: one bar with an enormous volume
        r, huge = w.below(n), w.pick((2.0 ** 30, 2.0 ** 44))
        for c in frame.columns:
            if "volume" in c:
                frame.iloc[r, frame.columns.get_loc(c)] *= huge
        sim.probe("enormous volume")
    x0 = frame.copy()
    sim.log("feature", f.name, "window", f.window, "bars", n)
    full = sim.call(f.name, f.value, f.make(), frame)
    sim.expect(full.ndim == 2 and len(full) == n, "rows", lambda: f"{f.name}: shape {full.shape} for {n} bars")
    sim.log_data("whole history", full)
    shared = f.make()
    compared = 0
    for tick in live(sim, frame, calls=w.between(2, 5)):
        if tick.restarted:
            shared = f.make()
        if w.chance(20):
            oi = make_index(sim, w.between(3, n))
            sim.call(f.name + " of another instrument", f.value, shared, make_bars(sim, oi))
            sim.probe("other instrument in between")
        got = sim.call(f.name, f.value, shared, tick.frame)
        sim.expect(len(got) == tick.n and got.shape[1] == full.shape[1], "rows",
                   lambda: f"{f.name}: shape {got.shape} for {tick.n} bars")
        ok = np.isclose(got, full[: tick.n], rtol=1e-9, atol=1e-13, equal_nan=True)
        sim.log_data(f"{tick.n} bars", got)
        if not ok.all():
            r, c = map(int, np.argwhere(~ok)[0])
            sim.fail("looks ahead", f"{f.name}: the value of bar {r} is {got[r, c]} with {tick.n} bars and {full[r, c]} with {n}")
        if tick.n < n:
            compared += int(np.isfinite(got).sum())
        if tick.restarted and f.window is not None and not dead and tick.n > f.window + 2:
            start = sim.f.below(tick.n - f.window)
            if start:
                sim.fault("history truncated at restart")
                part = sim.call(f.name, f.value, shared, tick.frame.iloc[start:])
                sim.expect(len(part) == tick.n - start, "rows", lambda: f"{f.name}: {len(part)} rows for {tick.n - start} bars")
                ok = restart_tolerant(f, tick.frame, start, full[: tick.n], part)
                if not ok.all():
                    r, c = map(int, np.argwhere(~ok)[0])
                    sim.fail("restart", f"{f.name}: bar {start + r} is {part[r, c]} when the history starts at bar {start} "
                             f"and {full[start + r, c]} with all of it (window {f.window})")
    if f.value.__name__ == "_predict":
        classes = np.asarray(shared.classes_, dtype=float)
        pred, proba = full[:, 0], full[:, 1:]
        sim.expect(proba.shape[1] == len(classes) and ((proba == (pred[:, None] == classes[None, :])).all()), "probabilities",
                   lambda: f"{f.name}: probabilities are not the ones of the predictions")
    sim.expect(frame.equals(x0), "input modified", f"{f.name} modified the bars")
    sim.nontrivial = compared >= 10
    sim.probe("values compared", compared)
