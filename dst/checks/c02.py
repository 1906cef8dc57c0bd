"""C02: trend-scanning labels pick the strongest trend, on any schedule and call history."""
import numpy as np
import pandas as pd

from dst import numbasim, pymode
from dst.core import close, size, terse
from dst.live import live
from dst.market import make_index, make_prices

RUNS = {"quick": 1200, "thorough": 12000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one live history: a seeded series, a trend scanner and several scans (of growing prefixes, of other "
        "series, after restarts), each under its own worker count, cut, order and heap contents; non-trivial: a scan "
        "with several workers judged at least three events with a complete window")
REAL = ["mizarlabs.transformers.targets.trend_scanning", "mizarlabs.structural_breaks.sdfc.get_beta_and_beta_var",
        "numba code generation", "pandas", "numpy"]
STUB = ["numba threading layer (simulated workers)", "bar transport and clock (simulated)",
        "statement-level engine: kernel source executed by CPython"]
ASSUMPTIONS = ["unique increasing naive millisecond times, positive values, min_sample_length >= 3",
               "events with a perfectly linear or flat forward window (no residual or no variation, relative 1e-8) are "
               "not judged: the slope t-value is not defined there",
               "windows whose |t| is within 1e-9 of the largest count as largest"]


def warmup(tier):
    numbasim.install()
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling

    idx = pd.date_range("2021-01-01", periods=30, freq="H")
    y = pd.Series(np.sin(np.arange(30)) + 3, index=idx)
    TrendScannerLabeling(None, 8, 3, 1).transform(y)


def slope_t(y):
    """Slope t-value of y on a constant and time, by the closed formulas; None when not well posed."""
    n = len(y)
    x = np.arange(n) - (n - 1) / 2.0
    sxx = (x * x).sum()
    ym = y - y.mean()
    b = (x * ym).sum() / sxx
    e = ym - b * x
    sse = (e * e).sum()
    syy = (ym * ym).sum()
    if syy <= 1e-12 * (y.mean() ** 2) * n or sse <= 1e-8 * syy:
        return None
    return b / np.sqrt(sse / (n - 2) / sxx)


def expected(y, pos, L, m, step):
    """None: incomplete window; 'skip': not well posed; else [(t, end)] acceptable."""
    if pos + L > len(y):
        return None
    ts = []
    for k in range(m, L, step):
        t = slope_t(y[pos:pos + k])
        if t is None:
            return "skip"
        ts.append((t, pos + k - 1))
    top = max(abs(t) for t, _ in ts)
    return [(t, e) for t, e in ts if abs(t) >= top * (1 - 1e-9) - 1e-9]


def judge(sim, out, y, events, L, m, step, cache):
    from mizarlabs.static import EVENT_END_TIME, LABEL, RETURN, T_VALUE

    idx = y.index
    ev = idx.values if events is None else pd.DatetimeIndex(events).values
    sim.expect(len(out) == len(ev) and (out.index.values == ev).all(), "rows",
               lambda: f"{len(out)} rows for {len(ev)} events, or in another order")
    for c in (EVENT_END_TIME, T_VALUE, RETURN, LABEL):
        sim.expect(c in out.columns, "columns", f"column {c} is missing")
    vals = y.values.astype(float)
    sim.expect(out.index.tz == idx.tz, "time zone", lambda: f"labels in time zone {out.index.tz} of a series in {idx.tz}")
    pos = pd.DatetimeIndex(idx.values).get_indexer(ev)
    where = {t: k for k, t in enumerate(idx.values)}
    ends = pd.to_datetime(out[EVENT_END_TIME]).values
    t_out = out[T_VALUE].values.astype(float)
    rets = out[RETURN].values.astype(float)
    labs = out[LABEL].values.astype(float)
    judged = 0
    for r, p in enumerate(pos):
        key = (int(p), len(vals) >= p + L)
        if key not in cache:
            cache[key] = expected(vals, int(p), L, m, step)
        want = cache[key]
        if want == "skip":
            sim.probe("events not well posed")
            continue
        if want is None:
            sim.expect(np.isnat(ends[r]) and np.isnan(t_out[r]) and np.isnan(rets[r]) and np.isnan(labs[r]),
                       "incomplete window", lambda: f"event {p} of {len(vals)} (window {L}) has the row {tuple(out.iloc[r])}")
            continue
        e = None if np.isnat(ends[r]) else where.get(ends[r], -1)
        ok = [t for t, end in want if end == e]
        sim.expect(ok, "event end", lambda: f"event {p}: trend ends at {e} (t={t_out[r]}), expected {want} "
                   f"(L={L} min={m} step={step})")
        sim.expect(bool(close(t_out[r], ok[0], rtol=1e-5, atol=1e-8)), "t-value",
                   lambda: f"event {p}: t-value {t_out[r]} instead of {ok[0]}")
        sim.expect(bool(close(rets[r], vals[e] / vals[p] - 1, rtol=1e-9, atol=1e-13)), "return",
                   lambda: f"event {p}: return {rets[r]} instead of {vals[e] / vals[p] - 1}")
        sim.expect(labs[r] == np.sign(t_out[r]), "label", lambda: f"event {p}: label {labs[r]}, t-value {t_out[r]}")
        judged += 1
    if judged >= 3 and numbasim._state["threads"] > 1:
        sim.nontrivial = True
    sim.probe("events judged", judged)


def run(sim):
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling

    w = sim.w
    numbasim.begin(sim)
    numbasim.heap(sim)
    L = w.pick((6, 4, 5, 9, 14, 22, 20))
    m = w.between(3, L - 1) if L < 6 or w.chance(80) else 5
    step = w.pick((1, 1, 2, 3, 5))
    n = L + size(sim, (8, 0, 1, 4, 20, 40), (270, 540), 10) if w.chance(92) else w.between(1, L)
    index = make_index(sim, n)
    if w.chance(10):
        index = index.tz_localize("UTC").tz_convert(w.pick(("UTC", "Europe/Rome", "Asia/Tokyo")))
        sim.probe("series with a time zone")
    vals = make_prices(sim, n, kind=w.pick(("walk", "meanrev", "trend", "jumps", "grid", "flats")))
    if w.chance(20):                                       # trading halts: nothing moves for a while
        a = w.below(n)
        vals[a:a + w.between(3, L + 3)] = vals[a]
        sim.probe("flat stretch")
    if w.chance(15):
        vals = np.round(vals * 10).astype(np.int64)        # integer closes are accepted
        vals[vals == 0] = 1
    y = pd.Series(vals, index=index, name="close")
    kw = dict(look_forward_window=L, min_sample_length=m, step=step)
    mode = w.pick(("all", "all", "events"))
    sim.log("config", sorted(kw.items()), "n", n, mode)
    args = terse(sim, kw, dict(look_forward_window=20, min_sample_length=5, step=1))
    shared = TrendScannerLabeling(None, **args)
    decided = {}
    caches = {}
    other = None
    for tick in live(sim, y, calls=w.between(1, 4)):
        if tick.restarted:
            shared = TrendScannerLabeling(None, **args)
        numbasim.rethread(sim)
        if sim.f.chance(40):
            numbasim.heap(sim)
        events = None
        lab = shared
        if mode == "events" and w.chance(70):
            pick = np.array(sorted(w.subset(range(tick.n), 60)), dtype=int)
            if len(pick) == 0:
                pick = np.array([tick.n // 2])
            if w.chance(25):
                pick = np.array(w.shuffled(list(pick)))
            events = tick.frame.index[pick]
            how = w.pick(("values", "values", "list", "index"))
            events = events.values if how == "values" else list(events) if how == "list" else events
            lab = TrendScannerLabeling(events, **args)
        elif w.chance(25):
            # the same scanner is used for another series in between
            k = w.between(1, 2 * n)
            oi = make_index(sim, k)
            other = pd.Series(make_prices(sim, k, kind="walk"), index=oi)
            o = sim.call("scan of another series", shared.transform, other)
            judge(sim, o, other, None, L, m, step, {})
        out = sim.call("scan", lab.transform, tick.frame)
        sim.log_data(f"scan of {tick.n}", out)
        judge(sim, out, tick.frame, events, L, m, step, caches)
        for t, row in zip(out.index, out.itertuples(index=False)):
            row = tuple(row)
            if t in decided and index.get_loc(t) + L <= tick.n:
                a, b = decided[t], row
                sim.expect(a[0] == b[0] and close(np.array(a[1:], float), np.array(b[1:], float)).all(), "repaint",
                           lambda: f"event {t}: was {a}, with {tick.n} observations it is {b}")
            p = index.get_loc(t)
            if p + L <= tick.n and not pd.isna(row[0]):
                decided[t] = row
    if n <= 26 and sim.s.chance(12):
        def same(a, b):
            return None if a.equals(b) else f"{a[~(a.fillna(-9) == b.fillna(-9)).all(axis=1)]} became {b[~(a.fillna(-9) == b.fillna(-9)).all(axis=1)]}"
        pymode.race_check(sim, "scan", lambda: TrendScannerLabeling(None, **args).transform(y), same)
