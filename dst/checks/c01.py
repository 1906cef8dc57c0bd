"""C01: triple-barrier labels are the first touch, on any schedule, and never repaint."""
import numpy as np
import pandas as pd

from dst import numbasim, pymode
from dst.core import close, size, terse
from dst.live import live
from dst.market import dyadic_prices, make_index, make_prices

RUNS = {"quick": 640, "thorough": 20000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one live history: a seeded bar series, a labeller configuration and several labellings of the bars "
        "received so far, each under its own worker count, cut of the work, order of the pieces and heap contents; "
        "non-trivial: at least one labelling ran with several workers over a row closed by a horizontal barrier")
REAL = ["mizarlabs.transformers.targets.labeling (labeller, volatility, compiled kernel)", "numba code generation",
        "pandas", "numpy"]
STUB = ["numba threading layer (simulated workers)", "bar transport and clock (simulated)",
        "statement-level engine: kernel source executed by CPython"]
ASSUMPTIONS = ["unique, increasing, naive bar times of millisecond resolution after 1970; positive closes",
               "a side column is present only with meta-labelling, values -1, 0 or 1",
               "returns within 1e-12 of a barrier may count as touched or not, except in the exact-arithmetic runs"]

DAY = 86_400_000


def warmup(tier):
    numbasim.install()
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling

    idx = pd.date_range("2021-01-01", periods=40, freq="H")
    df = pd.DataFrame({"close": np.linspace(1, 2, 40), "side": 1}, index=idx)
    TripleBarrierMethodLabeling(3, 1, 1).transform(df[["close"]])
    for side in (df.side, df.side.astype(float)):
        TripleBarrierMethodLabeling(3, 1, 1, metalabeling=True,
                                      volatility_adjusted_horizontal_barriers=False).transform(df.assign(side=side))


# -- reference model ------------------------------------------------------------------------------
def ref_vol(times_ms, px, span):
    """Exponentially weighted standard deviation of the returns over about a day, from the definition."""
    n = len(px)
    rets, at = [], []
    for i in range(n):
        j = int(np.searchsorted(times_ms, times_ms[i] - DAY, side="left"))
        if j > 0:
            rets.append(px[i] / px[j - 1] - 1)
            at.append(i)
    out = np.full(n, np.nan)
    alpha = 2.0 / (span + 1)
    rets = np.array(rets)
    for k in range(1, len(rets)):
        w = (1 - alpha) ** np.arange(k, -1, -1)
        x = rets[: k + 1]
        m = (w * x).sum() / w.sum()
        var = (w * (x - m) ** 2).sum() / w.sum()
        den = w.sum() ** 2 - (w ** 2).sum()
        if den > 0:
            out[at[k]] = np.sqrt(max(0.0, var * w.sum() ** 2 / den))
    return out


def touches(ret, bar, up, exact):
    """'yes', 'no' or 'maybe'."""
    if np.isnan(ret) or np.isnan(bar):
        return "no"
    d = ret - bar if up else bar - ret
    if exact or (ret == 0 and bar == 0):
        return "yes" if d > 0 else "no"
    if abs(d) <= 1e-12 * (1 + abs(ret)):
        return "maybe"
    return "yes" if d > 0 else "no"


def candidates(i, px, side, vol, n_exp, pt, sl, exact):
    """The acceptable (end bar or None, by barrier?) of bar i."""
    n = len(px)
    exp = i + n_exp if i + n_exp < n else None
    last = exp if exp is not None else n - 1
    out = []
    for j in range(i, last):
        r = (px[j] / px[i] - 1) * side
        t = []
        if pt > 0:
            t.append(touches(r, pt * vol, True, exact))
        if sl > 0:
            t.append(touches(r, -sl * vol, False, exact))
        if "yes" in t:
            out.append((j, True))
            return out
        if "maybe" in t:
            out.append((j, True))
    out.append((exp, False))
    return out


def run(sim):
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling

    w = sim.w
    numbasim.begin(sim)
    numbasim.heap(sim)
    n = size(sim, (30, 12, 20, 45, 70, 120, 3, 160), (1100, 600, 2100))
    exact = w.chance(30)
    index = make_index(sim, n, unit_ms=w.pick((3 * 3600_000, 3600_000, 9 * 3600_000, 60_000, 1)) if not exact else None)
    px = dyadic_prices(sim, n) if exact else make_prices(sim, n)
    adjusted = not exact and w.chance(75)
    meta = w.chance(45)
    n_exp = w.pick((3, 1, 2, 5, 10, 25, 200 if n < 500 else 25))
    factors = (0.5, 1.0, 3.0, 0, 0.75, 2.0) if exact else (1.0, 0.5, 2.0, 0, 0.1, 4.0, 1)
    pt, sl = w.pick(factors), w.pick(factors)
    if not adjusted and not exact:
        scale = 0.02
        pt, sl = pt * scale, sl * scale
    exp_label = w.chance(40)
    span = w.pick((5, 2, 20, 100))
    ccol = w.pick(("close", "close", "px"))
    df = pd.DataFrame({ccol: px}, index=index)
    if w.chance(25):
        df["other"] = np.arange(n)
    if meta:
        sides = w.np_random().choice([-1, 1, 1, 0], size=n)
        scol = w.pick(("side", "side", "direction"))
        df[scol] = sides if w.chance(50) else sides.astype(float)
    else:
        scol = "side"
    kw = dict(num_expiration_bars=n_exp, profit_taking_factor=pt, stop_loss_factor=sl, metalabeling=meta,
              close_column_name=ccol, side_column_name=scol, volatility_window=span,
              volatility_adjusted_horizontal_barriers=adjusted, expiration_label=exp_label)
    sim.log("config", sorted(kw.items()), "n", n, "exact", exact)
    args = terse(sim, kw, dict(metalabeling=False, close_column_name="close", side_column_name="side", volatility_window=100,
                               volatility_adjusted_horizontal_barriers=True, expiration_label=False))
    labeller = TripleBarrierMethodLabeling(**args)
    times = index.values.astype("datetime64[ns]").astype(np.int64) // 10 ** 6
    vol_ref = ref_vol(times, px, span) if adjusted else np.ones(n)
    decided = {}
    for tick in live(sim, df, calls=w.between(1, 4)):
        if tick.restarted:
            labeller = TripleBarrierMethodLabeling(**args)
        numbasim.rethread(sim)
        if sim.f.chance(30):
            numbasim.heap(sim)
        out = sim.call("labelling", labeller.transform, tick.frame)
        sim.log_data(f"labels of {tick.n} bars", out)
        judge(sim, out, tick.frame.index, px[:tick.n], df[scol].values[:tick.n] if meta else np.ones(tick.n),
              vol_ref[:tick.n], kw, exact, meta)
        for i in range(tick.n):
            row = out.iloc[i]
            if i in decided and tick.n >= decided[i][3]:
                end, ret, lab, _ = decided[i]
                same = (row["event_end_time"] == end and close(row[RET], ret)
                        and close(row[LAB], lab))
                sim.expect(same, "repaint",
                           lambda: f"bar {i} was decided as {decided[i]} and with {tick.n} bars it is {tuple(row)}")
            if not pd.isna(row["event_end_time"]):
                if i not in decided or tick.n < decided[i][3]:
                    decided[i] = (row["event_end_time"], row[RET], row[LAB], tick.n)
    if n <= 45 and sim.s.chance(15):
        def same(a, b):
            ok = a.equals(b)
            return None if ok else f"rows {np.flatnonzero(~(a.fillna(-9).values == b.fillna(-9).values).all(axis=1)).tolist()}"
        pymode.race_check(sim, "labelling", lambda: TripleBarrierMethodLabeling(**args).transform(df), same)


RET, LAB = "return", "label"


def judge(sim, out, index, px, side, vol_ref, kw, exact, meta):
    from mizarlabs import static

    global RET, LAB
    RET, LAB = static.RETURN, static.LABEL
    sim.expect(out.index.equals(index), "rows", "one row per bar, in order, is expected")
    for c in (static.EVENT_END_TIME, static.DAILY_VOL, static.RETURN, static.LABEL):
        sim.expect(c in out.columns, "columns", f"column {c} is missing")
    vol = out[static.DAILY_VOL].values.astype(float)
    # absolute tolerance: the recursive and the direct variance differ by rounding of the returns
    ok = close(vol, vol_ref, rtol=1e-6, atol=1e-9)
    sim.expect(ok.all(), "volatility", lambda: f"bar {int(np.flatnonzero(~ok)[0])}: volatility "
               f"{vol[~ok][0]} instead of {vol_ref[~ok][0]}")
    ends = out[static.EVENT_END_TIME].values.astype("datetime64[ns]")
    rets = out[static.RETURN].values.astype(float)
    labs = out[static.LABEL].values.astype(float)
    pos = {t: k for k, t in enumerate(index.values.astype("datetime64[ns]"))}
    n_exp, pt, sl = kw["num_expiration_bars"], kw["profit_taking_factor"], kw["stop_loss_factor"]
    for i in range(len(index)):
        if np.isnan(vol[i]):
            sim.expect(np.isnat(ends[i]) and np.isnan(rets[i]) and np.isnan(labs[i]), "row without volatility",
                       lambda: f"bar {i} has no volatility and the row {tuple(out.iloc[i])}")
            continue
        cand = candidates(i, px, side[i], vol[i], n_exp, pt, sl, exact)
        end = None if np.isnat(ends[i]) else pos.get(ends[i], -1)
        match = [c for c in cand if c[0] == end]
        sim.expect(match, "event end", lambda: f"bar {i}: the event ends at bar {end}, expected "
                   f"{[c[0] for c in cand]} (config {kw}, side {side[i]}, vol {vol[i]}, "
                   f"closes {px[i:i + n_exp + 1][:30].tolist()})")
        if end is None:
            sim.expect(np.isnan(rets[i]) and np.isnan(labs[i]), "undecided row",
                       lambda: f"bar {i} is undecided but has return {rets[i]} label {labs[i]}")
            continue
        raw = px[end] / px[i] - 1
        want = raw * side[i] if meta else raw
        sim.expect(bool(close(rets[i], want, rtol=1e-9, atol=1e-13)), "return",
                   lambda: f"bar {i}: return {rets[i]} instead of {want}")
        r = rets[i]
        if kw["expiration_label"] and any(not c[1] for c in match):
            lab = 0.0
        elif meta:
            lab = 1.0 if r > 0 else 0.0 if r < 0 else np.nan
        else:
            lab = float(np.sign(r))
        sim.expect(bool(close(labs[i], lab)), "label", lambda: f"bar {i}: label {labs[i]} instead of {lab} "
                   f"(return {r}, ended by a horizontal barrier: {match[0][1]})")
        if match[0][1] and numbasim._state["threads"] > 1:
            sim.nontrivial = True
            sim.probe("rows closed by a horizontal barrier")
        elif not match[0][1]:
            sim.probe("rows closed by expiration")
