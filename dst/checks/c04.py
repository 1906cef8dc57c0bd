"""C04: structural-break statistics are exact and contain nothing but statistics."""
import numpy as np
import pandas as pd

from dst import numbasim, pymode
from dst.core import close, size, terse
from dst.live import live
from dst.market import make_index, make_prices

RUNS = {"quick": 480, "thorough": 12000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one live history of a seeded series (with trading halts that make regressions singular) tested several "
        "times with one of the three tests, each time under its own worker count, cut, order and heap contents; "
        "non-trivial: at least three well-posed time points were judged under several workers")
REAL = ["mizarlabs.structural_breaks (SADF, SDFC, CSW, compiled kernels)", "numba code generation", "LAPACK/BLAS",
        "pandas", "numpy"]
STUB = ["numba threading layer (simulated workers)", "bar transport and clock (simulated)",
        "statement-level engine: kernel source executed by CPython"]
ASSUMPTIONS = ["lags is a number or a list of lags, below min_length; positive values for the logarithmic models",
               "a time point is judged when every regression it involves has full rank (condition number of X'X below "
               "1e10) and a residual (relative 1e-7); t-values are compared to 1e-6 relative, 1e-3 when the condition "
               "number exceeds 1e6"]
MODELS = ("no_trend", "linear", "quadratic", "sm_poly_1", "sm_poly_2", "sm_exp", "sm_power")


def _tests():
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest
    from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest

    return SupremumAugmentedDickeyFullerStatTest, SupremumDickeyFullerChowStatTest, ChuStinchcombeWhiteStatTest


def warmup(tier):
    numbasim.install()
    sadf, sdfc, csw = _tests()
    idx = pd.date_range("2021-01-01", periods=30, freq="H")
    y = pd.Series(np.random.RandomState(0).rand(30) + 3, index=idx)
    sadf("no_trend", 2, 10, True, 0.0).run(y)
    sadf("sm_exp", 2, 10, True, 0.5).run(y)
    sdfc(5).run(y)
    csw("two_sided").run(y)


def ols_t(X, y):
    """(t-value of the first coefficient, condition number) or None."""
    n, k = X.shape
    if n <= k:
        return None
    u, s, vt = np.linalg.svd(X, full_matrices=False)
    if s[-1] <= 0 or (s[0] / s[-1]) ** 2 > 1e10:
        return None
    b = vt.T @ ((u.T @ y) / s)
    e = y - X @ b
    sse = float(e @ e)
    if sse <= 1e-7 * float(y @ y) or sse == 0:
        return None
    xxinv00 = float(((vt[:, 0] / s) ** 2).sum())
    return b[0] / np.sqrt(sse / (n - k) * xxinv00), (s[0] / s[-1]) ** 2


def sadf_xy(v, model, lags, const):
    """Regressors (tested one first), target and the position of the first row."""
    n = len(v)
    if model in ("no_trend", "linear", "quadratic"):
        d = np.diff(v)
        qs = range(1, lags + 1) if isinstance(lags, int) else lags
        first = max(qs, default=0) + 1
        rows = range(first, n)                       # times with all lagged differences
        m = len(rows)
        cols = [np.array([v[t - 1] for t in rows])]
        cols += [np.array([d[t - 1 - q] for t in rows]) for q in qs]
        if model != "no_trend":
            cols.append(np.arange(1, m + 1, dtype=float))
        if model == "quadratic":
            cols.append(np.arange(1, m + 1, dtype=float) ** 2)
        if const:
            cols.append(np.ones(m))
        y = np.array([d[t - 1] for t in rows])
    else:
        first = 0
        tr = np.arange(1, n + 1, dtype=float)
        y = v.copy() if model == "sm_poly_1" else np.log(v)
        one = np.ones(n)
        cols = {"sm_poly_1": [tr ** 2, one, tr], "sm_poly_2": [tr ** 2, one, tr], "sm_exp": [tr, one],
                "sm_power": [np.log(tr), one]}[model]
    return np.column_stack(cols), y, first


def sadf_ref(v, model, lags, min_length, const, phi):
    """{position: (value, tolerance)}; positions that are not well posed are absent, of long series most are left out."""
    X, y, first = sadf_xy(v, model, lags, const)
    out = {}
    ends = range(min_length, len(y))
    if len(y) > 60:
        ends = sorted({e for e in ends if e % 23 == 0} | {len(y) - 1})
    for e in ends:
        best, tol = -np.inf, 1e-6
        for s in range(0, e + 1 - min_length + 1):
            r = ols_t(X[s:e + 1], y[s:e + 1])
            if r is None:
                best = None
                break
            t, cond = r
            if cond > 1e6:
                tol = 1e-3
            if model.startswith("sm"):
                t = abs(t) / (e + 1 - (s + 1)) ** phi
            best = max(best, t)
        if best is not None:
            out[first + e] = (best, tol)
    return out, [first + e for e in range(min_length, len(y))]


def sdfc_ref(v, m):
    n = len(v)
    d, lag = np.diff(v), v[:-1]
    out = {}
    for i in range(m, n - m):
        x = np.where(np.arange(n - 1) >= i, lag, 0.0)
        xx = float(x @ x)
        if xx <= 0:
            continue
        b = float(x @ d) / xx
        e = d - b * x
        sse = float(e @ e)
        if sse <= 1e-9 * float(d @ d) or sse <= 1e-22 * xx:
            continue
        out[i] = (b / np.sqrt(sse / (n - 2) / xx), 1e-6)
    return out, list(range(m, n - m))


def csw_ref(v, side):
    out = {}
    for t in range(2, len(v) + 1):
        s2 = float((np.diff(v[:t]) ** 2).sum()) / (t - 1)
        if s2 <= 1e-24 * v[t - 1] ** 2:
            continue
        n = np.arange(1, t)
        d = v[t - 1] - v[:t - 1]
        d = {"one_sided_positive": d, "one_sided_negative": -d, "two_sided": np.abs(d)}[side]
        S = d / np.sqrt(s2 * (t - n))
        top = S.max()
        crit = [float(np.sqrt(4.6 + np.log(t - k))) for k in n[S >= top - 1e-9 * (1 + abs(top))]]
        out[t - 1] = (float(top), crit)
    return out


def run(sim):
    w = sim.w
    sadf, sdfc, csw = _tests()
    numbasim.begin(sim)
    numbasim.heap(sim)
    which = w.pick(("sadf", "sadf", "sdfc", "csw"))
    if which == "sadf":
        n = size(sim, (24, 10, 16, 35, 50), (130, 200, 290), 30)
    else:
        n = size(sim, (30, 4, 12, 60, 120), (290, 560, 1050) if which == "csw" else (290, 560))
    index = make_index(sim, n)
    v = make_prices(sim, n, kind=w.pick(("walk", "jumps", "meanrev", "trend", "flats", "grid")))
    if w.chance(50):
        v = v / v.mean() * (1 if w.chance(50) else 5)
    halts = w.pick((0, 0, 1, 2))
    for _ in range(halts):
        a = w.below(n)
        v[a:a + w.between(2, 12)] = v[a]
    if w.chance(12):
        a = w.below(n)
        v[a:] = v[a]                                    # the market stays closed
        halts += 1
    if w.chance(30):
        v[:w.between(max(2, n // 4), max(2, n // 2 + 2))] = v[0]         # or opens late
        halts += 1
    y = pd.Series(v, index=index)
    if which == "sadf":
        model = w.pick(MODELS)
        lags = w.pick((1, 2, 3, 0, [1, 2], [2], [1, 3], [3, 1], [2, 4], []))
        most = lags if isinstance(lags, int) else max(lags, default=0)
        if w.chance(15) and not isinstance(lags, int):
            lags = np.array(lags, dtype=int)
        count = lags if isinstance(lags, int) else len(lags)
        min_length = w.between(max(5, 2 * count + 5, most + 1), 14)
        const = w.chance(60)
        phi = w.pick((0, 0.5, 1, 0.25)) * 1.0
        if not model.startswith("sm") and w.chance(70):
            phi = 0.0
        cfg = (model, lags, min_length, const, phi)
        make = lambda: sadf(*cfg)
    elif which == "sdfc":
        cfg = (w.pick((4, 1, 2, 8, 15, 20)),)
        args = terse(sim, dict(min_num_samples=cfg[0]), dict(min_num_samples=20))
        make = lambda: sdfc(**args)
    else:
        cfg = (w.pick(("two_sided", "one_sided_positive", "one_sided_negative")),)
        make = lambda: csw(*cfg)
    sim.log(which, cfg, "n", n, "halts", halts)
    need = (cfg[2] + most + 2) if which == "sadf" else 2
    if n < need:
        return
    obj = make()
    past = {}
    for tick in live(sim, y, calls=w.between(1, 3), first=need):
        if tick.restarted:
            obj = make()
        numbasim.rethread(sim)
        if sim.f.chance(40):
            numbasim.heap(sim)
        out = sim.call("statistic", obj.run, tick.frame)
        sim.log_data(f"{which} of {tick.n}", out)
        vals = tick.frame.values
        if which == "csw":
            ref = csw_ref(vals, cfg[0])
            sim.expect(list(out.index) == list(tick.frame.index[1:]), "rows", "one row per time but the first is expected")
            got = {k + 1: (out[csw.STATISTIC].values[k], out[csw.CRITICAL_VALUE].values[k]) for k in range(len(out))}
        else:
            ref, where = sadf_ref(vals, *cfg) if which == "sadf" else sdfc_ref(vals, *cfg)
            sim.expect(list(pd.DatetimeIndex(out.index)) == list(tick.frame.index[where]), "rows",
                       lambda: f"{which}{cfg}: values at {len(out)} times, expected at {len(where)}")
            got = {p: out.values[k] for k, p in enumerate(where)}
        if len(ref) < len(got):
            sim.probe("time points not well posed", len(got) - len(ref))
            sim.fault("singular regression in a worker")
        for p, want in ref.items():
            g = got[p]
            if which == "csw":
                ok = close(g[0], want[0], rtol=1e-7, atol=1e-9).all() and min(abs(g[1] - c) for c in want[1]) < 1e-9
            else:
                ok = not np.isnan(g) and abs(g - want[0]) <= want[1] * (1 + abs(want[0]))
            sim.expect(ok, "statistic", lambda: f"{which}{cfg} at {p} of {tick.n}: {g} instead of {want} "
                       f"({numbasim._state['threads']} workers)")
            if which != "sdfc":
                if p in past:
                    q = past[p]
                    same = close(np.atleast_1d(q), np.atleast_1d(g), rtol=1e-9).all()
                    sim.expect(same, "repaint", lambda: f"{which}{cfg} at {p}: was {q}, with {tick.n} observations {g}")
                past[p] = g
        if len(ref) >= 3 and numbasim._state["threads"] > 1:
            sim.nontrivial = True
        sim.probe("time points judged", len(ref))
    if sim.s.chance(8) and n <= 35:
        short = y.iloc[:max(need, 14)]
        def same(a, b):
            x, z = np.asarray(a, float), np.asarray(b, float)
            return None if x.shape == z.shape and close(x, z, rtol=0, atol=0).all() else f"{x} became {z}"
        pymode.race_check(sim, which, lambda: make().run(short), same)
