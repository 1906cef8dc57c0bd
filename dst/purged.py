"""Shared by the cross-validation checks: samples with prediction and evaluation times, and the reference split."""
import itertools

import numpy as np
import pandas as pd

from dst.core import size
from dst.market import make_index


def make_samples(sim, n=None, unique=False):
    """(X, pred_times, eval_times), time-ordered; spans may nest, overlap, be empty or run past the end."""
    w = sim.w
    n = n or size(sim, (12, 8, 20, 31, 50), (260, 520))
    idx = make_index(sim, n, unit_ms=w.pick((3600_000, 1000, 60_000)))
    rs = w.np_random()
    if not unique and w.chance(25):              # several samples predicted at the same instant
        keep = np.sort(rs.randint(0, n, size=n))
        when = idx[keep]
    else:
        when = idx
    step = int(np.median(np.diff(idx.asi8)))
    style = w.pick(("short", "none", "long", "nested", "mixed"))
    if style == "short":
        span = rs.randint(0, 3 * step + 1, size=n)
    elif style == "none":
        span = np.zeros(n, dtype=np.int64)
    elif style == "long":
        span = rs.randint(2 * step, (n // 2 + 3) * step, size=n)
    elif style == "nested":
        span = np.where(rs.rand(n) < 0.2, rs.randint(n * step // 2, 2 * n * step, size=n), rs.randint(0, step + 1, size=n))
    else:
        span = (np.where(rs.rand(n) < 0.5, 1, 4) * step * rs.randint(0, 3, size=n)).astype(np.int64)
    span = span.astype(np.int64) // 10 ** 6 * 10 ** 6
    ev = pd.DatetimeIndex(when.asi8 + span)
    if w.chance(15):
        when, ev = when.tz_localize("UTC"), ev.tz_localize("UTC")
    labels = idx if unique or w.chance(70) else pd.Index([f"s{i}" for i in range(n)])
    pred = pd.Series(when, index=labels)
    evalt = pd.Series(ev, index=labels)
    X = pd.DataFrame({"id": np.arange(n, dtype=float), "x": rs.randn(n)}, index=labels)
    return X, pred, evalt, step


def make_embargo(sim, step):
    k = sim.w.pick((0, 0, 1, 2, 5, 100))
    extra = sim.w.pick((0, 0, 1)) * (k > 0)
    return pd.Timedelta((k * step // 10 ** 6 + extra) * 10 ** 6, unit="ns")


def make_groups(sim, n, most=60):
    while True:
        g = sim.w.pick((5, 2, 3, 4, 6, 7, 8, 10))
        k = sim.w.between(1, g - 1) if sim.w.chance(80) or g < 3 else 2
        if g <= n and len(list(itertools.combinations(range(g), k))) <= most:
            return g, k


def blocks(test):
    """Contiguous runs of a sorted position array, as (start, end)."""
    cut = np.flatnonzero(np.diff(test) > 1)
    starts = np.concatenate(([test[0]], test[cut + 1]))
    ends = np.concatenate((test[cut], [test[-1]])) + 1
    return list(zip(starts.tolist(), ends.tolist()))


def expected_train(test, pred, ev, embargo):
    """pred, ev: int64 nanoseconds by position."""
    n = len(pred)
    keep = np.ones(n, bool)
    keep[test] = False
    pos = np.arange(n)
    for s, e in blocks(test):
        keep &= ~((pos < s) & (ev >= pred[s]))
        keep &= ~((pos >= e) & (pred <= ev[s:e].max() + embargo))
    return pos[keep]


def nanos(s):
    s = pd.DatetimeIndex(s)
    return (s.tz_convert("UTC").tz_localize(None) if s.tz is not None else s).values.astype("datetime64[ns]").astype(np.int64)


def judge_split(sim, train, test, pred, ev, embargo, who):
    train, test = np.asarray(train), np.asarray(test)
    sim.expect(len(test) > 0 and (np.diff(test) > 0).all(), "test set", lambda: f"{who}: test positions {test.tolist()}")
    got = np.sort(train)
    want = expected_train(test, pred, ev, embargo)
    if len(got) == len(want) and (got == want).all():
        return
    leaked = sorted(set(got.tolist()) - set(want.tolist()))
    lost = sorted(set(want.tolist()) - set(got.tolist()))
    dup = len(got) != len(set(got.tolist()))
    sim.fail("leak" if leaked else "dropped" if lost else "train set", (
        f"{who}: test blocks {blocks(test)} of {len(pred)}, embargo {embargo} ns: train set "
        f"{'leaks ' + str(leaked) if leaked else ''} {'misses ' + str(lost) if lost else ''} {'repeats samples' if dup else ''}; "
        f"pred {pred.tolist()} eval {ev.tolist()}")[:1500])


def judge_groups(sim, tests, n, g, k, who):
    """All combinations of g contiguous near-equal groups, each once."""
    want = len(list(itertools.combinations(range(g), k)))
    keys = {tuple(np.asarray(t).tolist()) for t in tests}
    sim.expect(len(tests) == want and len(keys) == want, "combinations",
               lambda: f"{who}: {len(tests)} splits, {len(keys)} different, instead of {want} for {g} groups, {k} tested")
    member = np.zeros((n, len(tests)), bool)
    for j, t in enumerate(tests):
        member[np.asarray(t), j] = True
    edges = [0] + [i for i in range(1, n) if (member[i] != member[i - 1]).any()] + [n]
    sizes = np.diff(edges)
    sim.expect(len(sizes) == g and sizes.max() - sizes.min() <= 1, "groups",
               lambda: f"{who}: groups of sizes {sizes.tolist()} for {n} samples in {g} groups")
    combos = {tuple(i for i in range(g) if member[edges[i], j]) for j in range(len(tests))}
    sim.expect(combos == set(itertools.combinations(range(g), k)), "combinations",
               lambda: f"{who}: combinations {sorted(combos)}")
    return edges
