"""C15: CUSUM event sampling is an online filter."""
import numpy as np
import pandas as pd

from dst import fresh
from dst.core import size
from dst.live import live
from dst.market import make_bars, make_index, make_prices
from dst.sched import FAULT_KINDS, LineFault

RUNS = {"quick": 5000, "thorough": 100000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is a process that filters the bars received so far (delayed, stalled, lost and re-sent, duplicated) with one "
        "filter object and journals each new event durably; it crashes, restarts from a bar at which both sums were zero, "
        "and has calls interrupted; judged against a filter that sees one bar at a time; non-trivial: at least two events, "
        "and a computation on a strictly shorter history")
REAL = ["mizarlabs.transformers.sampling.down_sampling.CUSUMFilter", "pandas", "numpy"]
STUB = ["bar transport, clock, process and event journal (simulated)"]
ASSUMPTIONS = ["finite series, unique increasing times, positive threshold",
               "a move within rounding of the threshold may be decided either way (only in runs whose sums are not exact)"]


def warmup(tier):
    import mizarlabs.transformers.sampling.down_sampling  # noqa

    fresh.start()


def online(values, thr, margin):
    """Events (positions), the zero-state positions, and the first position decided within rounding (or None)."""
    up = down = 0.0
    events, zeros, close_call = [], [0], None
    for i in range(1, len(values)):
        d = values[i] - values[i - 1]
        up = max(0.0, up + d)
        down = min(0.0, down + d)
        if close_call is None and (abs(up - thr) <= margin or abs(down + thr) <= margin):
            close_call = i
        if down < -thr:
            events.append(i)
            down = 0.0
        elif up > thr:
            events.append(i)
            up = 0.0
        if up == 0 and down == 0:
            zeros.append(i)
    return events, zeros, close_call


def _filter(thr, series):
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter

    return CUSUMFilter(thr).transform(series)


def run(sim):
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter

    w = sim.w
    n = size(sim, (30, 2, 5, 12, 60, 100, 1), (1100, 4200))
    index = make_index(sim, n)
    exact = w.chance(60)
    if exact:                                       # multiples of 1/8: every sum is exact
        rs = w.np_random()
        kind = w.below(4)
        if kind == 0:
            steps = rs.randint(-3, 4, size=n)
        elif kind == 1:                             # slow drifts that only add up
            steps = np.sign(np.sin(np.arange(n) / rs.randint(2, 9))) + rs.randint(-1, 2, size=n)
        elif kind == 2:                             # jumps over the threshold, reversals
            steps = np.where(rs.rand(n) < 0.3, rs.randint(-40, 41, size=n), rs.randint(-1, 2, size=n))
        else:
            steps = np.where(rs.rand(n) < 0.5, 0, rs.choice([-8, -4, 4, 8], size=n))
        values = 100 + np.cumsum(steps) / 8.0
        thr = w.pick((1.0, 0.5, 0.125, 2.0, 4.0, 0.25))
        margin = -1.0
    else:
        values = make_prices(sim, n)
        if w.chance(50):
            values = np.log(values)
        moves = np.abs(np.diff(values))
        thr = float(max(moves.mean() if n > 1 else 1.0, 1e-6)) * w.pick((1.5, 0.5, 3.0, 6.0))
        margin = 1e-9 * max(1.0, np.abs(values).max())
    events, zeros, ambiguous = online(values, thr, margin)
    if ambiguous is not None and not exact:
        sim.probe("undecidable within rounding")
        return
    frame = pd.DataFrame({"close": values}, index=index)
    if w.chance(15) and exact and (values == values.astype(np.int64)).all():
        frame["close"] = frame["close"].astype(np.int64)
    f0 = frame.copy()
    sim.log("bars", n, "threshold", thr, "events", events)

    filt = CUSUMFilter(thr)
    journal = []                       # durable
    checkpoint = 0                     # durable: a bar at which both sums were zero
    lf = LineFault(sim)
    short = False

    def judge(got, lo, hi, what):
        want = [e for e in events if lo < e < hi]
        sim.expect(isinstance(got, pd.DatetimeIndex), "type", lambda: f"{what}: {type(got)}")
        sim.expect(list(got) == [index[e] for e in want], "events",
                   lambda: f"{what} on bars {lo}..{hi - 1} emits {[index.get_loc(t) if t in index else str(t) for t in got]}, "
                           f"a filter fed bar by bar emits {want} (threshold {thr})")
        return want

    for tick in live(sim, frame, calls=w.between(2, 6)):
        m = tick.n
        series = tick.frame["close"]
        if tick.restarted:
            filt = CUSUMFilter(thr)
        if sim.f.chance(20):
            s0 = series.copy()
            at = sim.f.between(1, 6 * m + 6)
            kind = sim.f.pick(FAULT_KINDS)
            try:
                lf.run(lambda: filt.transform(series), at, kind)
            except BaseException:  # noqa
                if not lf.fired:
                    raise
            sim.expect(series.equals(s0), "input modified", "an interrupted call modified the series")
        if w.chance(15):
            other = make_prices(sim, w.between(1, 30))
            sim.call("another series", filt.transform, pd.Series(other, index=make_index(sim, len(other))))
            sim.probe("other series in between")
        got = sim.call("filter", filt.transform, series)
        sim.log_data(f"{m} bars", got)
        judge(got, 0, m, "the filter")
        if m < n:
            short = True
        if sim.s.chance(25) and m > 1:
            # bar by bar: at most one new event, at the new bar
            k = sim.s.below(m - 1) + 1
            before = sim.call("filter", filt.transform, series.iloc[:k])
            after = sim.call("filter", filt.transform, series.iloc[:k + 1])
            new = list(after)[len(before):]
            sim.expect(list(after)[:len(before)] == list(before) and new in ([], [index[k]]), "new events",
                       lambda: f"bar {k} changed the events from {list(before)} to {list(after)}")
        # the journaling consumer: restarts from its checkpoint, exactly-once by position
        if checkpoint < m:
            part = series.iloc[checkpoint:]
            got = (fresh.ask(sim, "filter", _filter, thr, part) if sim.f.chance(3)
                   else sim.call("filter", filt.transform, part))
            judge(got, checkpoint, m, f"a filter restarted at bar {checkpoint}")
            if sim.f.chance(15):
                sim.fault("crash before the journal is written")
            else:
                have = set(journal)
                journal += [t for t in got if t not in have]
                z = [b for b in zeros if b < m]
                checkpoint = sim.s.pick([z[-1]] + z)
                if checkpoint:
                    sim.fault("history truncated at restart")
    # after the last bar everything is journaled
    got = sim.call("filter", CUSUMFilter(thr).transform, frame["close"].iloc[checkpoint:])
    have = set(journal)
    journal += [t for t in got if t not in have]
    sim.expect(sorted(journal) == [index[e] for e in events], "journal",
               lambda: f"journaled {[index.get_loc(t) for t in sorted(journal)]} instead of {events}")
    sim.expect(frame.equals(f0), "input modified", "the filter modified the series")
    judge(sim.call("filter", filt.transform, frame["close"]), 0, n, "the much used filter")
    sim.nontrivial = len(events) >= 2 and short
    sim.probe("events", len(events))
