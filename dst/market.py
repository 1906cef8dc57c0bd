"""A market on a virtual clock: bar series, feeds that misbehave, and what a live process has seen."""
import heapq

import numpy as np
import pandas as pd

MS = 10 ** 6      # nanoseconds
START = pd.Timestamp("2021-03-01").value


def make_index(sim, n, unit_ms=None, irregular=None, start=START):
    """n increasing, millisecond-resolution, naive times."""
    w = sim.w
    unit = unit_ms or w.pick((3600_000, 60_000, 1000, 7 * 3600_000, 1, 86_400_000))
    if irregular is None:
        irregular = w.pick((0, 1, 2))
    rs = w.np_random()
    if irregular == 0:
        gaps = np.full(n, unit, dtype=np.int64)
    elif irregular == 1:
        gaps = rs.randint(1, 2 * unit + 1, size=n).astype(np.int64)
    else:                                   # bursts and long silences
        gaps = np.where(rs.rand(n) < 0.1, unit * 40, np.where(rs.rand(n) < 0.5, max(1, unit // 50), unit)).astype(np.int64)
    ms = np.cumsum(gaps)
    return pd.DatetimeIndex(start + ms * MS)


def make_prices(sim, n, kind=None):
    """Positive closes; kinds stress ties, flats, jumps and exact binary fractions."""
    w = sim.w
    kind = kind or w.pick(("walk", "grid", "flats", "jumps", "trend", "meanrev"))
    rs = w.np_random()
    if kind == "walk":
        p = 100 * np.exp(np.cumsum(rs.randn(n) * 0.01))
    elif kind == "grid":                    # many exact ties
        p = 100 + np.clip(np.cumsum(rs.randint(-1, 2, size=n)), -90, 900).astype(float)
    elif kind == "flats":
        steps = rs.randn(n) * 0.02 * (rs.rand(n) < 0.4)
        p = 50 * np.exp(np.cumsum(steps))
    elif kind == "jumps":
        p = 20 * np.exp(np.cumsum(rs.randn(n) * 0.002 + (rs.rand(n) < 0.05) * rs.randn(n) * 0.2))
    elif kind == "trend":
        p = 30 * np.exp(np.linspace(0, rs.randn() * 0.8, n) + rs.randn(n) * 0.003)
    else:
        p = 10 + np.sin(np.arange(n) / (2 + 10 * rs.rand())) + rs.randn(n) * 0.05
    if w.chance(20):                        # coins that trade at a fraction of a cent, or in the thousands
        p = p * w.pick((2.0 ** -20, 1e-7, 1e-4, 1e4))
        sim.probe("prices of another magnitude")
    return np.asarray(p, dtype=float)


def dyadic_prices(sim, n, levels=(64.0, 128.0, 256.0)):
    """Powers of two: every return and barrier comparison is exact in binary floating point."""
    rs = sim.w.np_random()
    return rs.choice(levels, size=n).astype(float)


def make_bars(sim, index, prices=None, zero_volume=True):
    """Full bars with the columns the transformers expect."""
    n = len(index)
    rs = sim.w.np_random()
    close = make_prices(sim, n) if prices is None else prices
    open_ = np.concatenate(([close[0]], close[:-1]))
    hi = np.maximum(open_, close) * (1 + np.abs(rs.randn(n)) * 0.004)
    lo = np.minimum(open_, close) * (1 - np.abs(rs.randn(n)) * 0.004)
    buy = rs.gamma(2.0, 10.0, size=n)
    sell = rs.gamma(2.0, 10.0, size=n)
    if zero_volume and sim.w.chance(20):
        z = rs.rand(n) < 0.2
        buy[z] = 0.0
    vol = buy + sell
    df = pd.DataFrame(
        {
            "open": open_, "high": hi, "low": lo, "close": close,
            "base_asset_volume": vol, "base_asset_buy_volume": buy, "base_asset_sell_volume": sell,
            "quote_asset_volume": vol * close, "quote_asset_buy_volume": buy * close,
            "quote_asset_sell_volume": sell * close,
            "num_ticks": rs.randint(2, 60, size=n).astype(float),
            "num_buy_ticks": rs.randint(1, 30, size=n).astype(float),
        },
        index=index,
    )
    return df


class Clock:
    """Discrete-event time in integer milliseconds."""

    def __init__(self, sim):
        self.sim = sim
        self.now = 0
        self.q = []
        self.seq = 0

    def at(self, when, what, *payload):
        self.seq += 1
        heapq.heappush(self.q, (max(int(when), self.now), self.seq, what, payload))

    def next(self):
        when, _, what, payload = heapq.heappop(self.q)
        self.sim.time += (when - self.now) / 1000.0
        self.now = when
        return what, payload

    def __bool__(self):
        return bool(self.q)


class Feed:
    """Delivers the rows of a frame; the transport delays, duplicates, reorders, stalls and loses.

    Lost rows are re-sent after `backfill` (a real client asks for the gap); the receiver keeps a
    store keyed by time and exposes `known()`: every row received so far, in time order.
    """

    def __init__(self, sim, clock, name, frame, faults=()):
        self.name, self.frame = name, frame
        self.sim, self.clock = sim, clock
        self.have = np.zeros(len(frame), bool)
        self.times = (frame.index.values.astype("datetime64[ns]").astype(np.int64) // MS)
        step = int(np.median(np.diff(self.times))) if len(frame) > 1 else 1000
        stall_until = 0
        f = sim.f
        for i, t in enumerate(self.times):
            due = int(t)
            if "delay" in faults and f.chance(25):
                due += f.below(6) * step // 2
                sim.fault("feed delay")
            if "stall" in faults and f.chance(6):
                stall_until = max(stall_until, due + step * f.between(2, 8))
                sim.fault("feed stall")
            if due < stall_until:
                due = stall_until
            if "loss" in faults and f.chance(8):
                due += step * f.between(3, 12)
                sim.fault("feed loss, backfilled")
            clock.at(due, "row", self, i)
            if "dup" in faults and f.chance(12):
                clock.at(due + f.below(5) * step, "row", self, i)
                sim.fault("feed duplicate")

    def deliver(self, i):
        """True if the row is new."""
        new = not self.have[i]
        self.have[i] = True
        return new

    def known(self):
        return self.frame[self.have]

    def prefix_len(self):
        """Number of leading rows that are all known (the gap-free part)."""
        missing = np.flatnonzero(~self.have)
        return int(missing[0]) if len(missing) else len(self.have)

    def reset(self):
        self.have[:] = False
