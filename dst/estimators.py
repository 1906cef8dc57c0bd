"""Reference estimators: each sees one bar at a time, keeps only what it needs, and returns (value, slack).

`slack` is how far the library's rolling sums may be off by rounding; a value of None means that the
definition leaves the value open (0/0, a threshold met within rounding); NaN means "no value yet".
"""
import math
from collections import deque

import numpy as np

NAN = float("nan")


def mean(xs):
    return math.fsum(xs) / len(xs)


class Window:
    """Mean of the last n values; no value while one of them is missing or infinite."""

    def __init__(self, n):
        self.n, self.xs = n, deque(maxlen=n)

    def add(self, x):
        self.xs.append(x)
        return self

    def full(self):
        return len(self.xs) == self.n and all(math.isfinite(x) for x in self.xs)

    def mean(self):
        return mean(self.xs) if self.full() else NAN

    def sum(self):
        return math.fsum(self.xs) if self.full() else NAN

    def std(self):
        if not self.full() or self.n < 2:
            return NAN
        m = mean(self.xs)
        return math.sqrt(math.fsum((x - m) ** 2 for x in self.xs) / (self.n - 1))


class Ewma:
    """Exponentially weighted mean of everything seen so far."""

    def __init__(self, span):
        self.q, self.num, self.den = 1 - 2 / (span + 1), 0.0, 0.0

    def add(self, x):
        self.num, self.den = x + self.q * self.num, 1 + self.q * self.den
        return self.num / self.den


class Diff:
    def __init__(self):
        self.last = None

    def add(self, x):
        d = NAN if self.last is None else x - self.last
        self.last = x
        return d


class Roll:
    """2 sqrt(|cov(move, previous move)|) over the last n pairs."""

    def __init__(self, n, impact=False):
        self.n, self.d, self.prev, self.pairs, self.impact, self.top = n, Diff(), NAN, deque(maxlen=n), impact, 0.0

    def add(self, b):
        d = self.d.add(b.close)
        if math.isfinite(d):
            self.top = max(self.top, abs(d))
        self.pairs.append((d, self.prev))
        self.prev = d
        if len(self.pairs) < self.n or any(math.isnan(x) or math.isnan(y) for x, y in self.pairs) or self.n < 2:
            return NAN, 0.0
        mx, my = mean([p[0] for p in self.pairs]), mean([p[1] for p in self.pairs])
        cov = math.fsum((x - mx) * (y - my) for x, y in self.pairs) / (self.n - 1)
        v = 2 * math.sqrt(abs(cov))
        # error of a covariance: relative to the largest move; of its root: at most the root of that
        err = 1e-9 * self.top ** 2 + 1e-15
        slack = 2 * (math.sqrt(abs(cov) + err) - math.sqrt(max(0.0, abs(cov) - err)))
        if not self.impact:
            return v, slack
        if b.quote_asset_volume == 0:
            return None, 0.0
        return v / b.quote_asset_volume, slack / b.quote_asset_volume


class Parkinson:
    def __init__(self, n):
        self.w = Window(n)

    def add(self, b):
        return self.w.add(math.log(b.high / b.low) ** 2).mean() / (4 * math.log(2)), 1e-13


class HighLow:
    """beta and gamma of Corwin and Schultz."""

    def __init__(self, n):
        self.n, self.bars, self.beta = n, deque(maxlen=2), Window(n)

    def parts(self, b):
        self.bars.append((b.high, b.low))
        if len(self.bars) < 2:
            self.beta.add(NAN)
            return NAN, NAN
        beta = self.beta.add(sum(math.log(h / l) ** 2 for h, l in self.bars)).mean()
        gamma = math.log(max(h for h, _ in self.bars) / min(l for _, l in self.bars)) ** 2
        return beta, gamma


DEN = 3 - 2 * math.sqrt(2)


class CorwinSchultz(HighLow):
    def add(self, b):
        beta, gamma = self.parts(b)
        if math.isnan(beta):
            return NAN, 0.0
        alpha = (math.sqrt(2) - 1) * math.sqrt(beta) / DEN - math.sqrt(gamma / DEN)
        alpha = max(alpha, 0.0)
        return 2 * (math.exp(alpha) - 1) / (1 + math.exp(alpha)), 1e-7


class BeckersParkinson(HighLow):
    def add(self, b):
        beta, gamma = self.parts(b)
        if math.isnan(beta):
            return NAN, 0.0
        k2 = math.sqrt(8 / math.pi)
        sigma = (math.sqrt(0.5) - 1) * math.sqrt(beta) / (k2 * DEN) + math.sqrt(gamma / (k2 ** 2 * DEN))
        return max(sigma, 0.0), 1e-7


class Impact:
    """Mean of |move| / f(volume) over the last n moves (Kyle, Amihud, Hasbrouck)."""

    def __init__(self, n, kind):
        self.w, self.d, self.kind, self.top = Window(n), Diff(), kind, 0.0

    def add(self, b):
        move = abs(self.d.add(b.close if self.kind == "kyle" else math.log(b.close)))
        vol = b.base_asset_volume if self.kind == "kyle" else b.quote_asset_volume
        vol = math.sqrt(vol) if self.kind == "hasbrouck" else vol
        x = move / vol if vol else NAN
        if math.isfinite(x):
            self.top = max(self.top, x)
        m = self.w.add(x).mean()
        return m, 1e-11 * self.top


class Vpin:
    def __init__(self, n):
        self.n, self.diff, self.vol, self.i, self.top = n, Window(n), Window(n), -1, 0.0

    def add(self, b):
        self.i += 1
        self.top = max(self.top, b.base_asset_volume)
        d = self.diff.add(abs(b.base_asset_buy_volume - b.base_asset_sell_volume)).sum()
        v = self.vol.add(b.base_asset_volume).sum()
        if math.isnan(v):
            return NAN, 0.0
        if v == 0:
            return (0.0 if self.i >= self.n else None), 0.0
        return d / v, 1e-11 * self.top / v


class ZScore:
    def __init__(self, n, key):
        self.w, self.key, self.d, self.top = Window(n), key, Diff(), 0.0

    def add(self, b):
        k = self.key
        if k == "buy_sell_diff":
            x = b.quote_asset_buy_volume - b.quote_asset_sell_volume
        elif k == "bar_arrival_time":
            x = self.d.add(b.time)
        elif k == "average_buy_size":
            x = b.quote_asset_buy_volume / b.num_buy_ticks
        elif k == "high_to_low_ratio":
            x = b.high / b.low
        else:
            x = b.close - b.open
        if math.isfinite(x):
            self.top = max(self.top, abs(x))
        self.w.add(x)
        s = self.w.std()
        if math.isnan(s):
            return NAN, 0.0
        if s < 1e-6 * self.top or s == 0:
            return None, 0.0
        return (x - self.w.mean()) / s, 1e-5


def whole(x):
    return x == math.floor(x) and abs(x) < 2 ** 40


class CrossOver:
    """+1 / -1 when the fast mean crosses the slow one; kept until the next crossing when filled."""

    def __init__(self, fast, slow, fill):
        self.f, self.s, self.fill, self.prev, self.state, self.top = Window(fast), Window(slow), fill, None, 0, 0.0
        self.exact = all(n & (n - 1) == 0 for n in (fast, slow))

    def add(self, b):
        self.top = max(self.top, abs(b.close))
        self.exact = self.exact and whole(b.close)
        f, s = self.f.add(b.close).mean(), self.s.add(b.close).mean()
        side = None if math.isnan(s) else f - s            # None: not warm
        open_ = False
        cross = 0
        if side is not None and self.prev is not None:
            if not self.exact and (abs(side) < 1e-9 * self.top or abs(self.prev) < 1e-9 * self.top):
                # equal up to rounding: the crossing may be seen now, before or not at all
                open_ = not (side > 1e-9 * self.top and self.prev > 1e-9 * self.top
                             or side < -1e-9 * self.top and self.prev < -1e-9 * self.top)
            elif self.prev >= 0 > side:
                cross = -1
            elif self.prev <= 0 < side:
                cross = 1
        self.prev = side
        if not self.fill:
            return (None if open_ else float(cross)), 0.0
        if open_:
            self.state = None
        elif cross:
            self.state = cross
        return (None if self.state is None else float(self.state)), 0.0


class EwmaDiff:
    def __init__(self, fast, slow, normalised):
        self.f, self.s, self.normalised, self.top = Ewma(fast), Ewma(slow), normalised, 0.0

    def add(self, b):
        self.top = max(self.top, abs(b.close))
        f, s = self.f.add(b.close), self.s.add(b.close)
        return ((f - s) / (f + 1) if self.normalised else f - s), 1e-12 * self.top


class Prefix:
    """For TA-lib based signals: TA-lib (trusted) on the closes so far."""

    def __init__(self):
        self.closes = []

    def talib(self, fn, b, *args, **kw):
        self.closes.append(float(b.close))
        out = fn(np.array(self.closes), *args, **kw)
        return out


class Macd(Prefix):
    def __init__(self, fast, slow, signal):
        super().__init__()
        self.p, self.last = (fast, slow, signal), NAN

    def add(self, b):
        import talib

        h = self.talib(talib.MACD, b, *self.p)[2][-1]
        s = NAN if math.isnan(h) else float(np.sign(h))
        out = (s - self.last) / 2
        self.last = s
        return out, 0.0


class MeanReversion(Prefix):
    def __init__(self, threshold, n):
        super().__init__()
        self.t, self.n = threshold, n

    def add(self, b):
        import talib

        e = self.talib(talib.EMA, b, timeperiod=self.n)[-1]
        if math.isnan(e):
            return 0.0, 0.0
        x = (b.close - e) / e
        if self.t and abs(abs(x) - self.t) < 1e-12:
            return None, 0.0
        return (-1.0 if x > self.t else 1.0 if x < -self.t else 0.0), 0.0


class BarArrivalRsi(Prefix):
    def __init__(self, k):
        super().__init__()
        self.k, self.d = k, Diff()
        self.f, self.s = Window(k["bar_arrival_fast_period"]), Window(k["bar_arrival_slow_period"])

    def add(self, b):
        import talib

        k = self.k
        r = self.talib(talib.RSI, b, timeperiod=k["rsi_timeperiod"])[-1]
        gap = self.d.add(b.time)
        if math.isnan(gap):
            return 0.0, 0.0                                  # the first bar has no arrival time
        f, s = self.f.add(gap).mean(), self.s.add(gap).mean()
        if math.isnan(r) or math.isnan(f) or math.isnan(s):
            return 0.0, 0.0
        x = (f - s) / k["max_bar_arrival_mean_diff"]
        eps = 1e-9 * max(1.0, max(abs(g) for g in self.s.xs) / k["max_bar_arrival_mean_diff"])
        if min(abs(x - k["bar_arrival_upper_threshold"]), abs(x - k["bar_arrival_lower_threshold"])) < eps:
            return None, 0.0
        return float(k["rsi_lower_threshold"] < r < k["rsi_upper_threshold"]
                     and k["bar_arrival_lower_threshold"] < x < k["bar_arrival_upper_threshold"]), 0.0


class RsiConfirm(Prefix):
    def __init__(self, k):
        super().__init__()
        self.k, self.m, self.d = k, Window(k["rsi_moving_average_window"]), Diff()
        self.below = deque(maxlen=k["rsi_confirmation_period"])

    def add(self, b):
        import talib

        k = self.k
        r = self.talib(talib.RSI, b, timeperiod=k["rsi_timeperiod"])[-1]
        m = self.m.add(r).mean()
        rise = self.d.add(m)
        self.below.append((not math.isnan(r)) and r < k["rsi_threshold"])
        if math.isnan(rise) or len(self.below) < k["rsi_confirmation_period"] or not all(self.below):
            return 0.0, 0.0
        if abs(rise) < 1e-9:
            return None, 0.0
        return float(rise > 0), 0.0


class Imbalance:
    def __init__(self, fast, slow, kind):
        self.kind, self.top = kind, 0.0
        self.m = [Ewma(fast), Ewma(fast), Ewma(slow), Ewma(slow)]

    def add(self, b):
        buy, sell, vol = (getattr(b, f"{self.kind}_asset_{x}volume") for x in ("buy_", "sell_", ""))
        self.top = max(self.top, buy, sell)
        fb, fs, sb, ss = self.m[0].add(buy), self.m[1].add(sell), self.m[2].add(buy), self.m[3].add(sell)
        return ((fb - fs) - (sb - ss)) / (vol + 1), 1e-12 * self.top / (vol + 1)


class LocalMax:
    def __init__(self, n):
        self.w = deque(maxlen=n)

    def add(self, b):
        self.w.append(b.high)
        return (max(self.w) / b.close if len(self.w) == self.w.maxlen else NAN), 1e-12


class DailyVol:
    """Exponentially weighted deviation of the returns since the last close more than a day ago."""

    DAY = 86_400 * 10 ** 9

    def __init__(self, span):
        self.q, self.bars, self.rets = 1 - 2 / (span + 1), [], []

    def add(self, b):
        old = [c for t, c in self.bars if t < b.time - self.DAY]
        self.bars.append((b.time, b.close))
        if not old:
            return NAN, 0.0
        self.rets.append(b.close / old[-1] - 1)
        n = len(self.rets)
        if n < 2:
            return NAN, 0.0
        ws = [self.q ** (n - 1 - i) for i in range(n)]
        sw, sw2 = math.fsum(ws), math.fsum(x * x for x in ws)
        m = math.fsum(x * r for x, r in zip(ws, self.rets)) / sw
        var = math.fsum(x * (r - m) ** 2 for x, r in zip(ws, self.rets)) / sw
        if sw * sw - sw2 <= 0:
            return None, 0.0
        f = sw * sw / (sw * sw - sw2)
        top = max(abs(r) for r in self.rets)
        v = math.sqrt(var * f)
        err = 1e-12 * f * top * top
        return v, math.sqrt(var * f + err) - math.sqrt(max(0.0, var * f - err)) + 1e-13
