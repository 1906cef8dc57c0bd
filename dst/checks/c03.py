"""C03: averaged bet sizes are the mean of the bets open at each instant."""
import math

import numpy as np
import pandas as pd

from dst import numbasim, pymode
from dst.core import close, size, terse
from dst.market import Clock

RUNS = {"quick": 2400, "thorough": 30000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one history of a book of bets on the virtual clock (opens, closes, announcements of closes that are "
        "delayed, repeated or lost until the close itself, restarts) sized several times, each time under its own worker "
        "count, cut, order and heap contents; non-trivial: an averaged sizing with several workers and at least two "
        "bets open at the same instant")
REAL = ["mizarlabs.transformers.trading.bet_sizing", "numba code generation", "pandas", "numpy", "scipy.stats.norm"]
STUB = ["numba threading layer (simulated workers)", "event transport and clock (simulated)",
        "statement-level engine: kernel source executed by CPython"]
ASSUMPTIONS = ["bets open at unique millisecond times after 1970 and close at or after their opening",
               "predictions in [-1,1], sides in {-1,0,1}, probabilities in (0,1]",
               "exactly half-way values may be discretised either way"]


def warmup(tier):
    numbasim.install()
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

    idx = pd.date_range("2021-01-01", periods=4, freq="H")
    X = pd.DataFrame({"prob": [.5, .6, .7, .8], "pred": [1, 1, 0, 1], "event_end_time": idx}, index=idx)
    BetSizingFromProbabilities(2, average_active=True).transform(X)


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def signal(p, pred, n):
    if p >= 1.0:
        z = math.inf
    else:
        z = (p - 1.0 / n) / math.sqrt(p * (1 - p))
    return pred * (2 * phi(z) - 1)


def discrete_options(x, step):
    q = x / step
    k = math.floor(q)
    frac = q - k
    ks = [k] if frac < 0.5 - 1e-9 else [k + 1] if frac > 0.5 + 1e-9 else [k, k + 1]
    return [max(-1.0, min(1.0, round(v * step, 3))) for v in ks]


def run(sim):
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

    w = sim.w
    numbasim.begin(sim)
    numbasim.heap(sim)
    n = size(sim, (8, 1, 2, 3, 15, 30, 60), (300, 550))
    ncls = w.pick((2, 2, 3, 4))
    meta = w.chance(40)
    average = w.chance(80)
    step = w.pick((None, None, 0.1, 0.25, 0.05, 0.3, 0.6, 0.7))
    pcol, dcol, scol, ecol, bcol = w.pick((("prob", "pred", "side", "event_end_time", "bet_size"),
                                           ("p", "y", "s", "end", "size")))
    kw = dict(num_classes=ncls, average_active=average, meta_labeling=meta, discretise=step is not None, step_size=step,
              probability_column_name=pcol, prediction_column_name=dcol, side_column_name=scol,
              event_end_time_column_name=ecol, bet_size_column_name=bcol)
    rs = w.np_random()
    base = pd.Timestamp("2021-06-01").value // 10 ** 6
    unit = w.pick((3600_000, 60_000, 1, 1000))
    opens = base + np.cumsum(rs.randint(1, 5, size=n)) * unit
    length = rs.randint(0 if w.chance(10) else 1, 20, size=n) * unit
    ends = opens + length
    if w.chance(50):          # several bets close, or close and open, at the same instant
        ends = np.where(rs.rand(n) < 0.5, opens[np.minimum(n - 1, np.arange(n) + rs.randint(1, 6, size=n))], ends)
        ends = np.maximum(ends, opens + 1)
    never = rs.rand(n) < w.pick((0.0, 0.15, 0.5, 1.0))
    prob = np.clip(rs.rand(n), 0.01, 0.999)
    if w.chance(20):
        prob[rs.rand(n) < 0.2] = 1.0
    if w.chance(20):
        prob[rs.rand(n) < 0.3] = 1.0 / ncls
    pred = rs.choice([0, 1], size=n) if meta else rs.choice([-1, 0, 1], size=n)
    side = rs.choice([-1, 0, 1], size=n)
    sig = np.array([signal(prob[i], pred[i], ncls) * (side[i] if meta else 1) for i in range(n)])
    sim.log("config", sorted((k, str(v)) for k, v in kw.items()), "bets", n)

    # -- history ---------------------------------------------------------------------------------
    clock = Clock(sim)
    clock.now = int(opens[0])
    f = sim.f
    for i in range(n):
        clock.at(opens[i], "open", i)
        if not never[i]:
            if f.chance(30):                # the close becomes known late, at the latest when it happens
                at = int(opens[i] + (ends[i] - opens[i]) * f.below(101) // 100)
                sim.fault("late announcement")
            else:
                at = int(opens[i])
            clock.at(at, "announce", i)
            if f.chance(10):
                clock.at(at + f.below(5) * unit, "announce", i)
                sim.fault("repeated announcement")
    span = int(max(ends.max(), opens.max()) - opens[0])
    for _ in range(w.between(1, 4)):
        clock.at(opens[0] + w.below(1001) * span // 1000, "size")
    if f.chance(30):
        clock.at(opens[0] + f.below(1001) * span // 1000, "restart")
    kw = terse(sim, kw, dict(average_active=False, meta_labeling=False, discretise=False, probability_column_name="prob",
                             prediction_column_name="pred", side_column_name="side", event_end_time_column_name="event_end_time",
                             bet_size_column_name="bet_size"))
    sizer = BetSizingFromProbabilities(**kw)
    opened, known = [], {}
    past = {}
    calls = 0

    def compute(now):
        nonlocal calls
        calls += 1
        rows = list(opened)
        if w.chance(25):
            rows = w.shuffled(rows)
        e = np.array([known.get(i, np.iinfo(np.int64).min) for i in rows])
        X = pd.DataFrame({pcol: prob[rows], dcol: pred[rows], scol: side[rows]},
                         index=pd.DatetimeIndex(opens[rows] * 10 ** 6))
        X[ecol] = pd.to_datetime(pd.Series([pd.NaT if i not in known else pd.Timestamp(int(known[i]) * 10 ** 6)
                                            for i in rows], index=X.index, dtype="datetime64[ns]"))
        numbasim.rethread(sim)
        if f.chance(40):
            numbasim.heap(sim)
        out = sim.call("sizing", sizer.transform, X)
        sim.log_data(f"sizes of {len(rows)} bets", out)
        judge(sim, out, rows, now, e)
        if average:
            vals = dict(zip(out.index.values.astype("datetime64[ns]").astype(np.int64) // 10 ** 6, out.values))
            now_map = {t: v for t, v in vals.items() if t <= now}
            for t, v in past.items():
                if t > now:
                    continue
                sim.expect(t in now_map and close(now_map[t], v, rtol=1e-9, atol=1e-12).all() or step is not None
                           and t in now_map and abs(now_map[t] - v) <= step + 1e-9,
                           "past size changed", lambda: f"at {t} the size was {v}, computed at {now} it is {now_map.get(t)}")
            past.update(now_map)
        return X

    def judge(sim, out, rows, now, e):
        sim.expect(isinstance(out, pd.Series), "type", f"{type(out)}")
        if not average:
            sim.expect(len(out) == len(rows) and (out.index.values == (opens[rows] * 10 ** 6).astype("datetime64[ns]")).all(),
                       "rows", "one size per bet, in order, is expected")
            want = [(sig[i], f"bet {i}") for i in rows]
        else:
            instants = sorted(set(opens[rows].tolist()) | {int(known[i]) for i in rows if i in known})
            got_t = (out.index.values.astype("datetime64[ns]").astype(np.int64) // 10 ** 6).tolist()
            sim.expect(got_t == instants, "instants", lambda: f"sizes at {got_t}, expected at {instants}")
            want = []
            for t in instants:
                act = [i for i in rows if opens[i] <= t and (i not in known or known[i] > t)]
                want.append((float(np.mean(sig[act])) if act else 0.0, f"instant {t} with bets {act}"))
                if len(act) > 1 and numbasim._state["threads"] > 1:
                    sim.nontrivial = True
        got = out.values.astype(float)
        for g, (x, where) in zip(got, want):
            if step is None:
                sim.expect(bool(close(g, abs(x), rtol=1e-8, atol=1e-11)), "size",
                           lambda: f"{where}: size {g} instead of {abs(x)} ({kw})")
            else:
                opts = [abs(o) for o in discrete_options(x, step)]
                sim.expect(any(abs(g - o) < 1e-6 for o in opts), "discretised size",
                           lambda: f"{where}: size {g}, signal {x}, expected one of {opts} ({kw})")
        sim.probe("sizes judged", len(got))

    while clock:
        what, payload = clock.next()
        if what == "open":
            if payload[0] not in opened:
                opened.append(payload[0])
        elif what == "announce":
            known[payload[0]] = ends[payload[0]]
        elif what == "restart":
            sizer = BetSizingFromProbabilities(**kw)
            sim.fault("process crash and restart")
        elif what == "size" and opened:
            # everything stamped up to now has been processed
            while clock.q and clock.q[0][0] <= clock.now:
                w2, p2 = clock.next()
                if w2 == "open":
                    opened.append(p2[0])
                elif w2 == "announce":
                    known[p2[0]] = ends[p2[0]]
            sim.schedule_event("size", len(opened), len(known))
            compute(clock.now)
    X = compute(int(max(clock.now, ends.max())))
    if n <= 15 and sim.s.chance(10):
        pymode.race_check(sim, "sizing", lambda: BetSizingFromProbabilities(**kw).transform(X),
                          lambda a, b: None if a.equals(b) else f"{a[a != b].to_dict()} became {b[a != b].to_dict()}")
