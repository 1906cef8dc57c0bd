"""C17: sample weights of a live book of samples follow concurrency, returns and decay."""
import math

import numpy as np
import pandas as pd

from dst import fresh
from dst.core import size
from dst.market import MS, Clock, make_index, make_prices
from dst.sched import FAULT_KINDS, LineFault

RUNS = {"quick": 2500, "thorough": 100000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is a process that opens a sample at every bar, learns when it ends (late, in bursts, out of order), forgets old samples, "
        "crashes and restarts from an archive that may be truncated, and asks for the weights of the samples it holds in "
        "the order it holds them; judged against the definitions evaluated on the open samples at every time point, and "
        "against the values given before; non-trivial: at least three overlapping samples and two different books")
REAL = ["mizarlabs.transformers.sample_weights", "mizarlabs.transformers.sampling.average_uniqueness",
        "mizarlabs.model.bootstrapping.get_ind_matrix / calc_average_uniqueness", "pandas", "numpy", "scipy.sparse"]
STUB = ["arrival of bars and closes, clock, process and archive (simulated)"]
ASSUMPTIONS = ["a sample ends at or after its start, start times are unique, prices positive, -1 < minimum decay weight <= 1",
               "weights by returns are asked for with the rows in time order", "values agree up to 1e-9 relative"]


def warmup(tier):
    import mizarlabs.transformers.sample_weights  # noqa

    fresh.start()


class Sample:
    __slots__ = ("i", "start", "end", "close", "known")

    def __init__(self, i, start, end, close):
        self.i, self.start, self.end, self.close, self.known = i, start, end, close, False


def open_counts(samples):
    """time point -> number of samples open at it, over every start and end (a sweep over opens and closes)."""
    opens, closes = {}, {}
    for s in samples:
        opens[s.start] = opens.get(s.start, 0) + 1
        closes[s.end] = closes.get(s.end, 0) + 1
    out, now = {}, 0
    for t in sorted(set(opens) | set(closes)):
        now += opens.get(t, 0)
        out[t] = now
        now -= closes.get(t, 0)
    return out


def uniqueness(samples):
    counts = open_counts(samples)
    times = sorted(counts)
    return {s.i: math.fsum(1.0 / counts[t] for t in times if s.start <= t <= s.end) / sum(s.start <= t <= s.end for t in times)
            for s in samples}


def by_returns(samples):
    rows = sorted(samples, key=lambda s: s.start)
    counts = open_counts(samples)
    move = {b.start: math.log(b.close) - math.log(a.close) for a, b in zip(rows, rows[1:])}
    scale = max([abs(v) for v in move.values()], default=0.0)
    return {s.i: abs(math.fsum(v / counts[t] for t, v in move.items() if s.start <= t <= s.end)) for s in samples}, scale


def decay(samples, c):
    u = uniqueness(samples)
    total = math.fsum(u.values())
    out, cum = {}, 0.0
    for s in sorted(samples, key=lambda s: s.start):
        cum += u[s.i]
        x = cum / total                                   # 0 .. 1, the newest sample is at 1
        out[s.i] = c + (1 - c) * x if c >= 0 else max(0.0, 1 - (1 - x) / (1 + c))
    return out


def _transform(which, c, frame):
    return make(which, c).transform(frame)


def make(which, c, end="event_end_time", close="close"):
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness

    if which == "uniqueness":
        return AverageUniqueness(end)
    if which == "returns":
        return SampleWeightsByReturns(end, close)
    return SampleWeightsByTimeDecay(c, end)


def run(sim):
    w = sim.w
    n = size(sim, (20, 3, 8, 40, 1, 2, 70), (260, 520))
    index = make_index(sim, n)
    prices = make_prices(sim, n)
    rs = w.np_random()
    times = index.asi8 // MS
    step = int(np.median(np.diff(times))) if n > 1 else 1000
    kind = w.pick(("bars", "any", "point", "nested", "mixed"))
    horizon = w.pick((3, 1, 8, 25))
    samples = []
    for i in range(n):
        t = int(times[i])
        k = kind if kind != "mixed" else ("bars", "any", "point")[rs.randint(3)]
        if k == "bars":                                     # closes at one of the next bars
            e = int(times[min(n - 1, i + rs.randint(0, horizon + 1))])
        elif k == "point":
            e = t
        elif k == "nested":                                 # all end together
            e = int(times[-1]) + step
        else:
            e = t + int(rs.randint(0, horizon * step + 1))
        samples.append(Sample(i, t, e, float(prices[i])))
    c = w.pick((0.5, 1.0, 0.0, -0.5, -0.2, -0.9, 0.1))
    tz = "UTC" if w.chance(15) else None
    end_name, close_name = ("event_end_time", "close") if w.chance(70) else ("t1", "px")
    objects = {k: make(k, c, end_name, close_name) for k in ("uniqueness", "returns", "decay")}
    lf = LineFault(sim)
    sim.log("samples", n, kind, "decay", c)

    # arrival: a sample can be used once its end is known (late announcements, bursts)
    clock = Clock(sim)
    clock.now = int(times[0])
    last = 0
    for s in samples:
        due = s.end
        if sim.f.chance(25):
            due += sim.f.below(8) * step
            sim.fault("end announced late")
        last = max(last, due)
        clock.at(due, "known", s)
    span = max(1, last - clock.now)
    calls = w.between(2, 5)
    for _ in range(calls):
        clock.at(clock.now + 1 + w.below(1000) * span // 1000, "compute")
    if sim.f.chance(40):
        clock.at(clock.now + sim.f.below(1000) * span // 1000, "crash")
    clock.at(last + 1, "compute")
    held = []                                               # in the order in which their ends became known
    final = {}
    books = set()
    overlap = 0

    def frame_of(book):
        f = pd.DataFrame({close_name: [s.close for s in book], end_name: pd.to_datetime([s.end * MS for s in book])},
                         index=pd.DatetimeIndex([s.start * MS for s in book]))
        if tz:
            f.index = f.index.tz_localize(tz)
            f[end_name] = f[end_name].dt.tz_localize(tz)
        return f

    def judge(which, book, got, frame, what):
        sim.expect(isinstance(got, pd.Series) and len(got) == len(frame) and set(got.index) == set(frame.index), "rows",
                   lambda: f"{what}: {type(got).__name__} with {len(got)} rows for {len(frame)} samples")
        atol = 1e-12
        if which == "uniqueness":
            want = uniqueness(book)
        elif which == "decay":
            want = decay(book, c)
            atol = 1e-9
        else:
            want, scale = by_returns(book)
            atol = 1e-12 * max(1.0, max(math.log(s.close) for s in book)) + 1e-9 * scale * 1e-3
        values = dict(zip(got.index, got.values))
        for s, t in zip(book, frame.index):
            v = float(values[t])
            sim.expect(abs(v - want[s.i]) <= atol + 1e-9 * abs(want[s.i]), "value",
                       lambda: f"{what}: sample {s.i} of {len(book)} has {v!r}, the definition gives {want[s.i]!r}"
                               + (f" (decay {c})" if which == "decay" else ""))
        return {s.i: want[s.i] for s in book}

    while clock:
        what, payload = clock.next()
        if what == "known":
            s = payload[0]
            if not s.known:
                s.known = True
                held.append(s)
        elif what == "crash":
            sim.fault("process crash and restart")
            archive = list(held)
            held = []
            if archive and sim.f.chance(50):                # old samples are not in the archive any more
                first = sorted(a.start for a in archive)[sim.f.below(len(archive))]
                if any(a.start < first for a in archive):
                    sim.fault("archive truncated")
                archive = [a for a in archive if a.start >= first]
            held = sim.s.shuffled(archive) if sim.s.chance(50) else archive
            final.clear()
            objects = {k: make(k, c, end_name, close_name) for k in objects}
            sim.schedule_event("crash", len(held))
        else:
            if not held:
                continue
            book = list(held)
            sim.schedule_event("compute", *sorted(s.i for s in book))
            books.add(tuple(sorted(s.i for s in book)))
            overlap = max([overlap] + list(open_counts(book).values()))
            for which, t in objects.items():
                b = sorted(book, key=lambda s: s.start) if which == "returns" else book
                if sim.f.chance(25):
                    # first with preliminary ends, which are corrected later
                    early = [Sample(s.i, s.start, s.start + sim.f.pick((0, 1, s.end - s.start)) if s.end > s.start else s.end, s.close) for s in b]
                    sim.fault("preliminary ends")
                    frame = frame_of(early)
                    judge(which, early, sim.call(which, t.transform, frame), frame, which + ", preliminary ends")
                frame = frame_of(b)
                f0 = frame.copy()
                if sim.f.chance(12):
                    kind_ = sim.f.pick(FAULT_KINDS)
                    at = sim.f.between(1, 60)
                    try:
                        lf.run(lambda: t.transform(frame), at, kind_)
                    except BaseException:  # noqa
                        if not lf.fired:
                            raise
                    sim.expect(frame.equals(f0), "input modified", f"an interrupted call of {which} modified the samples")
                if sim.f.chance(10) and len(b) > 1:
                    bad = frame.copy()
                    if sim.f.chance(50) or which == "returns":
                        bad.iloc[sim.f.below(len(bad)), 1] = pd.NaT
                        sim.fault("unresolved sample in the frame")
                    else:
                        bad = pd.concat([bad, bad.iloc[[sim.f.below(len(bad))]]])
                        sim.fault("repeated sample in the frame")
                    try:
                        t.transform(bad)
                    except Exception as e:  # noqa
                        sim.log("refused", type(e).__name__)
                    else:
                        sim.fail("accepted", f"{which}: a frame with a missing end or a repeated time gets weights")
                if sim.f.chance(3) and not tz and end_name == "event_end_time":
                    got = fresh.ask(sim, which, _transform, which, c, frame)
                else:
                    got = sim.call(which, t.transform, frame)
                sim.log_data(which, got)
                sim.expect(frame.equals(f0), "input modified", f"{which} modified the samples")
                judge(which, b, got, frame, which)
                if which == "uniqueness":
                    values = dict(zip(got.index, got.values))
                    for s, ts in zip(b, frame.index):
                        # every sample that starts up to its end is in the book: this is its last word
                        if s.i in final:
                            sim.expect(abs(values[ts] - final[s.i]) < 1e-12, "not final",
                                       lambda: f"uniqueness of sample {s.i} changed from {final[s.i]} to {values[ts]}")
                        elif all(o.known for o in samples if o.start <= s.end):
                            final[s.i] = float(values[ts])
                            sim.probe("final values")
            if sim.f.chance(15):                             # retention: the oldest samples are dropped from memory
                cut = sorted(s.start for s in held)[sim.f.below(len(held))]
                if any(s.start < cut for s in held):
                    sim.fault("old samples dropped")
                    final.clear()
                    held = [s for s in held if s.start >= cut]
    sim.nontrivial = overlap >= 3 and len(books) >= 2
