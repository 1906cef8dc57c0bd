"""C11: feeds are aligned to the leading feed without look-ahead or loss."""
import numpy as np
import pandas as pd
from sklearn.preprocessing import FunctionTransformer

from dst.core import size
from dst.market import MS, Clock, Feed, make_index
from dst.sched import FAULT_KINDS, LineFault

RUNS = {"quick": 1600, "thorough": 30000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is a process that aligns, several times while data arrives, two to four feeds (each delayed, stalled, lost and "
        "re-sent, duplicated on its own) to a leading feed, after crashes and interrupted calls too; judged row by row "
        "against the definition on what had arrived, and against the whole history where the feeds were complete; "
        "non-trivial: some bar aggregates several rows and some bar has none")
REAL = ["mizarlabs.model.pipeline.StrategySignalPipeline (transform, alignment, data sets)", "MizarFeatureUnion", "pandas"]
STUB = ["feed transport, clock and process (simulated)", "a primary model that is a fixed function of its features"]
ASSUMPTIONS = ["leading times unique and increasing; other feeds in time order with at least one row",
               "feature values are complete except for a warm-up at the start of a feed",
               "aggregates agree up to 1e-12 relative"]


def warmup(tier):
    import mizarlabs.model.pipeline  # noqa


class FixedModel:
    """A fitted classifier that is a function of its features."""

    def __init__(self, classes=(0, 1)):
        self.classes_ = np.array(classes)
        self.n_classes_ = len(classes)

    def score(self, X):
        X = np.asarray(X, dtype=float)
        return np.floor(np.abs(np.nansum(X * (1 + np.arange(X.shape[1])), axis=1)) * 7) % 100

    def predict(self, X):
        return self.classes_[(self.score(X) % self.n_classes_).astype(int)]

    def predict_proba(self, X):
        s = self.score(X)
        p = 0.5 + (s % 50) / 101.0
        out = np.empty((len(s), self.n_classes_))
        out[:] = ((1 - p) / (self.n_classes_ - 1))[:, None]
        out[np.arange(len(s)), (s % self.n_classes_).astype(int)] = p
        return out


def first_columns(X, k=1):
    return X.iloc[:, :k]


def shifted(X, lag=0):
    return X.shift(lag)


HOW = {"mean": np.mean, "min": np.min, "max": np.max}


def align(lead, values, times, how):
    """By definition: lead and times in ns, one row of options per bar (list of acceptable rows)."""
    out = np.full((len(lead), values.shape[1]), np.nan)
    counts = []
    prev = None
    last = np.full(values.shape[1], np.nan)
    for i, t in enumerate(lead):
        rows = np.flatnonzero((times <= t) & (times > prev)) if prev is not None else np.flatnonzero(times <= t)
        prev = t
        counts.append(len(rows))
        if len(rows):
            agg = HOW[how](values[rows], axis=0) if len(rows) > 1 else values[rows[0]]
            last = np.where(np.isnan(agg), last, agg)
        out[i] = last
    return out, counts


def make_feed(sim, lead, k, tz):
    """Times related to the leading bars in one of several ways; values are random."""
    w = sim.w
    n = len(lead)
    a, b = lead[0].value // MS, lead[-1].value // MS
    span = max(1, b - a)
    rs = w.np_random()
    kind = w.below(7)
    m = w.pick((n, 2 * n, 5 * n, max(1, n // 3), 1))
    if kind == 0:                         # anywhere, from before the start to after the end
        t = a + (rs.rand(m) * 1.3 - 0.15) * span
    elif kind == 1:                       # exactly on leading bars, with some missing
        t = (lead.asi8 // MS)[rs.rand(n) < 0.7].astype(float)
    elif kind == 2:                       # bursts
        centres = a + rs.rand(max(1, m // 6)) * span
        t = (centres[:, None] + rs.rand(6) * span / n / 2).ravel()
    elif kind == 3:                       # starts late
        t = a + (0.4 + 0.7 * rs.rand(m)) * span
    elif kind == 4:                       # ends early (stalled)
        t = a + (rs.rand(m) * 0.5 - 0.2) * span
    elif kind == 5:                       # on the bars, and a millisecond before and after
        t = np.concatenate([(lead.asi8 // MS) + d for d in (-1, 0, 1)]).astype(float)
        t = t[rs.rand(len(t)) < 0.6]
    else:
        t = a - rs.rand(m) * span         # all before the first bar
    t = np.sort(t.astype(np.int64))
    if not len(t):
        t = np.array([a], dtype=np.int64)
    if not w.chance(25):                  # rows of one feed stamped alike (ticks) only now and then
        t = np.unique(t)
    idx = pd.DatetimeIndex(t * MS)
    if tz:
        idx = idx.tz_localize("UTC")
    v = rs.randn(len(t), k)
    if w.chance(40):
        v = np.round(v * 4)
    if w.chance(25):
        v[: w.between(1, 3)] = np.nan     # warm-up of a rolling feature
    return pd.DataFrame(v, index=idx, columns=[f"f{j}" for j in range(k)])


def same(a, b):
    return np.isclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True)


def run(sim):
    from mizarlabs.model.pipeline import MizarFeatureUnion, StrategySignalPipeline

    w, f = sim.w, sim.f
    n = size(sim, (15, 2, 6, 30, 1), (260, 520))
    tz = w.chance(20)
    lead = make_index(sim, n)
    rs = w.np_random()
    frames = {"lead": pd.DataFrame(rs.randn(n, 2), index=lead.tz_localize("UTC") if tz else lead, columns=["a", "b"])}
    for j in range(w.between(1, 3)):
        frames[f"feed{j}"] = make_feed(sim, lead, w.between(1, 3), tz)
    keys = w.shuffled(list(frames))
    how = {k: w.pick(("mean", "min", "max")) for k in frames if k != "lead"}

    def transformer(key):
        kind = w.below(4)
        if kind == 0:
            return None, lambda X: X
        if kind == 1:
            return FunctionTransformer(first_columns), first_columns
        if kind == 2:
            return (MizarFeatureUnion([("one", FunctionTransformer(first_columns)), ("two", FunctionTransformer())]),
                    lambda X: pd.concat([X.iloc[:, :1], X], axis=1))
        lag = w.between(0, 1)
        return FunctionTransformer(shifted, kw_args={"lag": lag}), lambda X: X.shift(lag)

    primary = {k: transformer(k) for k in keys}
    meta_keys = w.subset(keys, 60)
    meta = {k: transformer(k) for k in meta_keys}
    use_proba = w.chance(60)
    pipe = StrategySignalPipeline(
        {k: v[0] for k, v in primary.items()}, "lead", dict(how), {k: v[0] for k, v in meta.items()} or None,
        metalabeling_use_proba_primary_model=use_proba, metalabeling_use_predictions_primary_model=use_proba,
    )
    model = FixedModel((-1, 1))
    pipe.set_primary_model(model)
    y_all = pd.Series(w.np_random().choice([-1.0, 1.0, np.nan], p=(.45, .45, .1), size=n), index=frames["lead"].index)
    sim.log("feeds", {k: len(v) for k, v in frames.items()}, how, "meta", meta_keys, "tz", tz)

    ns = {k: v.index.asi8 for k, v in frames.items()}
    stats = dict(many=False, none=False)

    def expected(specs, known, names):
        cols = []
        lead_t = known["lead"].index.asi8
        for k in names:
            X = specs[k][1](known[k])
            if k == "lead":
                cols.append(X.values.astype(float))
            else:
                got, counts = align(lead_t, X.values.astype(float), known[k].index.asi8, how[k])
                stats["many"] |= max(counts) > 1
                stats["none"] |= 0 in counts
                cols.append(got)
        return np.column_stack(cols)

    whole = expected(primary, frames, keys)
    whole_meta = expected(meta, frames, meta_keys) if meta_keys else None

    def observe(known, what):
        passed = {k: known[k] for k in sim.s.shuffled(list(known))}
        copies = {k: v.copy() for k, v in passed.items()}
        m = len(known["lead"])
        y = y_all.iloc[:m]
        X, y2 = sim.call(what, pipe.create_dataset_primary, passed, y, drop_na=False)
        sim.log_data("aligned", X)
        sim.expect(X.index.equals(known["lead"].index), "rows", lambda: f"{what}: {len(X)} rows for {m} leading bars")
        got = X.values.astype(float)
        want = expected(primary, known, keys)
        judge(got, want, known, what)
        sim.expect(y2.equals(y), "labels", "the labels changed")
        complete = ~np.isnan(want).any(axis=1)
        usable = complete & y.notna().values
        if usable.any() and sim.s.chance(50):
            Xd, yd = sim.call(what, pipe.create_dataset_primary, passed, y)
            sim.expect(list(Xd.index) == list(y.index[usable]) and same(Xd.values.astype(float), want[usable]).all()
                       and (yd.index == Xd.index).all() and (yd.values == y.values[usable]).all(), "training data set",
                       lambda: f"{what}: rows {len(Xd)} of {usable.sum()} labelled bars with complete features")
        wm = expected(meta, known, meta_keys) if meta_keys else None
        both = usable & ~np.isnan(wm).any(axis=1) if meta_keys else usable
        if meta_keys and both.any() and sim.s.chance(70):
            Xm, ym = sim.call(what, pipe.create_dataset_metalabeling, passed, y)
            sim.expect(list(Xm.index) == list(y.index[both]) and (ym.index == Xm.index).all(), "rows of the meta data set",
                       lambda: f"{what}: {len(Xm)} rows, {both.sum()} labelled bars with complete features")
            judge(Xm.values[:, : wm.shape[1]].astype(float), wm[both], known, what + " (meta-model)")
            sim.probe("meta data sets")
        for k in passed:
            sim.expect(passed[k].equals(copies[k]) and list(passed[k].columns) == list(copies[k].columns)
                       and passed[k].dtypes.equals(copies[k].dtypes), "input modified", lambda: f"feed {k} was modified")
        # bars whose feeds were complete have their final value
        lead_t = known["lead"].index.asi8
        final = np.ones(m, bool)
        for k in keys:
            if k == "lead":
                continue
            missing = np.setdiff1d(ns[k], known[k].index.asi8)
            dup = len(known[k]) < len(frames[k]) and len(np.unique(ns[k])) < len(ns[k])
            first = missing.min() if len(missing) else np.inf
            if dup:
                first = min(first, first_missing(frames[k], known[k]))
            final &= lead_t < first
        ok = same(got, whole[:m]) | ~final[:, None]
        if not ok.all():
            r, c = map(int, np.argwhere(~ok)[0])
            sim.fail("repaints", f"{what}: bar {r} had every row up to its time and is {got[r, c]}, later {whole[r, c]}")
        sim.probe("bars judged", m)
        if m < n:
            sim.probe("partial histories")

    def first_missing(full, part):
        c = full.index.value_counts()
        p = part.index.value_counts()
        miss = [t.value for t in c.index if p.get(t, 0) < c[t]]
        return min(miss) if miss else np.inf

    def judge(got, want, known, what):
        sim.expect(got.shape == want.shape, "columns", lambda: f"{what}: shape {got.shape} instead of {want.shape}")
        ok = same(got, want)
        if not ok.all():
            r, c = map(int, np.argwhere(~ok)[0])
            sim.fail("aligned value", f"{what}: bar {r} column {c} is {got[r, c]}, the feed's rows up to it give {want[r, c]} ({how})")

    # -- history ---------------------------------------------------------------------------------
    clock = Clock(sim)
    clock.now = int(min(v.min() for v in ns.values()) // MS) - 1
    end = int(max(v.max() for v in ns.values()) // MS)
    faults = ("delay", "stall", "loss", "dup")
    feeds = {k: Feed(sim, clock, k, frames[k], faults if f.chance(75) else ()) for k in frames}
    begin, stop = int(lead[0].value // MS), int(lead[-1].value // MS)
    for _ in range(w.between(1, 4)):
        clock.at(begin + w.below(1001) * max(1, stop - begin) // 1000 + 1, "align")
    if f.chance(25):
        clock.at(begin + f.below(1001) * max(1, stop - begin) // 1000, "crash")
    lf = LineFault(sim)
    while clock:
        what, payload = clock.next()
        if what == "row":
            payload[0].deliver(payload[1])
        elif what == "crash":
            sim.fault("process crash and restart")
            for fd in feeds.values():
                have = np.flatnonzero(fd.have)
                fd.reset()
                for i in have:
                    clock.at(clock.now + 1 + sim.s.below(3), "row", fd, int(i))
        else:
            known = {k: fd.known() for k, fd in feeds.items()}
            known["lead"] = frames["lead"].iloc[: feeds["lead"].prefix_len()]
            sim.schedule_event("align", {k: len(v) for k, v in known.items()})
            if any(len(v) == 0 for v in known.values()):
                sim.probe("nothing received yet")
                continue
            if f.chance(20):
                y = y_all.iloc[: len(known["lead"])]
                k0 = {k: v.copy() for k, v in known.items()}
                at, kind = f.between(1, 60 + 12 * len(known["lead"])), f.pick(FAULT_KINDS)
                try:
                    lf.run(lambda: pipe.create_dataset_primary(known, y, drop_na=False), at, kind)
                except BaseException:  # noqa
                    if not lf.fired:
                        raise
                for k, v in known.items():
                    sim.expect(v.equals(k0[k]), "input modified", lambda: f"an interrupted call modified the frame {k}")
            observe(known, f"at {clock.now}")
    observe(frames, "at the end")
    sim.nontrivial = stats["many"] and stats["none"]
