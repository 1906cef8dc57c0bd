"""C06: sequential bootstrap draws follow average uniqueness given what is drawn."""
import contextlib

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin

from dst import joblibsim
from dst.core import size
from dst.market import make_index

RUNS = {"quick": 4000, "thorough": 100000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one bootstrap (direct, or of every member of an ensemble trained under simulated workers) whose random "
        "source is the simulator: real draws or adversarial outcomes; non-trivial: at least two probability refreshes "
        "after the first draw were compared with the model")
REAL = ["mizarlabs.model.bootstrapping", "mizarlabs.model.sequentially_bootstrapped_bagging_classifier", "scipy.sparse",
        "numpy", "pandas", "joblib.Parallel front end"]
STUB = ["numpy RandomState.choice (scripted outcomes in some runs, the real one in the others)",
        "ensemble members (record what they are fitted on)", "joblib backend (simulated workers)"]
ASSUMPTIONS = ["probabilities are compared with a relative tolerance of 1e-5 (the code computes them in single precision)",
               "draws are observed where they are made: RandomState.choice; a run in which it is never called only "
               "judges counts, matching and weights"]

_RS = np.random.RandomState


def warmup(tier):
    import mizarlabs.model.sequentially_bootstrapped_bagging_classifier  # noqa


class Source(_RS):
    """A random state whose weighted draws are decided and recorded by the simulator."""

    script = None           # set per run
    made = []

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.draws = []     # (candidates, probabilities, outcomes)
        Source.made.append(self)

    def choice(self, a, size=None, replace=True, p=None):
        cand = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        k = 1 if size is None else int(np.prod(size))
        if Source.script is None or not replace:
            out = super().choice(a, size=size, replace=replace, p=p)
        else:
            super().random_sample(k)              # the stream advances as usual
            prob = np.full(len(cand), 1 / len(cand)) if p is None else np.asarray(p)
            out = cand[[Source.script(prob) for _ in range(k)]]
            out = out[0] if size is None else out.reshape(size)
        self.draws.append((cand, None if p is None else np.array(p, dtype=float), np.atleast_1d(out).ravel().copy()))
        return out

    def __reduce__(self):
        return (_RS, ())


@contextlib.contextmanager
def everywhere():
    """Every RandomState made in this block is a Source."""
    np.random.RandomState = Source
    try:
        yield
    finally:
        np.random.RandomState = _RS


def make_script(sim):
    kind = sim.f.pick(("real", "repeat", "rarest", "likeliest", "ends", "any", "two"))
    if kind == "real":
        return kind, None
    state = {"k": 0, "a": sim.f.below(1000), "b": sim.f.below(1000)}

    def script(p):
        state["k"] += 1
        n = len(p)
        sim.fault("scripted draw: " + kind)
        if kind == "repeat":
            return state["a"] % n
        if kind == "rarest":
            return int(np.argmin(p))
        if kind == "likeliest":
            return int(np.argmax(p))
        if kind == "ends":
            return 0 if state["k"] % 2 else n - 1
        if kind == "two":
            return (state["a"] if state["k"] % 3 else state["b"]) % n
        return sim.s.below(n)

    return kind, script


def average_uniqueness(cover, drawn):
    """cover: samples x bars (bool)."""
    count = cover[drawn].sum(axis=0) if len(drawn) else np.zeros(cover.shape[1])
    return (cover @ (1.0 / (1.0 + count))) / cover.sum(axis=1)


def judge_draws(sim, draws, cover, every, length, what):
    """Every draw against the model; returns the drawn samples in order."""
    n = len(cover)
    drawn = []
    refreshed = 0
    want, want_for = None, None
    for cand, p, out in draws:
        sim.expect(len(cand) == n and (cand == np.arange(n)).all(), "candidates",
                   lambda: f"{what}: drawn among {cand.tolist()} instead of all {n} samples")
        first = len(drawn)
        batch = first // every
        sim.expect((first + len(out) - 1) // every == batch, "refresh",
                   lambda: f"{what}: draws {first}..{first + len(out) - 1} share their probabilities, update_probs_every={every}")
        if want_for != batch:
            u = average_uniqueness(cover, drawn[: batch * every])
            want, want_for = u / u.sum(), batch
            refreshed += batch > 0
        got = np.full(n, 1 / n) if p is None else p
        ok = np.isclose(got, want, rtol=1e-5, atol=1e-9)
        sim.expect(ok.all(), "probabilities", lambda: (
            f"{what}: draw {first} after {drawn}: sample {int(np.argmin(ok))} has probability "
            f"{got[~ok][0]} instead of {want[~ok][0]} (update_probs_every={every})"))
        drawn += [int(x) for x in out]
    sim.expect(len(drawn) == length, "number of draws", lambda: f"{what}: {len(drawn)} samples drawn instead of {length}")
    sim.probe("draws judged", len(drawn))
    if refreshed >= 2:
        sim.nontrivial = True
    return drawn


def make_spans(sim, large=(90, 140)):
    """Spans, bars and the dense coverage of every sample over the instants involved."""
    w = sim.w
    n = size(sim, (6, 3, 1, 2, 10, 16, 25), large, 10)
    bars_n = n + w.pick((4, 0, 12, 40))
    idx = make_index(sim, bars_n + 1, unit_ms=60_000)
    rs = w.np_random()
    pos = np.sort(rs.choice(bars_n, size=n, replace=False))
    longest = w.pick((3, 0, 1, 8, 60)) if n < 300 else w.pick((n, 3, 60, n // 2))
    end_pos = np.minimum(pos + rs.randint(0, longest + 1, size=n), bars_n)
    starts, ends = idx[pos], idx[end_pos]
    if w.chance(25):                       # ends that are not bar times
        ends = ends + pd.to_timedelta(rs.randint(0, 3, size=n) * 7, unit="ms")
    bars_idx = idx
    if w.chance(20):                       # bars may miss some starts (down-sampled or re-sampled bars)
        bars_idx = idx[rs.rand(len(idx)) < 0.7]
        if len(bars_idx) == 0:
            bars_idx = idx[:1]
    spans = pd.Series(ends, index=starts, name=w.pick(("event_end_time", "event_end_time", "t1")))
    if w.chance(25):
        spans = spans.iloc[rs.permutation(n)]
    bars = pd.DataFrame({"close": 1.0 + rs.rand(len(bars_idx))}, index=bars_idx)
    inst = np.unique(np.concatenate([spans.index.values, spans.values.astype("datetime64[ns]"),
                                     bars_idx.values[(bars_idx >= spans.index.min()) & (bars_idx <= spans.max())]]))
    s, e = spans.index.values, spans.values.astype("datetime64[ns]")
    cover = (inst[None, :] >= s[:, None]) & (inst[None, :] <= e[:, None])
    return spans, bars, inst, cover


class Member(ClassifierMixin, BaseEstimator):
    """Remembers the rows, columns, labels and weights it is fitted on."""

    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        self.seen_ = (np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight, dtype=float))
        return self

    def predict(self, X):
        return np.full(len(X), self.classes_[0])


class PlainMember(Member):
    def fit(self, X, y):
        return super().fit(X, y)


def direct(sim):
    from mizarlabs.model.bootstrapping import get_ind_matrix, seq_bootstrap

    w = sim.w
    spans, bars, inst, cover = make_spans(sim, (90, 140, 300, 560, 1050))
    n = len(spans)
    mat, when = sim.call("indicator matrix", get_ind_matrix, spans.copy(), bars.copy(), spans.name, return_indices=True)
    dense = np.asarray(mat.todense())
    sim.expect(dense.shape == cover.T.shape and (dense == cover.T).all() and
               (pd.DatetimeIndex(when).values == inst).all(), "indicator matrix",
               lambda: f"indicator matrix of {n} spans is\n{dense}\ninstead of\n{cover.T.astype(int)}")
    every = w.pick((1, 1, 2, 3, 5, 20))
    length = w.pick((None, 1, 2, n, 2 * n, 3 * n + 1)) if n < 300 else w.pick((6, 3, 12))
    kind, script = make_script(sim)
    Source.script = script
    rs = Source(w.below(2 ** 31 - 1))
    sim.log("bootstrap of", length, "of", n, "every", every, kind)
    csc = mat.tocsc()
    before = np.asarray(csc.todense()).copy()
    kw = {} if length is None else dict(sample_length=length)
    if not (every == 1 and w.chance(30)):
        kw["update_probs_every"] = every
    out = sim.call("sequential bootstrap", seq_bootstrap, csc, random_state=rs, **kw)
    sim.expect((np.asarray(csc.todense()) == before).all(), "input modified", "the indicator matrix was modified")
    want_len = n if length is None else length
    sim.log_data("drawn", np.asarray(out))
    if rs.draws:
        drawn = judge_draws(sim, rs.draws, cover, every, want_len, "bootstrap")
        sim.expect(list(map(int, out)) == drawn, "result", lambda: f"returned {list(out)}, drawn {drawn}")
    else:
        sim.probe("draws not observable")
    sim.expect(len(out) == want_len and all(0 <= x < n for x in out), "number of draws",
               lambda: f"{len(out)} samples returned instead of {want_len}")


def ensemble(sim):
    from dst.bagging import build

    w = sim.w
    spans, bars, inst, cover_all = make_spans(sim)
    n_all = len(spans)
    if n_all < 3:
        return direct(sim)
    rs = w.np_random()
    pick = np.arange(n_all)
    if w.chance(60):
        pick = np.sort(rs.choice(n_all, size=max(2, n_all - 1 - rs.randint(n_all // 2 + 1)), replace=False))
    if w.chance(40):
        pick = rs.permutation(pick)
    n = len(pick)
    cover = cover_all[pick]
    k = w.pick((3, 1, 2, 6))
    X = pd.DataFrame(np.arange(n * k, dtype=float).reshape(n, k) + 1000.0, index=spans.index[pick])
    labels = np.array(w.pick(((0, 1), (-1, 1), (-1, 0, 1))))
    yi = rs.choice(len(labels), size=n)
    yi[:2] = (0, 1)
    y = pd.Series(labels[yi], index=X.index)
    codes = {v: i for i, v in enumerate(np.unique(y.values))}
    plain = w.chance(35)
    weights = None
    if not plain and w.chance(60):
        weights = pd.Series(np.round(rs.rand(n), 3) + 0.5, index=X.index)
        if w.chance(50):
            weights = weights * (rs.randint(1, 5))
    members = w.pick((2, 1, 3, 5))
    every = w.pick((1, 1, 2, 3, 10))
    kw = dict(base_estimator=PlainMember() if plain else Member(), n_estimators=members,
              max_samples=w.pick((1.0, 0.6, 2)), max_features=w.pick((1.0, 1)) if k > 1 else 1.0,
              bootstrap_features=w.chance(30), update_probs_every=every, random_state=w.below(10000))
    kind, script = make_script(sim)
    Source.script = script
    sim.log("ensemble", sorted((a, b) for a, b in kw.items() if a != "base_estimator"), n, "of", n_all, "rows", kind,
            "plain" if plain else "", "weighted" if weights is not None else "")
    m = build(spans, bars, kw)
    x0, w0 = X.copy(), None if weights is None else weights.copy()
    rounds = 2 if w.chance(25) else 1
    for again in range(rounds):
        Source.made = []
        workers = sim.s.pick((1, 1, 2, 3, 5))
        with everywhere():
            with joblibsim.active(sim, workers, "thread", coarse=sim.s.chance(70)):
                m.set_params(n_jobs=None if workers == 1 else workers)
                sim.call("training", m.fit, X, y, sample_weight=weights)
        sim.expect(X.equals(x0) and (weights is None or weights.equals(w0)), "input modified", "the training data was modified")
        ms = kw["max_samples"]
        allowed = {ms} if isinstance(ms, int) else {int(ms * n), int(round(ms * n, 6))}
        sources = {}
        for r in Source.made:
            if any(p is not None for _, p, _ in r.draws):
                key = tuple(int(x) for _, _, o in r.draws for x in o)
                sources.setdefault(key, r)
        if not sources:
            sim.probe("draws not observable")
        sim.expect(len(m.estimators_) == len(m.estimators_samples_) == len(m.estimators_features_) == members, "members",
                   lambda: f"{len(m.estimators_)} members, {len(m.estimators_samples_)} drawn sample sets")
        for i in range(members):
            drawn = [int(x) for x in m.estimators_samples_[i]]
            sim.expect(len(drawn) in allowed, "number of draws", lambda: f"member {i} has {len(drawn)} samples, max_samples={ms} of {n}")
            if sources:
                src = sources.get(tuple(drawn))
                sim.expect(src is not None, "drawn samples",
                           lambda: f"member {i}: nobody drew {drawn}; the random sources drew {list(sources)}")
                judge_draws(sim, src.draws, cover, every, len(drawn), f"member {i}")
            fitted_on(sim, m.estimators_[i], i, drawn, [int(f) for f in m.estimators_features_[i]], k, n, yi_codes(y, codes), weights, plain)
        sim.log_data("samples", [list(map(int, s)) for s in m.estimators_samples_])


def yi_codes(y, codes):
    return np.array([codes[v] for v in y.values])


def fitted_on(sim, member, i, drawn, features, k, n, codes, weights, plain):
    V, y, wt = member.seen_
    sim.expect(V.shape[1] == len(features), "columns", lambda: f"member {i} was fitted on {V.shape[1]} columns, features {features}")
    rows = ((V - 1000.0) // k).astype(int)
    cols = ((V - 1000.0) % k).astype(int)
    sim.expect((rows == rows[:, :1]).all() and (cols == np.array(features)[None, :]).all(), "columns",
               lambda: f"member {i} was fitted on columns {cols[0].tolist()} instead of {features}")
    rows = rows[:, 0]
    sim.expect((np.asarray(y) == codes[rows]).all(), "labels", lambda: f"member {i} was fitted on labels of other rows")
    got = np.zeros(n)
    np.add.at(got, rows, 1.0 if wt is None else wt)
    want = np.bincount(drawn, minlength=n).astype(float)
    if weights is not None:
        want = want * weights.values
    ok = np.isclose(got, want, rtol=1e-9)
    sim.expect(ok.all(), "fitted rows", lambda: (
        f"member {i} drew {drawn}; row {int(np.argmin(ok))} counts {got[~ok][0]} in its fit instead of {want[~ok][0]}"))
    if plain:
        sim.expect(sorted(rows.tolist()) == sorted(drawn), "fitted rows", lambda: f"member {i} was fitted on rows {rows}, drew {drawn}")


def run(sim):
    Source.made = []
    Source.script = None
    try:
        if sim.w.chance(50):
            ensemble(sim)
        else:
            direct(sim)
    finally:
        Source.script = None
        Source.made = []
