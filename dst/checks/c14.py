"""C14: transformers can be shared by concurrent callers and survive failing calls."""
import copy

import numpy as np
import pandas as pd

from dst import joblibsim, numbasim  # noqa: F401 (no real pool ever starts)
from dst.features import catalogue
from dst.market import make_bars, make_index, make_prices
from dst.sched import FAULT_KINDS, LineFault, Scheduler, pick_line

RUNS = {"quick": 2000, "thorough": 40000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is one shared object (transformer, labeler, weight calculator, statistic, signal pipeline, ensemble or "
        "cross-validator) used by two to four caller threads, each with its own data and several calls, switched at seeded "
        "lines of repository code, some calls interrupted at a seeded line; every undisturbed result is compared with a "
        "fresh object's; non-trivial: at least one switch between callers inside a call, or an interrupted call")
REAL = ["every public transformer, labeler, sizer, weight, statistic, signal and cross-validation class of mizarlabs",
        "numba code generation", "TA-lib", "scikit-learn", "pandas", "numpy"]
STUB = ["thread scheduling (baton passed at lines of repository code)", "numba threading layer (simulated workers)",
        "models of the signal pipelines that are fixed functions of their features"]
ASSUMPTIONS = ["lines of repository code and whole compiled kernels are the atomic steps of a caller",
               "results agree up to 1e-12 relative"]


def warmup(tier):
    numbasim.install()
    from dst.checks import c01, c02, c03, c04

    c01.warmup(tier)
    c02.warmup(tier)
    c03.warmup(tier)
    c04.warmup(tier)
    import mizarlabs.model.pipeline  # noqa
    import mizarlabs.model.sequentially_bootstrapped_bagging_classifier  # noqa


class Target:
    def __init__(self, name, make, call, data):
        self.name, self.make, self.call, self.data = name, make, call, data


def bars_of(sim, n=None):
    index = make_index(sim, n or sim.w.pick((25, 12, 40)), unit_ms=sim.w.pick((3 * 3600_000, 3600_000, 86_400_000)))
    return make_bars(sim, index)


def spans_of(sim):
    X = bars_of(sim)
    rs = sim.w.np_random()
    n = len(X)
    ends = np.minimum(n - 1, np.arange(n) + rs.randint(0, 6, size=n))
    return pd.DataFrame({"close": X["close"], "event_end_time": X.index[ends]}, index=X.index)


def targets(sim):
    w = sim.w
    kind = w.pick((0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 7, 8, 8, 9, 10, 11, 12, 13, 14, 15))
    if kind <= 3:
        f = catalogue(sim)
        daily = f.name == "daily volatility"
        return Target(f.name, f.make, f.value, lambda: bars_of(sim, 40 if daily else None))
    if kind == 4:
        from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
        meta = w.chance(40)
        kw = dict(num_expiration_bars=w.between(1, 8), profit_taking_factor=w.pick((1.0, 0, 0.5)),
                  stop_loss_factor=w.pick((1.0, 0, 2.0)), metalabeling=meta, close_column_name="close",
                  volatility_window=w.pick((5, 20)), volatility_adjusted_horizontal_barriers=w.chance(70),
                  expiration_label=w.chance(40))

        def data():
            X = bars_of(sim)
            X["side"] = w.np_random().choice([-1, 1], size=len(X))
            return X
        return Target("TripleBarrier", lambda: TripleBarrierMethodLabeling(**kw), lambda o, X: o.transform(X), data)
    if kind == 5:
        from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
        kw = dict(look_forward_window=w.pick((6, 9)), min_sample_length=w.between(3, 5), step=w.pick((1, 2)))
        return Target("TrendScanner", lambda: TrendScannerLabeling(None, **kw), lambda o, y: o.transform(y),
                      lambda: bars_of(sim)["close"])
    if kind == 6:
        from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities
        kw = dict(num_classes=2, average_active=w.chance(70), meta_labeling=w.chance(40),
                  discretise=w.chance(30), step_size=0.1)

        def data():
            X = spans_of(sim)
            rs = w.np_random()
            X["prob"] = 0.5 + 0.49 * rs.rand(len(X))
            X["pred"] = rs.choice([0, 1], size=len(X))
            X["side"] = rs.choice([-1, 1], size=len(X))
            return X
        return Target("BetSizing", lambda: BetSizingFromProbabilities(**kw), lambda o, X: o.transform(X), data)
    if kind == 7:
        from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
        from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
        c = w.pick((0.5, 0.0, 1.0, -0.3))
        make = w.pick((lambda: SampleWeightsByReturns(), lambda: SampleWeightsByTimeDecay(c), lambda: AverageUniqueness()))
        return Target(type(make()).__name__, make, lambda o, X: o.transform(X), lambda: spans_of(sim))
    if kind == 8:
        from dst.checks.c04 import MODELS, _tests
        sadf, sdfc, csw = _tests()
        which = w.pick(("sadf", "sdfc", "csw"))
        if which == "sadf":
            cfg = (w.pick(MODELS), w.between(1, 2), w.between(9, 12), w.chance(60), w.pick((0.0, 0.5)))
            make = lambda: sadf(*cfg)
        elif which == "sdfc":
            m = w.pick((2, 5))
            make = lambda: sdfc(m)
        else:
            side = w.pick(("two_sided", "one_sided_positive", "one_sided_negative"))
            make = lambda: csw(side)

        def series():
            index = make_index(sim, w.between(18, 26))
            return pd.Series(make_prices(sim, len(index), kind="walk"), index=index)
        return Target(which, make, lambda o, y: o.run(y), series)
    if kind == 9:
        from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
        return Target("CUSUM", lambda: CUSUMFilter(1.0), lambda o, y: o.transform(y), lambda: bars_of(sim)["close"])
    if kind == 10:
        from dst.purged import make_embargo, make_groups, make_samples
        from mizarlabs.model.model_selection import CombPurgedKFoldCV
        X, pred, ev, step = make_samples(sim, n=w.pick((12, 20)))
        g, k = make_groups(sim, len(X), most=20)
        emb = make_embargo(sim, step)
        return Target("CombPurgedKFoldCV",
                      lambda: CombPurgedKFoldCV(n_groups=g, n_test_splits=k, pred_times=pred, eval_times=ev, embargo_td=emb),
                      lambda o, d: [list(s) for s in o.split(d)] + [o.get_n_splits()],
                      lambda: X.assign(x=w.np_random().randn(len(X))))
    if kind in (11, 12):
        from mizarlabs.model.pipeline import StrategyTrader
        from dst.strategy import Strategy
        for _ in range(20):
            st = Strategy(sim)
            if all(t[1][0] != "gap" for t in st.primary.values()):
                break
        n = 16
        what = w.pick(("signal", "predict", "proba", "primary", "position"))
        trader = StrategyTrader(st.pipe, 1, 5, 1.0, 2.0, 20)
        box = {}

        def call(o, d):
            if what == "signal":
                return o.get_side_and_size(d)
            if what == "predict":
                return o.predict(d)
            if what == "proba":
                return o.predict_proba(d)
            if what == "position":
                return o.create_position(d).reindex(d["lead"].index)
            return o.create_dataset_primary(d, pd.Series(1.0, index=d["lead"].index), drop_na=False)
        src = trader if what == "position" else st.pipe
        return Target("pipeline " + what, lambda: copy.deepcopy(src), call, lambda: st.make_data(n, unit=6 * 3600_000))
    if kind == 13:
        from mizarlabs.transformers.technical.factory import TAFactory
        name, kw = w.pick((("SMA", dict(col_to_transform="close", kw_args={"timeperiod": 4})),
                           ("MACD", dict(col_to_transform="open")), ("ATR", dict(kw_args={"timeperiod": 5})),
                           ("CDLDOJI", {}), ("CORREL", dict(col_to_transform=["high", "low"]))))
        fac = TAFactory()
        return Target("TA " + name, lambda: fac.create_transformer(name, **copy.deepcopy(kw)), lambda o, X: o.transform(X), lambda: bars_of(sim))
    if kind == 14:
        from sklearn.preprocessing import FunctionTransformer
        from mizarlabs.model.pipeline import MizarFeatureUnion
        parts = []
        while len(parts) < 3:
            f = catalogue(sim)
            if f.value.__name__ == "_transform":
                parts.append(f)
        return Target("union " + ", ".join(p.name for p in parts),
                      lambda: MizarFeatureUnion([(f"{i}", FunctionTransformer(p.make().transform)) for i, p in enumerate(parts)]),
                      lambda o, X: o.transform(X), lambda: bars_of(sim))
    from dst.bagging import build, make_config, make_data
    X, y, spans, bars, weights = make_data(sim)
    base, kw = make_config(sim, X.shape[1], oob=False)
    est = sim.call("fit", lambda: build(spans, bars, kw).fit(X, y, sample_weight=weights if base not in ("knn",) else None))
    return Target(f"ensemble {base}", lambda: copy.deepcopy(est), lambda o, d: [o.predict_proba(d), o.predict(d)],
                  lambda: X.iloc[w.np_random().permutation(len(X))[: w.between(1, len(X))]] * 1.0)


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, pd.DataFrame):
        return (isinstance(b, pd.DataFrame) and a.shape == b.shape and a.index.equals(b.index) and list(a.columns) == list(b.columns)
                and all(equal(a.iloc[:, i].values, b.iloc[:, i].values) for i in range(a.shape[1])))
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and a.index.equals(b.index) and equal(a.values, b.values)
    if isinstance(a, pd.Index):
        return isinstance(b, pd.Index) and a.equals(b)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape:
            return False
        if a.dtype.kind in "fiub":
            return bool(np.isclose(a, b, rtol=1e-12, atol=1e-300, equal_nan=True).all())
        if a.dtype.kind in "mM":
            return bool((a.view("i8") == b.view("i8")).all())
        return all((x == y) or (x != x and y != y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return a == b or (a != a and b != b)


def copied(d):
    if isinstance(d, dict):
        return {k: v.copy() for k, v in d.items()}
    return d.copy()


def run(sim):
    w = sim.w
    numbasim.begin(sim)
    numbasim.heap(sim)
    t = targets(sim)
    data = [t.data() for _ in range(w.between(2, 3))]
    before = [copied(d) for d in data]
    lf = LineFault(sim)
    want, lines, where = [], [], []
    for i, d in enumerate(data):
        fresh_object = sim.call(t.name, t.make)
        try:
            want.append((True, lf.count(lambda: t.call(fresh_object, d))))
        except Exception as e:  # noqa
            want.append((False, type(e).__name__))       # the data are outside the domain of this object
        lines.append(max(1, lf.lines))
        where.append(lf.where)
    sim.log(t.name, "callers' data", [len(d) for d in data], "lines", lines, [x[0] for x in want])
    if not any(x[0] for x in want):
        sim.probe("refused by a fresh object")
        return
    shared = sim.call(t.name, t.make)
    results = []
    sched = Scheduler(sim)
    sched.whole_calls = sim.s.chance(40)

    def caller(k, plan, task):
        for i in plan:
            was = task.faulted
            try:
                out, err = t.call(shared, data[i]), None
            except BaseException as e:  # noqa
                out, err = None, e
            results.append((k, i, out, err, task.faulted and not was))
            if isinstance(err, SystemExit):
                raise err

    for k in range(w.between(2, 4)):
        own = k % len(data)
        plan = [own] * w.between(1, 3)
        fault = None
        if sim.f.chance(40):
            fault = (pick_line(sim.f, where[own]) + lines[own] * sim.f.below(len(plan)), sim.f.pick(FAULT_KINDS))
        task = sched.add(f"caller {k}", None, fault)
        task.where = where[own]
        task.fn = lambda k=k, plan=plan, task=task: caller(k, plan, task)
    sched.run()
    for k, i, out, err, injected in results:
        judge(sim, t, want[i], out, err, injected, f"caller {k}")
    interrupted = sum(r[4] for r in results)

    def untouched(who):
        for i, d in enumerate(data):
            same = all(equal(before[i][k], d[k]) for k in d) if isinstance(d, dict) else equal(before[i], d)
            sim.expect(same, "input modified", lambda: f"{t.name}: {who} left modified data")

    untouched("concurrent callers")
    # afterwards the object is as good as new, for everybody
    for _ in range(sim.f.pick((0, 0, 2, 4, 8, 16) if max(lines) < 3000 else (0, 0, 1, 2, 4))):
        i = sim.f.below(len(data))
        at = pick_line(sim.f, where[i])
        try:
            lf.run_at(lambda: t.call(shared, data[i]), at, sim.f.pick(FAULT_KINDS))
        except BaseException:  # noqa
            pass
        interrupted += lf.fired
        untouched("an interrupted call")
    for i in sim.s.shuffled(range(len(data))):
        try:
            out, err = t.call(shared, data[i]), None
        except Exception as e:  # noqa
            out, err = None, e
        judge(sim, t, want[i], out, err, False, "a later caller")
    untouched("later callers")
    sim.log_data("results", [x[1] for x in want if x[0]])
    sim.probe("switches inside calls", sched.switches)
    sim.probe("kind " + t.name.split()[0])
    sim.nontrivial = sched.switches > len(sched.tasks) or interrupted > 0


def judge(sim, t, want, out, err, injected, who):
    if injected:
        return
    ok, value = want
    if not ok:
        sim.expect(err is not None, "error lost", lambda: f"{t.name}: {who} got {out!r:.200} where a fresh object raises {value}")
        return
    if err is not None:
        sim.fail(f"exception:{type(err).__name__}", f"{t.name}: {who} got {err!r} where a fresh object does not")
    if not equal(value, out):
        sim.fail("mixed up", f"{t.name}: {who} got\n{out!r:.700}\na fresh object gives\n{value!r:.700}")
    sim.probe("calls judged")
