"""C12: the trading signal is what the models and the sizing rule say, bar by bar."""
import numpy as np
import pandas as pd
from sklearn.tree import DecisionTreeClassifier

from dst.core import close
from dst.live import live
from dst.sched import FAULT_KINDS, LineFault
from dst.strategy import ModelError, Strategy, frozen, unmodified

RUNS = {"quick": 1800, "thorough": 30000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is a live process computing signals on the bars it has received (delayed, stalled, lost and re-sent, "
        "duplicated, after crashes), with models and transformers that fail, missing feeds and calls interrupted at seeded "
        "lines in between; judged bar by bar against the rule evaluated from the configuration; non-trivial: at least five "
        "signals were judged on a strictly shorter history")
REAL = ["mizarlabs.model.pipeline.StrategySignalPipeline", "mizarlabs.transformers.trading.bet_sizing", "MizarFeatureUnion",
        "pandas", "scikit-learn (some runs)"]
STUB = ["bar transport, clock and process (simulated)", "models that are fixed functions of their features (most runs)",
        "causal feature transformers"]
ASSUMPTIONS = ["feeds contain data from before the first leading bar",
               "a data set without any complete bar may be refused", "the most probable class may be any one of equally probable ones"]


def warmup(tier):
    import mizarlabs.model.pipeline  # noqa


def run(sim):
    w, f = sim.w, sim.f
    st = Strategy(sim)
    n = w.pick((20, 6, 40, 60))
    data = st.make_data(n)
    sim.log(st.describe(), "bars", n)
    labels = pd.Series(w.np_random().choice(list(st.pmodel.classes) + [np.nan], size=n), index=data["lead"].index).astype(float)
    if w.chance(15):
        train_for_real(sim, st, data, labels)
    whole = st.rule(data)
    lf = LineFault(sim)
    lead = data["lead"]
    past = {}
    judged = 0

    for tick in live(sim, lead, calls=w.between(2, 5), first=1):
        m = tick.n
        part = st.upto(data, m)
        if any(len(v) == 0 for v in part.values()):
            continue
        what = f"{m} bars"
        copies = frozen(part)
        rule = st.rule(part)
        if f.chance(35):
            misbehave(sim, st, part, lf, labels)
            unmodified(sim, part, copies, "a failing call")
        passed = {k: part[k] for k in sim.s.shuffled(list(part))}
        try:
            got = st.pipe.get_side_and_size(passed)
        except Exception as e:  # noqa
            if not rule["may_fail"]:
                sim.call(what, st.pipe.get_side_and_size, passed)
                sim.fail("fails at random", f"{what}: {e!r} once and not again")
            sim.probe("no signal possible")
            unmodified(sim, part, copies, "a refused call")
            continue
        sim.log_data(what, got)
        want = st.judge_signal(sim, got, part, rule, what)
        if m < n:
            judged += len(want)
        # what was said about past bars stays
        for t, row in zip(got.index, got.values.astype(float)):
            if t in past:
                sim.expect(bool(close(row, past[t], rtol=1e-9, atol=1e-9).all()), "repaints",
                           lambda: f"the signal of {t} was {past[t]} and is {row} with {m} bars")
        missing = [t for t in past if t <= lead.index[m - 1] and t not in got.index]
        sim.expect(not missing, "repaints", lambda: f"the signals of {missing} disappeared with {m} bars")
        past.update(zip(got.index, got.values.astype(float)))
        if sim.s.chance(40):
            predictions(sim, st, passed, part, rule, what)
        if sim.s.chance(40):
            data_sets(sim, st, passed, part, rule, labels.iloc[:m], what)
        unmodified(sim, part, copies, what)
    sim.expect(whole["ok"].tolist() == st.rule(data)["ok"].tolist(), "model modified", "the models changed")
    sim.nontrivial = judged >= 5


def tree_of(sim):
    from mizarlabs.model.pipeline import MizarPipeline

    tree = DecisionTreeClassifier(max_depth=3, random_state=0)
    return MizarPipeline([("model", tree)]) if sim.w.chance(40) else tree


def train_for_real(sim, st, data, labels):
    """Decision trees trained on the data sets the pipeline makes."""
    rule = st.rule(data)
    usable = rule["ok"] & labels.notna().values
    if len(set(labels[usable])) < 2 or len({v[1][0] == "union" for v in st.primary.values()}) > 1:
        return
    X, y = sim.call("training data", st.pipe.create_dataset_primary, data, labels)
    tree = tree_of(sim).fit(X, y)
    st.pipe.set_primary_model(tree)
    st.pmodel = tree
    if st.meta:
        rule = st.rule(data)
        if rule["may_fail"] or not (usable & rule["mok"]).any():
            return
        Xm, ym = sim.call("meta training data", st.pipe.create_dataset_metalabeling, data, labels)
        if len(set(ym)) < 2:
            return
        tree = tree_of(sim).fit(Xm, ym)
        st.pipe.set_metalabeling_model(tree)
        st.mmodel = tree
    sim.probe("trained models")


def misbehave(sim, st, part, lf, labels):
    """A call that fails; the error must reach the caller."""
    f = sim.f
    kind = f.below(5)
    call = st.pipe.get_side_and_size
    if f.chance(30):
        call = lambda d: st.pipe.create_dataset_primary(d, labels.iloc[:len(part["lead"])])  # noqa
    if kind == 0:
        at, what = f.between(1, 150), f.pick(FAULT_KINDS)
        try:
            lf.run(lambda: call(part), at, what)
        except BaseException:  # noqa
            pass
        return
    undo = None
    args = dict(part)
    if kind == 1 and hasattr(st.pmodel, "fail"):
        m = f.pick([x for x in (st.pmodel, st.mmodel) if hasattr(x, "fail")])
        m.fail = f.pick(("predict", "predict_proba"))
        undo, what = (m, None), "a model that raises"
        call = st.pipe.get_side_and_size
        if m is st.mmodel and m.fail == "predict":
            call = st.pipe.predict          # the size needs only the probabilities of the meta-model
    elif kind == 2 and st.steps:
        s = f.pick(st.steps)
        s.fail = True
        undo, what = (s, False), "a transformer that raises"
    elif kind == 3:
        del args[f.pick(sorted(args))]
        what = "a missing feed"
    else:
        args["unknown"] = part["lead"]
        what = "an unknown feed"
    try:
        call(args)
        failed = False
    except Exception:  # noqa
        failed = True
    finally:
        if undo:
            undo[0].fail = undo[1]
    sim.fault(what)
    sim.expect(failed, "swallowed error", lambda: f"{what} goes unnoticed by {call!r}\n{st.describe()}")


def predictions(sim, st, passed, part, rule, what):
    lead = part["lead"].index
    p = sim.call(what, st.pipe.predict, passed)
    q = sim.call(what, st.pipe.predict_proba, passed)
    pp, mp = p["primary_model_predictions"], p["metalabeling_model_predictions"]
    sim.expect(list(pp.index) == list(lead[rule["ok"]]) and (pp.values == rule["side"][rule["ok"]]).all(), "prediction",
               lambda: f"{what}: primary predictions {pp.tolist()} instead of {rule['side'][rule['ok']].tolist()}")
    qp, qm = q["primary_model_proba"], q["metalabeling_model_proba"]
    sim.expect(list(qp.index) == list(lead[rule["ok"]]) and list(qp.columns) == list(st.pmodel.classes_)
               and close(qp.values, rule["proba"][rule["ok"]]).all(), "probability",
               lambda: f"{what}: primary probabilities differ from the model's")
    if not st.meta:
        sim.expect(mp is None and qm is None, "meta-model", "there is no meta-model but it predicts")
        return
    mok = rule["mok"]
    sim.expect(list(mp.index) == list(lead[mok]) and (mp.values == rule["mpred"][mok]).all(), "prediction",
               lambda: f"{what}: meta predictions {mp.tolist()} instead of {rule['mpred'][mok].tolist()}\n{st.describe()}")
    sim.expect(list(qm.index) == list(lead[mok]) and list(qm.columns) == list(st.mmodel.classes_)
               and close(qm.values, rule["mproba"][mok]).all(), "probability",
               lambda: f"{what}: meta probabilities differ from the model's\n{st.describe()}")


def data_sets(sim, st, passed, part, rule, y, what):
    usable = rule["ok"] & y.notna().values
    if not usable.any():
        return
    y0 = y.copy()
    X, yy = sim.call(what, st.pipe.create_dataset_primary, passed, y)
    sim.expect(list(X.index) == list(y.index[usable]) and list(yy.index) == list(X.index) and (yy.values == y.values[usable]).all()
               and close(X.values.astype(float), rule["P"][usable], rtol=1e-12).all(), "training data",
               lambda: f"{what}: the data set has {len(X)} rows, {usable.sum()} bars are labelled and complete\n{st.describe()}")
    sim.expect(y.equals(y0), "input modified", "the labels were modified")
    if not st.meta:
        return
    M = rule["M"]
    meta_complete = rule["mok"]
    both = usable & meta_complete
    if not both.any():
        return
    Xm, ym = sim.call(what, st.pipe.create_dataset_metalabeling, passed, y)
    right = (rule["side"] == y.values).astype(float)
    sim.expect(list(Xm.index) == list(y.index[both]) and list(ym.index) == list(Xm.index), "meta training data",
               lambda: f"{what}: the meta data set has {len(Xm)} rows, {both.sum()} bars are labelled and complete\n{st.describe()}")
    sim.expect((ym.values == right[both]).all(), "meta-labels", lambda: f"{what}: {ym.tolist()} instead of {right[both].tolist()}")
    sim.expect(Xm.shape[1] == M.shape[1] and close(Xm.values.astype(float), M[both], rtol=1e-12).all(), "meta features",
               lambda: f"{what}: features of the meta-model {Xm.values.tolist()[:2]} instead of {M[both].tolist()[:2]}\n{st.describe()}")
    sim.probe("meta data sets")
