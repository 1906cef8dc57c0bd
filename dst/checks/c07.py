"""C07: failed or interrupted ensemble training never leaves a half-built ensemble."""
import pickle

import cloudpickle
import numpy as np

from dst import fresh, joblibsim
from dst.bagging import build, differs, make_config, make_data, observe
from dst.sched import InjectedFault
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.tree import DecisionTreeClassifier

RUNS = {"quick": 900, "thorough": 20000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is the life of one ensemble: trainings (cold or warm) under simulated workers with failures raised at "
        "seeded lines of tasks, failing member fits and lost workers, saves and restores in another process between "
        "them, until a training succeeds; non-trivial: at least one training failed and a later one was compared with "
        "the undisturbed ensemble")
REAL = ["mizarlabs.model.sequentially_bootstrapped_bagging_classifier", "mizarlabs.model.bootstrapping",
        "scikit-learn estimators", "joblib.Parallel front end", "pickle / cloudpickle", "pandas", "numpy"]
STUB = ["joblib backend (simulated workers with injected failures)", "a member whose fit can fail (some runs)",
        "the restoring process is a fork of the interpreter made before any run"]
ASSUMPTIONS = ["failures happen inside training tasks; integer random_state; rtol 1e-9 for recomputed probabilities"]


def warmup(tier):
    import mizarlabs.model.sequentially_bootstrapped_bagging_classifier  # noqa

    fresh.start()


class Fussy(ClassifierMixin, BaseEstimator):
    """A decision tree whose fit fails on chosen occasions."""

    plan = {}          # number of the fit -> error class
    count = 0

    def __init__(self, random_state=None):
        self.random_state = random_state

    def fit(self, X, y, sample_weight=None):
        Fussy.count += 1
        err = Fussy.plan.get(Fussy.count)
        if err is not None:
            raise err("injected failure of a member")
        self.tree_ = DecisionTreeClassifier(max_depth=3, max_features=1, random_state=self.random_state)
        self.tree_.fit(X, y, sample_weight=sample_weight)
        self.classes_ = self.tree_.classes_
        return self

    def predict(self, X):
        return self.tree_.predict(X)

    def predict_proba(self, X):
        return self.tree_.predict_proba(X)


class MemberFitError(Exception):
    pass


def parts(m):
    return [list(getattr(m, "estimators_", [])), list(getattr(m, "estimators_features_", [])),
            list(getattr(m, "estimators_samples_", [])) if hasattr(m, "estimators_") else []]


def member_views(m, X):
    V = X.values
    return [(np.asarray(s).tolist(), np.asarray(f).tolist(), np.asarray(e.predict(V[:, f])).tolist())
            for e, f, s in zip(*parts(m))]


def recompute(sim, m, X, y):
    """Predictions and out-of-bag estimates from the members."""
    V = X.values
    n, k = len(X), len(m.classes_)
    codes = {c: i for i, c in enumerate(np.asarray(m.classes_).tolist())}
    members, feats, samples = parts(m)
    proba = np.zeros((n, k))
    votes = np.zeros((n, k))
    for e, f, s in zip(members, feats, samples):
        full = np.zeros((n, k))
        if hasattr(e, "predict_proba"):
            full[:, np.asarray(e.classes_, dtype=int)] = e.predict_proba(V[:, f])
        else:
            full[np.arange(n), np.asarray(e.predict(V[:, f]), dtype=int)] = 1.0
        proba += full
        if m.oob_score:
            out = np.ones(n, bool)
            out[np.asarray(s, dtype=int)] = False
            votes[out] += full[out]
    proba /= len(members)
    got = np.asarray(m.predict_proba(X))
    sim.expect(got.shape == proba.shape and np.allclose(got, proba, rtol=1e-9, atol=1e-12), "predictions",
               lambda: f"predict_proba is not the mean of the members:\n{got.tolist()}\n{proba.tolist()}"[:900])
    top = np.sort(proba, axis=1)
    clear = (top[:, -1] - top[:, -2] > 1e-9) if k > 1 else np.ones(n, bool)
    want = np.asarray(m.classes_)[np.argmax(proba, axis=1)]
    sim.expect((np.asarray(m.predict(X))[clear] == want[clear]).all(), "predictions", "predict is not the most probable class")
    if m.oob_score:
        with np.errstate(invalid="ignore", divide="ignore"):
            dec = votes / votes.sum(axis=1, keepdims=True)
        got = np.asarray(m.oob_decision_function_)
        sim.expect(got.shape == dec.shape and np.allclose(got, dec, rtol=1e-9, atol=1e-12, equal_nan=True), "out-of-bag",
                   lambda: f"out-of-bag estimates are not the ones of the members:\n{got.tolist()}\n{dec.tolist()}"[:900])
        top = np.sort(votes, axis=1)
        if (top[:, -1] - top[:, -2] > 1e-9).all():
            acc = float((np.argmax(votes, axis=1) == np.array([codes[v] for v in y.tolist()])).mean())
            sim.expect(abs(m.oob_score_ - acc) < 1e-12, "out-of-bag", lambda: f"oob_score_ {m.oob_score_} instead of {acc}")


def window(sim, X, y, kw):
    """Positions of a part of the samples: every class is in it, and it is large enough to be drawn from."""
    rs = sim.w.np_random()
    first = [int(np.flatnonzero((y == c).values)[0]) for c in y.unique()]
    least = max(4, len(first), kw["max_samples"] if isinstance(kw["max_samples"], int) else 0)
    size = int(rs.randint(min(least, len(X)), len(X) + 1))
    if sim.w.chance(50):
        start = int(rs.randint(0, len(X) - size + 1))
        win = np.arange(start, start + size)
    else:
        win = rs.permutation(len(X))[:size]
        if sim.w.chance(60):
            win = np.sort(win)
    missing = [f for f in first if y.iloc[f] not in set(y.iloc[win])]
    return np.concatenate([win, np.array(missing, dtype=int)]).astype(int)


def remote_view(blob, X):
    m = pickle.loads(blob)
    return observe(m, X)


def run(sim):
    w = sim.w
    X, y, spans, bars, weights = make_data(sim)
    base, kw = make_config(sim, X.shape[1])
    fussy = w.chance(30)
    if fussy:
        kw["base_estimator"], base = Fussy(), "fussy"
    if base == "knn":
        weights = None
    if isinstance(kw["max_samples"], int):
        kw["max_samples"] = min(kw["max_samples"], len(X))
    warm = w.chance(45)
    if warm:
        kw["oob_score"] = False
    n = kw["n_estimators"]
    sim.log("config", base, sorted((a, b) for a, b in kw.items() if a != "base_estimator"), X.shape,
            "warm" if warm else "cold", "weighted" if weights is not None else "")
    Fussy.plan, Fussy.count = {}, 0
    ref_model = build(spans, bars, kw)
    sim.call("undisturbed training", ref_model.fit, X, y, sample_weight=weights)
    ref = observe(ref_model, X)
    ref_views = member_views(ref_model, X)
    sim.log_data("reference", ref)
    recompute(sim, ref_model, X, y)
    wins = [np.arange(len(X))]
    want_of = {0: ref_views}       # window -> members of one undisturbed training on it
    if w.chance(45):
        for _ in range(w.between(1, 2)):
            win = window(sim, X, y, kw)
            one = build(spans, bars, kw)
            sim.call("undisturbed training on a part", one.fit, X.iloc[win], y.iloc[win],
                     sample_weight=None if weights is None else weights.iloc[win])
            want_of[len(wins)] = member_views(one, X)
            recompute(sim, one, X.iloc[win], y.iloc[win])
            wins.append(win)
        sim.log("parts", [len(v) for v in wins])
    grown = []                     # members a successful training has added so far

    m = build(spans, bars, kw, warm_start=warm)
    x0, y0, s0, b0 = X.copy(), y.copy(), spans.copy(), bars.copy()
    w0 = None if weights is None else weights.copy()

    def untouched(when):
        sim.expect(X.equals(x0) and y.equals(y0) and (weights is None or weights.equals(w0)), "data modified",
                   f"{when} modified the caller's data")
        sim.expect(m.samples_info_sets.equals(s0) and m.price_bars.equals(b0), "data modified",
                   f"{when} modified the sample spans or price bars")

    have = 0
    failures = 0
    for attempt in range(8):
        last = attempt == 7 or (failures > 0 and w.chance(35))
        goal = n
        if warm and not last:
            goal = w.between(have + 1, n) if have < n else n
        if warm and goal == have:
            break
        m.set_params(n_estimators=goal)
        part = w.below(len(wins)) if warm or not last else 0
        Xp, yp = X.iloc[wins[part]], y.iloc[wins[part]]
        wp = None if weights is None else weights.iloc[wins[part]]
        workers = sim.s.pick((2, 3, 4, 1, 8))
        kind = sim.s.pick(("thread", "process"))
        faults = {}
        Fussy.plan, Fussy.count = {}, 0
        if not last and sim.f.chance(75):
            for t in range(workers):
                if t == 0 or sim.f.chance(20):
                    where = sim.f.below(workers)
                    if sim.f.chance(20):
                        faults[where] = ("lost",)
                    else:
                        faults[where] = (sim.f.pick((1, 3, 9, 25, 60, 110, 200, 400)),
                                         sim.f.pick(("MemoryError", "OSError", "InjectedFault")))
            if fussy and sim.f.chance(70):
                faults = {}
                Fussy.plan = {sim.f.between(1, max(1, goal - have)): sim.f.pick((MemoryError, ValueError, MemberFitError))}
                sim.fault("member fit fails")
        before = member_views(m, X)
        err = None
        with joblibsim.active(sim, workers, kind, faults=faults, coarse=sim.s.chance(75),
                              readonly=kind == "process" and sim.f.chance(50)) as plan:
            m.set_params(n_jobs=sim.s.pick((workers, -1, None)))
            try:
                m.fit(Xp, yp, sample_weight=wp)
            except Exception as e:  # noqa
                err = e
        m.set_params(n_jobs=None)
        hit = bool(plan.fired) or any(Fussy.count >= k for k in Fussy.plan)
        untouched("training")
        sizes = [len(p) for p in parts(m)]
        sim.log("attempt", attempt, "goal", goal, "faults", sorted(plan.fired), "error", type(err).__name__, "sizes", sizes)
        sim.expect(len(set(sizes)) == 1, "mismatched ensemble",
                   lambda: f"{sizes} members, drawn features, drawn samples after {type(err).__name__ if err else 'a training'}")
        if err is not None:
            sim.expect(hit, f"exception:{type(err).__name__}", lambda: f"training failed without a fault: {err}")
            sim.expect("injected" in str(err), "wrong error", lambda: f"the failure reached the caller as {type(err).__name__}: {err}")
            failures += 1
            now = member_views(m, X)
            want = before if warm else []
            sim.expect(now == want, "half-built ensemble", lambda: (
                f"after a failed {'warm' if warm else 'cold'} training the ensemble has {len(now)} members instead of the {len(want)} "
                "from before" if len(now) != len(want) else "the members from before were changed by a failed training"))
        else:
            sim.expect(not hit, "error lost", lambda: f"tasks {plan.fired or 'of members'} failed, yet training reported success")
            grown = (grown[:have] if warm else []) + want_of[part][have if warm else 0: goal]
            have = goal
            now = member_views(m, X)
            i = next((i for i, (a, b) in enumerate(zip(now, grown)) if a != b), None)
            sim.expect(len(now) == goal and i is None, "different ensemble", lambda: (
                f"{len(now)} members instead of {goal}" if len(now) != goal else
                f"after {failures} failed trainings member {i} is {now[i]} instead of {grown[i]}"[:700]))
            recompute(sim, m, Xp, yp)
            if part:
                sim.probe("trained on a part")
            if goal == n and grown == ref_views and part == 0:
                got = observe(m, X)
                d = differs(ref, got)
                sim.expect(d is None, "different ensemble", lambda: f"after {failures} failed trainings: {d} (undisturbed / got)")
            if goal == n and failures:
                sim.nontrivial = True
            if sim.f.chance(12):
                view = fresh.ask(sim, "restored ensemble", remote_view, cloudpickle.dumps(m), X)
                d = differs(observe(m, X), view)
                sim.expect(d is None, "save and restore", lambda: f"the restored ensemble differs: {d} (here / restored)")
        if sim.f.chance(25):
            m = pickle.loads(cloudpickle.dumps(m))
            sim.fault("saved and restored")
            sim.expect(len({len(p) for p in parts(m)}) == 1, "save and restore", "the restored ensemble is not complete")
        if last and err is None:
            break
    sim.probe("failed trainings", failures)
