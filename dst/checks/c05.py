"""C05: a fixed seed gives one ensemble, whatever the parallel execution."""
import random

import numpy as np

from dst import joblibsim
from dst.bagging import build, differs, make_config, make_data, observe
from dst.core import digest

RUNS = {"quick": 600, "thorough": 8000}
INCARNATIONS = {"quick": 8, "thorough": 32}
SHARED = 2          # runs repeated by every interpreter (each has its own hash seed); digests must agree
RULE = ("a run is one training configuration trained several times: once alone and sequentially (the reference), then "
        "under seeded job counts, worker kinds, task orders and line-level interleavings, after other trainings, with a "
        "bystander using the global random generators, and in warm-start increments; non-trivial: a parallel section "
        "with at least two tasks was compared")
REAL = ["mizarlabs.model.sequentially_bootstrapped_bagging_classifier", "mizarlabs.model.bootstrapping",
        "scikit-learn estimators", "joblib.Parallel front end", "pandas", "numpy", "cloudpickle"]
STUB = ["joblib backend (simulated workers, threads interleaved per line or processes by pickling)",
        "member estimator with a random tie-break (one of six used)"]
ASSUMPTIONS = ["integer random_state; sample spans without missing ends; at least ten samples"]


def warmup(tier):
    import mizarlabs.model.sequentially_bootstrapped_bagging_classifier  # noqa


def pool(sim, n_members, noise=None):
    """Arguments of a simulated pool."""
    kind = sim.s.pick(("thread", "process", "thread"))
    workers = sim.s.pick((2, 3, 4, 1, 5, 8, 16))
    coarse = sim.s.chance(60)
    return dict(n_workers=workers, kind=kind, noise=noise, readonly=kind == "process" and sim.f.chance(40), coarse=coarse)


def jobs(sim, workers):
    return sim.s.pick((workers, None, -1, 2, 3))


def run(sim):
    w = sim.w
    X, y, spans, bars, weights = make_data(sim)
    base, kw = make_config(sim, X.shape[1])
    if base == "knn":
        weights = None
    if isinstance(kw["max_samples"], int) and kw["max_samples"] > len(X):
        kw["max_samples"] = len(X)
    sim.log("config", base, sorted((k, v) for k, v in kw.items() if k != "base_estimator"), X.shape,
            "weighted" if weights is not None else "")
    ref_model = build(spans, bars, kw, n_jobs=1)
    sim.call("training", ref_model.fit, X, y, sample_weight=weights)
    ref = observe(ref_model, X)
    sim.log_data("reference", ref)
    n = kw["n_estimators"]
    sim.expect(len(ref["samples"]) == len(ref["features"]) == len(ref["members"]) == n, "members",
               lambda: f"{len(ref['members'])} members instead of {n}")
    if len(X) >= 10 and (kw["max_samples"] == 1.0 or kw["max_samples"] == 0.8):
        for i in range(n):
            for j in range(i):
                sim.expect(ref["samples"][i] != ref["samples"][j], "same stream",
                           lambda: f"members {j} and {i} drew the same samples {ref['samples'][i]}")
        seeds = [e.get_params().get("random_state") for e in ref_model.estimators_]
        if seeds[0] is not None:
            sim.expect(len(set(map(str, seeds))) == n, "same stream", lambda: f"member seeds {seeds}")

    noise_rs = random.Random(sim.s.below(1000))

    def noise():
        """Somebody else in this process uses the global generators."""
        np.random.seed(noise_rs.randrange(1000))
        np.random.rand(noise_rs.randrange(1, 5))
        random.random()

    for k in range(w.between(1, 3)):
        way = sim.s.pick(("parallel", "parallel", "after", "warm"))
        use_noise = sim.s.chance(40)
        if use_noise:
            sim.fault("global generators disturbed")
            noise()
        p = pool(sim, n, noise if use_noise else None)
        with joblibsim.active(sim, **p) as plan:
            nj = jobs(sim, p["n_workers"])
            if way == "parallel":
                m = build(spans, bars, kw, n_jobs=nj)
                sim.call("parallel training", m.fit, X, y, sample_weight=weights)
            elif way == "after":
                m = build(spans, bars, kw, n_jobs=nj)
                sub = np.sort(w.np_random().permutation(len(X))[: max(3, len(X) // 2)])
                if len(set(y.iloc[sub])) > 1 and isinstance(kw["max_samples"], float):
                    sim.call("earlier training", m.fit, X.iloc[sub], y.iloc[sub])
                sim.call("training again", m.fit, X, y, sample_weight=weights)
            else:
                m = build(spans, bars, kw, n_jobs=nj, warm_start=True, oob_score=False, n_estimators=1)
                size = 0
                while size < n:
                    size = min(n, size + sim.s.between(1, max(1, n // 2 + 1)))
                    m.set_params(n_estimators=size)
                    sim.call("warm-start training", m.fit, X, y, sample_weight=weights)
                    sim.schedule_event("grown to", size)
            if plan.next_task > 1:
                sim.nontrivial = True
                sim.probe("parallel tasks", plan.next_task)
            got = observe(m, X)
        sim.log_data(f"{way} {p['kind']} jobs={nj}", digest(got))
        want = {k2: v for k2, v in ref.items() if way != "warm" or not k2.startswith("oob")}
        diff = differs(want, got)
        sim.expect(diff is None, "different ensemble",
                   lambda: f"{way} training, {p['n_workers']} {p['kind']} workers, n_jobs={nj}: {diff} (reference / got)")
        sim.probe("trainings " + way)
