"""C16: transformers made by one TA factory stay independent of each other."""
import copy

import numpy as np
import pandas as pd

from dst import fresh
from dst.core import Violation
from dst.market import make_bars, make_index
from dst.sched import FAULT_KINDS, Scheduler

RUNS = {"quick": 3000, "thorough": 60000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is several caller threads, switched at lines of repository code, that create transformers from one factory "
        "(valid and invalid requests), use the ones made by anybody so far on their own frames, and go on using the "
        "argument objects they had passed, with failures raised at seeded lines; non-trivial: at least two valid "
        "transformers were made and one was used after another had been created")
REAL = ["mizarlabs.transformers.technical.factory.TAFactory", "TA-lib", "scikit-learn FunctionTransformer", "pandas"]
STUB = ["thread scheduling (baton passed at lines of repository code)", "another process is a fork made before any run"]
ASSUMPTIONS = ["frames of float columns with unique names; valid parameters are those TA-lib itself accepts",
               "the specification of a function is the one of talib.abstract"]


def warmup(tier):
    import mizarlabs.transformers.technical.factory  # noqa

    fresh.start()


def spec(name):
    """Argument names in order, parameters with defaults: from TA-lib's own description."""
    from talib import abstract

    fn = abstract.Function(name)
    args = []
    for k, v in fn.input_names.items():
        args += list(v) if isinstance(v, (list, tuple)) else [k.replace("price", "real")]
    return args, dict(fn.parameters)


class Request:
    def __init__(self):
        self.kwargs = {}          # of create_transformer, by parameter name
        self.columns = None       # columns the function is applied to, in order
        self.params = {}
        self.valid = True
        self.why = None


def make_request(sim, names):
    w = sim.w
    r = Request()
    r.func = w.pick(names) if w.chance(55) else w.pick(POPULAR)
    args, defaults = spec(r.func)
    cols = list(args)
    reals = [a for a in args if a.startswith("real")]
    fresh_cols = ["close", "high", "low", "open", "price a", "price b"]
    if "real" in args:
        c = w.pick(fresh_cols)
        r.kwargs["col_to_transform"] = c
        cols[args.index("real")] = c
    elif "real0" in args:
        pair = [w.pick(fresh_cols), w.pick(fresh_cols)]
        r.kwargs["col_to_transform"] = pair
        for k, c in enumerate(pair):
            cols[args.index(f"real{k}")] = c
    others = [a for a in args if a not in reals]
    if others and w.chance(60):
        pool = ["open", "high", "low", "close", "volume", "price a", "price b", "vol 2"]
        mapping = {a: w.pick(pool) for a in others if w.chance(70)}
        if "real" in args and r.kwargs["col_to_transform"] in mapping:
            mapping = {}          # ambiguous request: two meanings of one name
        if mapping:
            r.kwargs["col_to_transform_mapping"] = mapping
            cols = [a if a in reals else mapping.get(a, a) for a in cols] if not reals else [
                c if args[i] in reals else mapping.get(c, c) for i, c in enumerate(cols)]
    params = {}
    for p, d in defaults.items():
        if w.chance(50):
            if isinstance(d, int) and "matype" not in p:
                params[p] = d + w.below(6) if w.chance(70) else max(2, d - w.below(4))
            elif isinstance(d, int):
                params[p] = w.below(7)
            else:
                params[p] = float(d * w.pick((1.0, 0.5, 1.5)))
    if params:
        r.kwargs["kw_args"] = params
    r.columns, r.params = cols, dict(params)
    if w.chance(30):
        spoil(sim, r, args, defaults)
    return r


POPULAR = ("SMA", "EMA", "RSI", "MACD", "BBANDS", "STOCH", "ATR", "CORREL", "BETA", "ADD", "AD", "OBV", "MAVP", "CDLDOJI", "AROON", "MFI")


def spoil(sim, r, args, defaults):
    """Makes the request invalid in one way."""
    w = sim.w
    kind = w.below(7)
    r.valid = False
    if kind == 0:
        r.func, r.why = "NO_SUCH_FUNCTION", "unknown function"
    elif kind == 1 and "col_to_transform" in r.kwargs:
        del r.kwargs["col_to_transform"]
        r.why = "no column"
    elif kind == 2 and "real0" in args:
        r.kwargs["col_to_transform"] = "close"
        r.why = "one column instead of two"
    elif kind == 3:
        r.kwargs["col_to_transform_mapping"] = dict(r.kwargs.get("col_to_transform_mapping", {}), nonsense="close")
        r.why = "unknown name in the mapping"
    elif kind == 4:
        r.kwargs["kw_args"] = dict(r.kwargs.get("kw_args", {}), nonsense=3)
        r.why = "unknown parameter"
    elif kind == 5:
        r.kwargs["col_to_transform_mapping"] = [("high", "close")]
        r.why = "mapping is not a dictionary"
    elif "real" in args:
        r.kwargs["col_to_transform"] = "no such column"
        r.why = "unknown column"
    else:
        a = next((x for x in args if not x.startswith("real")), None)
        if a is None:
            r.valid = True
            return
        r.kwargs["col_to_transform_mapping"] = {a: "no such column"}
        r.why = "unknown column"


def make_frames(sim):
    w = sim.w
    out = []
    for _ in range(w.between(1, 3)):
        n = w.pick((60, 1, 5, 30, 120))
        bars = make_bars(sim, make_index(sim, n), zero_volume=False)
        rs = w.np_random()
        X = bars[["open", "high", "low", "close"]].copy()
        X["volume"] = bars["base_asset_volume"]
        X["vol 2"] = bars["quote_asset_volume"]
        X["price a"] = bars["close"] * (1 + 0.01 * rs.randn(n))
        X["price b"] = bars["open"] * (1 + 0.01 * rs.randn(n))
        X["periods"] = rs.randint(2, 6, size=n).astype(float)
        if w.chance(20):
            X.index = pd.RangeIndex(n)
        if w.chance(30):
            X = X[w.shuffled(list(X.columns))]
        out.append(X)
    return out


def direct(r, X):
    """What TA-lib itself says, or None when it refuses."""
    import talib

    try:
        out = getattr(talib, r.func)(*[X[c].values.copy() for c in r.columns], **r.params)
    except Exception:  # noqa
        return None
    return np.column_stack(out) if isinstance(out, tuple) else np.asarray(out).reshape(-1, 1)


class Use:
    pass


def run(sim):
    from mizarlabs.transformers.technical.factory import TAFactory

    w = sim.w
    factory = TAFactory()
    names = sorted(factory.get_functions())
    frames = make_frames(sim)
    copies = [X.copy() for X in frames]
    made = []                       # (request, transformer, order)
    log = []
    shared_args = w.chance(40)      # callers reuse one object for the parameters of all their requests

    def caller(k, ops, me):
        pool = {}
        for op, arg in ops:
            if op == "create":
                r = arg
                kwargs = copy.deepcopy(r.kwargs)
                if shared_args and isinstance(kwargs.get("kw_args"), dict):
                    d = pool.setdefault("kw", {})
                    d.clear()
                    d.update(kwargs["kw_args"])
                    kwargs["kw_args"] = d
                if shared_args and isinstance(kwargs.get("col_to_transform_mapping"), dict):
                    d = pool.setdefault("map", {})
                    d.clear()
                    d.update(kwargs["col_to_transform_mapping"])
                    kwargs["col_to_transform_mapping"] = d
                passed = copy.deepcopy(kwargs)
                was = me.faulted
                t, err = None, None
                try:
                    t = factory.create_transformer(r.func, **kwargs)
                except BaseException as e:  # noqa
                    err = e
                injected = me.faulted and not was
                log.append(("create", k, r, err, injected, kwargs == passed))
                if t is not None:
                    made.append((r, t, len(log)))
                    if shared_args:
                        for v in kwargs.values():        # the caller goes on using its own objects
                            if isinstance(v, dict):
                                v.clear()
                            elif isinstance(v, list):
                                v[:] = ["no such column"] * len(v)
            elif made:
                i, fi = arg
                r, t, since = made[i % len(made)]
                u = Use()
                u.k, u.r, u.X, u.n, u.since = k, r, frames[fi], len(log), since
                u.out, u.err = None, None
                was = me.faulted
                try:
                    u.out = (t.transform if (i // 7) % 3 else t.fit_transform)(frames[fi])
                except BaseException as e:  # noqa
                    u.err = e
                u.injected = me.faulted and not was
                log.append(("use", u))

    sched = Scheduler(sim)
    for k in range(w.between(1, 4)):
        ops = []
        for j in range(w.between(2, 8)):
            if j == 0 or w.chance(50):
                ops.append(("create", make_request(sim, names)))
            else:
                ops.append(("use", (w.below(1000), w.below(len(frames)))))
        fault = None
        if sim.f.chance(30):
            fault = (sim.f.between(1, 150), sim.f.pick(FAULT_KINDS))
        task = sched.add(f"caller {k}", None, fault)
        task.fn = (lambda k=k, ops=ops, task=task: caller(k, ops, task))
    sched.run()
    for t in sched.tasks:
        if t.error is not None:
            raise t.error
    # everything made so far is used once more, at leisure, some of it in another process
    for i, (r, t, since) in enumerate(made):
        u = Use()
        u.k, u.r, u.X, u.n, u.since, u.injected = "end", r, frames[i % len(frames)], len(log), since, False
        u.out, u.err = None, None
        if r.valid and direct(r, u.X) is not None and sim.f.chance(2):
            u.out = fresh.ask(sim, f"{r.func}", t.transform, u.X)
        else:
            try:
                u.out = t.transform(u.X)
            except Exception as e:  # noqa
                u.err = e
        log.append(("use", u))

    late_use = False
    for entry in log:
        if entry[0] == "create":
            _, k, r, err, injected, unchanged = entry
            sim.log("create", k, r.func, sorted(r.kwargs), r.why, type(err).__name__)
            sim.expect(unchanged, "arguments modified", lambda: f"create_transformer({r.func}, {r.kwargs}) modified its arguments")
            if injected:
                continue
            if r.valid:
                sim.expect(err is None, "valid request rejected", lambda: f"create_transformer({r.func!r}, {r.kwargs}): {err!r}")
            elif err is None:
                sim.probe("invalid request accepted until used")
            else:
                sim.fault("rejected request")
            continue
        u = entry[1]
        sim.log("use", u.k, u.r.func, len(u.X), type(u.err).__name__)
        if u.injected:
            continue
        what = f"{u.r.func} {u.r.kwargs} on {len(u.X)} bars"
        if not u.r.valid:
            sim.expect(u.err is not None, "invalid request not rejected", lambda: f"{what} ({u.r.why}) gives {u.out!r:.200}")
            sim.fault("rejected use")
            continue
        want = direct(u.r, u.X)
        if want is None:
            sim.expect(u.err is not None, "refused parameters accepted", lambda: f"TA-lib refuses {what}")
            sim.probe("parameters refused by TA-lib")
            continue
        sim.expect(u.err is None, "use failed", lambda: f"{what}: {u.err!r}")
        got = u.out
        sim.expect(isinstance(got, np.ndarray) and got.ndim == 2 and len(got) == len(u.X), "shape",
                   lambda: f"{what}: {type(got).__name__} of shape {getattr(got, 'shape', None)}")
        sim.expect(got.shape == want.shape and np.allclose(got.astype(float), want.astype(float), rtol=1e-12, atol=0, equal_nan=True),
                   "values", lambda: f"{what}: {got[-3:].tolist()} instead of {want[-3:].tolist()}")
        sim.log_data("values", got)
        sim.probe("outputs judged")
        if u.n > u.since + 1:
            late_use = True
    for X, c in zip(frames, copies):
        sim.expect(X.equals(c) and list(X.columns) == list(c.columns), "frame modified", "a transformer modified the frame")
    sim.expect(sorted(factory.get_functions()) == names, "factory modified", "the functions on offer changed")
    sim.nontrivial = late_use and sum(r.valid for r, _, _ in made) >= 2
