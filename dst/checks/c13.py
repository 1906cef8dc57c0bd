"""C13: a live strategy's positions and exits are right after any restart and history."""
import pickle

import numpy as np
import pandas as pd

from dst import fresh
from dst.checks.c12 import misbehave
from dst.core import close, terse
from dst.live import live
from dst.sched import FAULT_KINDS, LineFault
from dst.strategy import Strategy, frozen, unmodified

RUNS = {"quick": 2000, "thorough": 40000}
INCARNATIONS = {"quick": 8, "thorough": 32}
RULE = ("a run is a trading process on the bars it has received (delayed, stalled, lost and re-sent, duplicated) that saves "
        "itself now and then (also in the layout of older versions), crashes and continues from its last save, in this or "
        "another process, with failing and rejected calls in between; judged row by row against the position rule; "
        "non-trivial: position tables were judged both before and after a restart, or after a failing call")
REAL = ["mizarlabs.model.pipeline.StrategyTrader and StrategySignalPipeline", "mizarlabs.transformers.targets.labeling.get_daily_vol",
        "mizarlabs.transformers.trading.bet_sizing", "pickle", "pandas", "numpy"]
STUB = ["bar transport, clock, process and save file (simulated)", "models that are fixed functions of their features",
        "closing model that follows a script", "the other process is a fork made before any run"]
ASSUMPTIONS = ["unique increasing leading times, positive closes",
               "volatility agrees up to 1e-9 of the scale of the returns"]


def warmup(tier):
    make_closing([None])                 # the class exists before anything is saved or forked
    fresh.start()


def closing_class():
    from mizarlabs.model.pipeline import ClosingPositionsModel

    return ClosingPositionsModel


class _Lazy:
    cls = None


def make_closing(script):
    if _Lazy.cls is None:
        class Scripted(closing_class()):
            def __init__(self, script):
                self.script = script

            def close_positions(self, X_dict):
                return self.script[len(X_dict["lead"]) % len(self.script)]

        Scripted.__module__, Scripted.__qualname__ = __name__, "Scripted"
        globals()["Scripted"] = Scripted
        _Lazy.cls = Scripted
    return _Lazy.cls(script)


def daily_vol(closes, times, span):
    """By definition: exponentially weighted deviation of the returns over the last close more than a day old."""
    day = 86_400 * 10 ** 9
    r = []
    for i, t in enumerate(times):
        old = [j for j in range(len(times)) if times[j] < t - day]
        r.append(closes[i] / closes[old[-1]] - 1 if old else np.nan)
    out = np.full(len(times), np.nan)
    a = 2.0 / (span + 1)
    for i in range(len(times)):
        x = np.array([v for v in r[: i + 1] if not np.isnan(v)])
        if len(x) < 2 or np.isnan(r[i]):
            continue
        wt = (1 - a) ** np.arange(len(x) - 1, -1, -1)
        m = (wt * x).sum() / wt.sum()
        var = (wt * (x - m) ** 2).sum() / wt.sum()
        den = wt.sum() ** 2 - (wt ** 2).sum()
        out[i] = np.sqrt(var * wt.sum() ** 2 / den)
    scale = np.nanmax(np.abs(r)) if np.isfinite(r).any() else 0.0
    return out, scale


def _elsewhere(blob, data, script_cls):
    trader = pickle.loads(blob)
    out = trader.create_position(data)
    return out, trader.strategy_valid, pickle.dumps(trader)


def run(sim):
    from mizarlabs.model.pipeline import StrategyTrader

    w, f = sim.w, sim.f
    allowed = ["all", "long", "short", None]
    script = None
    if w.chance(60):
        script = [w.pick(allowed) for _ in range(w.between(1, 5))]
        if w.chance(30):
            script[w.below(len(script))] = w.pick(("everything", "", "LONG", 1, "none"))
    closing = make_closing(script) if script else None
    st = Strategy(sim, closing=closing, wild=w.chance(40))
    n = w.pick((25, 6, 60, 1))
    data = st.make_data(n, unit=w.pick((3 * 3600_000, 11 * 3600_000, 86_400_000, 3600_000)))
    adjusted = w.chance(70)
    cfg = dict(num_expiration_bars=w.between(1, 30), stop_loss_factor=w.pick((1.0, 0.0, 2.5, 0.02, None)),
               profit_taking_factor=w.pick((2.0, 0.0, 0.5, 0.01, None)), volatility_window=w.pick((100, 2, 5, 20)))
    if not adjusted or w.chance(50):
        cfg["volatility_adjusted_stop_loss"] = adjusted
    args = terse(sim, cfg, dict(volatility_window=100, volatility_adjusted_stop_loss=True,
                                stop_loss_factor=None, profit_taking_factor=None))
    trader = StrategyTrader(st.pipe, w.between(1, 50), **args)
    sim.log(st.describe(), "trader", sorted(cfg.items()), "script", script, "bars", n)
    lf = LineFault(sim)
    labels = pd.Series(w.np_random().choice([-1.0, 1.0], size=n), index=data["lead"].index)
    whole = st.rule(data)
    if not whole["may_fail"] and any(s is not None and any(x > 1 or x < 0 for x in s) for s in whole["sizes"]):
        sim.probe("sizes out of bounds")
    flag = None
    saved = None
    judged = dict(before=0, after=0, upset=0)
    restarted = upset = False
    vol_cache = {}

    def reference_vol(part):
        c = part["lead"]["close"]
        m = (c.index[0], len(c))
        if m not in vol_cache:
            vol_cache[m] = daily_vol(c.values, c.index.asi8, cfg["volatility_window"])
        return vol_cache[m]

    def judge_bars(got, part, what):
        lead = part["lead"].index
        sim.expect(got.index.is_unique and set(got.index) == set(lead), "position rows",
                   lambda: f"{what}: rows {len(got)} for {len(lead)} bars")
        got = got.reindex(lead)
        for col, key in (("stop_loss", "stop_loss_factor"), ("profit_taking", "profit_taking_factor")):
            if cfg[key] is None:
                want, tol = np.full(len(lead), np.nan), 0.0
            elif adjusted:
                v, scale = reference_vol(part)
                want, tol = v * cfg[key], 1e-9 * max(scale, 1e-9) * max(cfg[key], 1e-9) + 1e-15
                tol = max(tol, 3e-8 * scale * cfg[key])          # the square root of a rounding error
            else:
                want, tol = np.full(len(lead), float(cfg[key])), 1e-15
            ok = np.isclose(got[col].values.astype(float), want, rtol=1e-9, atol=tol, equal_nan=True)
            if not ok.all():
                i = int(np.flatnonzero(~ok)[0])
                sim.fail(col, f"{what}: {col} of bar {i} is {got[col].iloc[i]}, expected {want[i]} ({cfg})")
        sim.expect((got["num_expiration_bars"] == cfg["num_expiration_bars"]).all(), "expiration",
                   lambda: f"{what}: expirations {got['num_expiration_bars'].unique()} instead of {cfg['num_expiration_bars']}")
        return got

    def judge_position(got, part, rule, what):
        got = judge_bars(got, part, what)
        sub = got[["side", "size"]]
        has = sub.notna()
        sim.expect((has["side"] == has["size"]).all(), "position", lambda: f"{what}: side without size or the reverse")
        st.judge_signal(sim, sub[has["side"]], part, rule, what)
        sim.probe("position rows judged", len(got))

    def valid(rule):
        """What the flag may be after a signal on these bars."""
        out = set()
        sides = [rule["side"][i] for i, s in enumerate(rule["sizes"]) if s is not None]
        sizes = [s for s in rule["sizes"] if s is not None]
        if any(not -1 <= x <= 1 for x in sides):
            return {False}
        if any(all(not 0 <= x <= 1 for x in s) for s in sizes):
            return {False}
        if any(any(not 0 <= x <= 1 for x in s) or any(min(abs(x), abs(x - 1)) < 1e-9 and x not in (0, 1) for x in s) for s in sizes):
            out.add(False)
        return out | {True}

    def save():
        """A durable save, sometimes as an older version would have written it."""
        copy = pickle.loads(pickle.dumps(trader))
        if adjusted and f.chance(40) and "volatility_adjusted_stop_loss" in vars(copy):
            del copy.__dict__["volatility_adjusted_stop_loss"]
            sim.fault("save of an older version (volatility)")
        if script is None and f.chance(40) and "closing_positions_model" in vars(copy.strategy_pipeline):
            del copy.strategy_pipeline.__dict__["closing_positions_model"]
            sim.fault("save of an older version (closing model)")
        return pickle.dumps(copy), flag

    def attach(t):
        """The harness's handles on the models inside a restored trader."""
        p = t.strategy_pipeline
        st.pipe = p
        st.pmodel, st.mmodel = p.primary_model, p.metalabeling_model
        st.steps = [x for d in (p.feature_transformers_primary_model, p.feature_transformers_metalabeling_model)
                    for x in d.values() if x is not None and hasattr(x, "fail")]

    saved = save()
    for tick in live(sim, data["lead"], calls=w.between(2, 5)):
        part = st.upto(data, tick.n)
        if any(len(v) == 0 for v in part.values()):
            continue
        what = f"{tick.n} bars"
        copies = frozen(part)
        rule = st.rule(part)
        if tick.restarted:
            trader = sim.call("restore", pickle.loads, saved[0])
            flag = saved[1]
            attach(trader)
            restarted = True
            sim.expect(trader.strategy_valid == flag, "restored flag", lambda: f"validity {trader.strategy_valid} instead of {flag}")
        if f.chance(30):
            old, upset = st.pipe, True
            misbehave(sim, st, part, lf, labels)
            unmodified(sim, part, copies, "a failing call")
        if f.chance(12):
            at, kind = f.between(1, 120), f.pick(FAULT_KINDS)
            try:
                lf.run(lambda: trader.create_position(part), at, kind)
            except BaseException:  # noqa
                if not lf.fired and not rule["may_fail"]:
                    raise
            if not rule["may_fail"]:
                sim.expect(trader.strategy_valid == flag or trader.strategy_valid in valid(rule), "flag",
                           lambda: f"{what}: validity {trader.strategy_valid} after an interrupted call")
            flag, upset = trader.strategy_valid, True
            unmodified(sim, part, copies, "an interrupted call")
        if f.chance(25):
            name = f.pick(sorted(part))
            k = f.below(len(part[name]))
            bad = dict(part)
            bad[name] = pd.concat([part[name], part[name].iloc[k:k + 1]]).sort_index()
            for fn in (trader.create_position, trader.create_signal, trader.create_strategy_bars):
                try:
                    fn(bad)
                    sim.fail("duplicates accepted", f"{fn.__name__} accepts a frame {name} with a duplicated time")
                except ValueError:
                    pass
            sim.fault("frame with duplicated times")
            sim.expect(trader.strategy_valid == flag, "flag", lambda: f"validity {trader.strategy_valid} after a rejected call, was {flag}")
        # positions
        if rule["may_fail"]:
            try:
                trader.create_position(part)
            except Exception:  # noqa
                pass
            flag = trader.strategy_valid
        elif f.chance(4):
            # another process continues from a save made now, and hands back
            blob = pickle.dumps(trader)
            got, flag, blob = fresh.ask(sim, "create_position", _elsewhere, blob, part, None)
            trader = pickle.loads(blob)
            attach(trader)
            restarted = True
            judge_position(got, part, rule, what + " in another process")
            sim.expect(flag in valid(rule), "flag", lambda: f"{what}: validity {flag} for {rule['sizes']} {rule['side']}")
        else:
            got = sim.call("create_position", trader.create_position, part)
            sim.log_data(what, got.reindex(part["lead"].index)[["side", "size", "stop_loss", "profit_taking"]])
            judge_position(got, part, rule, what)
            flag = trader.strategy_valid
            sim.expect(flag in valid(rule), "flag", lambda: f"{what}: validity {flag} for sizes {rule['sizes']} sides {rule['side']}")
            if flag is False:
                sim.probe("invalid signals")
        judged["after" if restarted else "before"] += 1
        judged["upset"] += upset
        if sim.s.chance(30):
            judge_bars(sim.call("create_strategy_bars", trader.create_strategy_bars, part), part, what)
        if sim.s.chance(30) and not rule["may_fail"]:
            got = sim.call("create_signal", trader.create_signal, part)
            st.judge_signal(sim, got, part, rule, what)
            flag = trader.strategy_valid
            sim.expect(flag in valid(rule), "flag", lambda: f"{what}: validity {flag} for sizes {rule['sizes']} sides {rule['side']}")
        if sim.s.chance(30) and tick.n > 2:
            # only the most recent bars
            recent = dict(part, lead=part["lead"].iloc[sim.s.below(tick.n - 1):])
            r = st.rule(recent)
            if not r["may_fail"]:
                fn, judge = sim.s.pick(((trader.create_position, judge_position), (trader.create_signal, st.judge_signal)))
                got = sim.call("recent bars", fn, recent)
                if judge is judge_position:
                    judge(got, recent, r, what + ", recent only")
                else:
                    judge(sim, got, recent, r, what + ", recent only")
                was, flag = flag, trader.strategy_valid
                sim.expect(flag in valid(r), "flag", lambda: f"{what}, recent only: validity {flag} for sizes {r['sizes']} sides {r['side']}")
                if was is False and flag:
                    sim.probe("valid again")
        # exits
        decision = script[tick.n % len(script)] if script else None
        for obj in (trader, trader.strategy_pipeline):
            try:
                got, err = obj.determine_positions_to_close(part), None
            except Exception as e:  # noqa
                got, err = None, e
            if isinstance(decision, str) and decision in allowed or decision is None:
                sim.expect(err is None and got == decision, "exit decision",
                           lambda: f"{what}: {got!r} {err!r}, the closing model says {decision!r}")
            else:
                sim.expect(isinstance(err, ValueError), "exit decision", lambda: f"{what}: decision {decision!r} gives {got!r} {err!r}")
                sim.fault("closing model with an invalid decision")
        unmodified(sim, part, copies, what)
        if sim.s.chance(50):
            saved = save()
    sim.nontrivial = bool(judged["after"] and judged["before"] or judged["upset"])
