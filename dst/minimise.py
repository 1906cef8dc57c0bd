"""Shrinks the choice streams of a failing run while the same kind of violation persists."""
import time


def _kind_group(kind):
    return kind


def minimise(execute, streams, kind, deadline):
    """Returns (streams, sim, violation, executions)."""
    tried = 0
    best = {k: list(v) for k, v in streams.items()}
    sim, v = execute(best)
    if v is None or _kind_group(v.kind) != _kind_group(kind):
        raise RuntimeError("not reproducible in this process")
    best_sim, best_v = sim, v
    best = sim.recorded()

    def attempt(cand):
        nonlocal best, best_sim, best_v, tried
        if time.time() > deadline:
            return False
        tried += 1
        s, vv = execute(cand)
        if vv is not None and _kind_group(vv.kind) == _kind_group(kind):
            rec = s.recorded()
            if _cost(rec) < _cost(best):
                best, best_sim, best_v = rec, s, vv
                return True
        return False

    # faults first (a trace without faults is the easiest to read), then schedule, then workload
    order = ("fault", "schedule", "workload")
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for name in order:
            if best[name] and any(best[name]):
                if attempt({**best, name: []}):
                    improved = True
                    continue
            # drop or zero blocks
            size = max(1, len(best[name]) // 2)
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(best[name]) and time.time() < deadline:
                    vals = best[name]
                    block = vals[i:i + size]
                    ok = False
                    if any(block):
                        ok = attempt({**best, name: vals[:i] + [0] * len(block) + vals[i + size:]})
                    if not ok and name != "workload":
                        ok = attempt({**best, name: vals[:i] + vals[i + size:]})
                    if ok:
                        improved = True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
            # lower single values
            i = 0
            while i < len(best[name]) and time.time() < deadline:
                x = best[name][i]
                if x > 1:
                    for y in (1, x // 2, x - 1):
                        if y < x and i < len(best[name]):
                            vals = best[name]
                            if attempt({**best, name: vals[:i] + [y] + vals[i + 1:]}):
                                improved = True
                                break
                i += 1
    # trailing zeros are implied
    return {k: _rstrip(v) for k, v in best.items()}, best_sim, best_v, tried


def _rstrip(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


def _cost(streams):
    return (
        sum(1 for v in streams.values() for x in v if x),
        sum(len(v) for v in streams.values()),
        sum(x for v in streams.values() for x in v),
    )
