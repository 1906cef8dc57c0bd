"""Runs one check: explores seeds over several interpreters, minimises, confirms, writes evidence.

usage: python -m dst.runner CHECK [--tier quick|thorough] [--runs N] [--replay FILE] [--log FILE]
Exit status: 0 held on everything explored; 1 with a VIOLATION line; 3 harness error.
"""
import argparse
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
RUN_TIMEOUT = 240          # wall seconds for a single run before it counts as "no progress"
WARMUP_TIMEOUT = 600
HARD_CAP = {"quick": 780, "thorough": 6 * 3600}


class HarnessFailure(Exception):
    pass


def child_env(hashseed):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=str(hashseed), PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1",
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="16", MALLOC_ARENA_MAX="1", TZ="UTC", LC_ALL="C.UTF-8",
        NUMBA_CACHE_DIR="/nonexistent-numba-cache", GLIBC_TUNABLES="glibc.malloc.tcache_count=0",
        JOBLIB_TEMP_FOLDER=tempfile.gettempdir(),
    )
    env.pop("NUMBA_DISABLE_JIT", None)
    if env.get("DST_REPO"):              # development only: judge a scratch copy of the repository
        env["PYTHONPATH"] += os.pathsep + env["DST_REPO"]
    return env


class Child:
    """One incarnation: an interpreter process executing a job."""

    def __init__(self, scratch, name, job, hashseed):
        self.job = dict(job, out=os.path.join(scratch, name + ".out"))
        self.name = name
        self.hashseed = hashseed
        path = os.path.join(scratch, name + ".json")
        json.dump(self.job, open(path, "w"))
        open(self.job["out"], "w").close()
        self.err = open(os.path.join(scratch, name + ".err"), "w+")
        self.proc = subprocess.Popen(
            [PY, "-m", "dst.worker", path], env=child_env(hashseed), cwd=scratch,
            stdout=self.err, stderr=self.err, start_new_session=True,
        )
        self.last_size = -1
        self.last_change = time.time()
        self.hung = False

    def poll(self):
        """True when finished.  Kills a process that makes no progress."""
        if self.proc.poll() is not None:
            return True
        size = os.path.getsize(self.job["out"])
        now = time.time()
        if size != self.last_size:
            self.last_size, self.last_change = size, now
        elif now - self.last_change > (self.job.get("stall_s", RUN_TIMEOUT) if size else WARMUP_TIMEOUT):
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def wait(self):
        while not self.poll():
            time.sleep(0.05)
        return self

    def events(self):
        out = []
        for line in open(self.job["out"]):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
        return out

    def stderr(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-4000:]

    def open_run(self):
        """The index of a run that started but did not finish."""
        cur = None
        for e in self.events():
            if e["ev"] == "start":
                cur = e["i"]
            elif e["ev"] == "done":
                cur = None
        return cur

    def finished(self):
        return any(e["ev"] == "end" for e in self.events()) and self.proc.returncode == 0


def run_children(scratch, jobs, width):
    """jobs: list of (name, job, hashseed); runs them `width` at a time, yields in order."""
    todo = list(jobs)
    live, done = [], {}
    while todo or live:
        while todo and len(live) < width:
            name, job, hs = todo.pop(0)
            live.append(Child(scratch, name, job, hs))
        for c in list(live):
            if c.poll():
                live.remove(c)
                done[c.name] = c
                if any(e.get("violation") and not e.get("known") for e in c.events() if e["ev"] == "done") or not c.finished():
                    todo = []      # a result is available, start nothing new
        time.sleep(0.02)
    return [done[n] for n, _, _ in jobs if n in done]


def hash_seed(seed, j):
    return (int(seed) * 7919 + j * 104729 + 1) % 4294967295


def load_known(check_id):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == check_id]


def explore(check_id, check, tier, seed, runs, scratch, width):
    stop = os.path.join(scratch, "failed")       # a failing run leaves its index here; later runs are skipped
    os.makedirs(stop, exist_ok=True)
    known = load_known(check_id)
    inc = getattr(check, "INCARNATIONS", {}).get(tier, 8 if tier == "quick" else 32)
    inc = min(inc, runs)
    budget = HARD_CAP[tier]
    jobs = [
        (
            f"x{j}",
            dict(check=check_id, mode="explore", tier=tier, seed=seed, stop=stop, known=known,
                 indices=list(range(j, runs, inc)) + list(range(runs, runs + check.SHARED)), budget_s=budget),
            hash_seed(seed, j),
        )
        for j in range(inc)
    ]
    return inc, run_children(scratch, jobs, width)


def confirm(scratch, base, hashseed, name, want_kind=None):
    c = Child(scratch, name, base, hashseed).wait()
    if c.hung:
        return c, dict(kind="no-progress", message="the run does not finish"), None
    if c.proc.returncode is not None and c.proc.returncode < 0:
        return c, dict(kind="process-crash", message=f"the interpreter died with signal {-c.proc.returncode}"), None
    if not c.finished():
        raise HarnessFailure(c.stderr())
    ev = [e for e in c.events() if e["ev"] == "done"][-1]
    return c, ev["violation"], ev


def handle_violation(check_id, tier, seed, scratch, child, index, first, inc):
    """Minimise, confirm in fresh processes, write the replay file, return its path and kind."""
    hs = child.hashseed
    base = dict(check=check_id, tier=tier, mode="replay", seed=seed)
    replay = dict(property=check_id, tier=tier, seed=seed, hashseed=hs, run_index=index)
    if first is None:
        # the process died or hung inside run `index`: is it reproducible in a fresh process?
        c, v, _ = confirm(scratch, dict(base, run_seed=f"{seed}:{index}"), hs, "rerun")
        if v is None:
            prefix = [dict(seed=f"{seed}:{i}") for i in child.job["indices"] if i < index]
            c, v, _ = confirm(scratch, dict(base, run_seed=f"{seed}:{index}", prefix=prefix), hs, "rerun2")
            if v is None:
                raise HarnessFailure(f"run {index} died once and does not do so again: {child.stderr()}")
            replay["prefix"] = prefix
        replay.update(run_seed=f"{seed}:{index}", violation=v, trace=[], reproduced=True,
                      note="the streams of a run that kills its process are regenerated from run_seed")
        return write_replay(check_id, seed, replay), v
    kind = first["violation"]["kind"]
    replay.update(violation=first["violation"], streams=first["streams"], trace=first["trace"],
                  log=first["log"], reproduced=False)
    # 1. as is, alone in a fresh process
    _, v, ev = confirm(scratch, dict(base, streams=first["streams"]), hs, "c1")
    if v is not None and v["kind"] == kind:
        replay.update(reproduced=True, violation=v)
        if ev:
            replay.update(log=ev["log"], trace=ev["trace"])
        m = Child(scratch, "min",
                  dict(base, mode="minimise", streams=first["streams"], kind=kind, stall_s=400,
                       budget_s=30 if tier == "quick" else 300), hs).wait()
        if m.finished():
            e = [e for e in m.events() if e["ev"] == "done"][-1]
            _, v2, ev2 = confirm(scratch, dict(base, streams=e["streams"]), hs, "c2")
            if v2 is not None and v2["kind"] == kind and ev2 and ev2["log"] == e["log"]:
                replay.update(streams=e["streams"], violation=v2, trace=ev2["trace"], log=ev2["log"],
                              minimised=True, executions=e["tried"])
    else:
        # 2. state left by the earlier runs of the same process is part of the failure
        prefix = [dict(seed=f"{seed}:{i}") for i in child.job["indices"] if i < index]
        _, v, ev = confirm(scratch, dict(base, streams=first["streams"], prefix=prefix), hs, "c3")
        if v is not None and v["kind"] == kind:
            t_end = time.time() + 120
            n = 1
            while n < len(prefix) and time.time() < t_end:   # shortest suffix of the history
                _, v2, ev2 = confirm(scratch, dict(base, streams=first["streams"], prefix=prefix[-n:]), hs, f"p{n}")
                if v2 is not None and v2["kind"] == kind:
                    prefix, v, ev = prefix[-n:], v2, ev2
                    break
                n *= 4
            replay.update(prefix=prefix, reproduced=True, violation=v)
            if ev:
                replay.update(log=ev["log"], trace=ev["trace"])
    return write_replay(check_id, seed, replay), replay["violation"]


def incarnations_differ(children, runs):
    """The same run in two interpreters (other hash seed, other history) with other results, or None."""
    seen = {}
    for c in children:
        for e in c.events():
            if e["ev"] == "done" and e["i"] >= runs:
                first = seen.setdefault(e["i"], (c, e))
                if first[1]["log"] != e["log"]:
                    return e["i"], first[0], c
    return None


def handle_difference(check_id, tier, seed, scratch, index, one, two):
    """Shortest history and smallest streams with which two interpreters disagree."""
    base = dict(check=check_id, tier=tier, mode="replay", seed=seed)
    both = [one.hashseed, two.hashseed]

    def logs(name, job):
        ev = [confirm(scratch, dict(base, **job), hs, f"{name}{k}")[2] for k, hs in enumerate(both)]
        return [e["log"] for e in ev], ev

    replay = dict(property=check_id, tier=tier, seed=seed, hashseeds=both, run_index=index, reproduced=True)
    got, ev = logs("d", dict(run_seed=f"{seed}:{index}"))
    if got[0] != got[1]:
        streams = ev[0]["streams"]
        kept = dict(streams)
        for name in ("fault", "schedule"):       # drop what is not needed to disagree
            cand = dict(kept, **{name: []})
            l2, e2 = logs("m" + name, dict(streams=cand))
            if l2[0] != l2[1] and not any(e["violation"] for e in e2):
                kept, got, ev = cand, l2, e2
        l3, e3 = logs("f", dict(streams=kept))
        replay.update(streams=kept, logs=l3, trace=first_differing_line(e3))
    else:
        prefixes = [[dict(seed=f"{seed}:{i}") for i in c.job["indices"] if i < index] for c in (one, two)]
        ev = [confirm(scratch, dict(base, run_seed=f"{seed}:{index}", prefix=p), hs, f"h{k}")[2]
              for k, (hs, p) in enumerate(zip(both, prefixes))]
        got = [e["log"] for e in ev]
        if got[0] == got[1]:
            raise HarnessFailure(f"run {index} differed once between interpreters and does not do so again")
        replay.update(run_seed=f"{seed}:{index}", prefixes=prefixes, logs=got, trace=first_differing_line(ev))
    v = dict(kind="differs between interpreters",
             message=f"the same run gives other results under hash seeds {both} "
                     f"(or after another history of the process): {replay['trace']}")
    replay["violation"] = v
    return write_replay(check_id, seed, replay), v


def first_differing_line(ev):
    a, b = ev[0]["trace"], ev[1]["trace"]
    for x, y in zip(a, b):
        if x != y:
            return [x, y]
    return ["(beyond the recorded trace)"]


def replay_difference(r, path, scratch):
    ev = []
    for k, hs in enumerate(r["hashseeds"]):
        job = dict(check=r["property"], tier=r["tier"], mode="replay", seed=r["seed"])
        job.update({"streams": r["streams"]} if "streams" in r else {"run_seed": r["run_seed"], "prefix": r["prefixes"][k]})
        ev.append(confirm(scratch, job, hs, f"r{k}")[2])
    logs = [e["log"] for e in ev]
    if logs[0] == logs[1]:
        print("replay: no violation")
        return 0
    print("\n".join(first_differing_line(ev)))
    print("replay: reproduced exactly" if logs == r["logs"] else "replay: differs, but not in the recorded way")
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1


def write_replay(check_id, seed, replay):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check_id}-{seed}-{replay['run_index']}.json")
    json.dump(replay, open(path, "w"), indent=1)
    return path


def matches_known(known, violation):
    for k in known:
        if k["kind"] == violation["kind"] and re.search(k["match"], violation["message"]):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--width", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--log", help="write the per-run digests here (determinism test)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--fast", action="store_true", help="development: report the first failure, write no replay file")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    check_id = a.check.upper()
    sys.path.insert(0, VERIF)
    os.environ.setdefault("NUMBA_NUM_THREADS", "16")
    print(f"check={check_id} VERIF_SEED={a.seed} tier={tier}", flush=True)

    with tempfile.TemporaryDirectory(prefix="dst-") as scratch:
        if a.replay:
            return do_replay(a.replay, scratch)
        meta = describe(check_id)
        runs = a.runs or meta["runs"][tier]
        t0 = time.time()

        class Meta:
            INCARNATIONS = meta["incarnations"]
            SHARED = meta["shared"]

        inc, children = explore(check_id, Meta, tier, a.seed, runs, scratch, a.width)
        explore_wall = time.time() - t0
        failures, dead, done = [], [], []
        budget_hit = 0
        for c in children:
            for e in c.events():
                if e["ev"] == "done":
                    done.append(e)
                    if e["violation"] and not e.get("known"):
                        failures.append((e["i"], c, e))
                if e["ev"] == "budget":
                    budget_hit += 1
            if not c.finished():
                cur = c.open_run()
                if cur is not None and (c.hung or (c.proc.returncode or 0) < 0):
                    failures.append((cur, c, None))
                else:
                    dead.append(c)
        if dead and not failures:
            for c in dead:
                print("HARNESS-ERROR", c.name, "exit", c.proc.returncode, file=sys.stderr)
                print(c.stderr() if c is dead[0] else "", file=sys.stderr)
            return 3
        if a.log:
            with open(a.log, "w") as f:
                for e in sorted(done, key=lambda e: e["i"]):
                    f.write(json.dumps([e["i"], e["log"], e["sched"], e["steps"], sorted(e["faults"].items())]) + "\n")
        rc, violations, lines = 0, 0, []
        known = load_known(check_id)
        for k in known:
            print(f"KNOWN-FINDING: property={check_id} {k['what']}")
        odd = None if failures else incarnations_differ(children, runs)
        if odd:
            path, v = handle_difference(check_id, tier, a.seed, scratch, *odd)
            if not matches_known(known, v):
                print(f"run {odd[0]}: {v['kind']}: {v['message']}"[:3000])
                print(f"VIOLATION property={check_id} replay={path}", flush=True)
                rc, violations = 1, 1
        elif failures:
            for index, c, first in sorted(failures, key=lambda x: x[0]):
                if a.fast and first:
                    path, v = "(not minimised)", first["violation"]
                else:
                    path, v = handle_violation(check_id, tier, a.seed, scratch, c, index, first, inc)
                if matches_known(known, v):
                    continue
                print(f"run {index}: {v['kind']}: {v['message']}"[:3000])
                print(f"VIOLATION property={check_id} replay={path}", flush=True)
                rc, violations = 1, len(failures)
                break
        elif budget_hit and len(done) < runs // 2:
            print(f"HARNESS-ERROR only {len(done)} of {runs} runs fit in the time budget", file=sys.stderr)
            return 3
        if not a.no_evidence:
            write_evidence(check_id, tier, a.seed, meta, done, children, time.time() - t0, explore_wall, violations)
        print(f"{check_id}: {len(done)} runs, {len({(e['log']) for e in done})} distinct, "
              f"{time.time() - t0:.1f} s, faults {dict(sum((Counter(e['faults']) for e in done), Counter()))}")
        return rc


def describe(check_id):
    """Static facts of a check, read in a child so that this process imports no repository code."""
    code = (
        "import json,sys,importlib;sys.argv=['x'];from dst.worker import quiet;quiet();"
        f"c=importlib.import_module('dst.checks.{check_id.lower()}');"
        "print('@@'+json.dumps(dict(runs=c.RUNS,incarnations=getattr(c,'INCARNATIONS',{'quick':8,'thorough':32}),"
        "shared=getattr(c,'SHARED',0),rule=c.RULE,real=c.REAL,stub=c.STUB,assumptions=getattr(c,'ASSUMPTIONS',[]))))"
    )
    p = subprocess.run([PY, "-c", code], env=child_env(0), cwd=VERIF, capture_output=True, text=True, timeout=300)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    print(p.stdout[-2000:], p.stderr[-4000:], file=sys.stderr)
    sys.exit(3)


def do_replay(path, scratch):
    r = json.load(open(path))
    if "hashseeds" in r:
        return replay_difference(r, path, scratch)
    job = dict(check=r["property"], tier=r["tier"], mode="replay", seed=r["seed"], prefix=r.get("prefix", []))
    if "streams" in r:
        job["streams"] = r["streams"]
    else:
        job["run_seed"] = r["run_seed"]
    c, v, ev = confirm(scratch, job, r["hashseed"], "replay")
    if v is None:
        print("replay: no violation")
        return 0
    for line in (ev or {}).get("trace", []):
        print("   ", line)
    print(f"{v['kind']}: {v['message']}")
    same = v["kind"] == r["violation"]["kind"] and (ev is None or "log" not in r or ev["log"] == r["log"])
    print("replay: reproduced exactly" if same else "replay: fails, but not in the recorded way")
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1


def write_evidence(check_id, tier, seed, meta, done, children, wall, explore_wall, violations):
    faults = sum((Counter(e["faults"]) for e in done), Counter())
    probes = sum((Counter(e["probes"]) for e in done), Counter())
    nontrivial = {e["log"] for e in done if e["nontrivial"]}
    hours = max(explore_wall, 1e-9) / 3600
    run_wall = sum(e["wall"] for e in done)
    coverage = dict(
        evaluations=len(done),
        distinct_nontrivial=len(nontrivial),
        rule=meta["rule"],
        samples=[dict(run=e["i"], trace=e["sample"]) for e in sorted(done, key=lambda e: e["i"]) if e.get("sample")][:3],
        simulated_runs_per_hour=round(len(done) / hours),
        seeds_per_hour=round(len({e["i"] for e in done}) / hours),
        simulated_seconds=round(sum(e["time"] for e in done), 3),
        faults_injected=dict(sorted(faults.items())),
        probes=dict(sorted(probes.items())),
        distinct_interleavings=len({e["sched"] for e in done}),
        interleaving_measure="distinct sequences of scheduler decisions (digest of every worker/task/thread/delivery choice of a run)",
        scheduler_decisions=sum(e["steps"] for e in done),
        interpreters=len(children),
        hash_seeds=sorted({c.hashseed for c in children})[:8],
        run_cpu_seconds=round(run_wall, 2),
        real_components=meta["real"],
        stubbed_components=meta["stub"],
    )
    ev = dict(property=check_id, tier=tier, seed=int(seed) if str(seed).isdigit() else 0, level="exploration",
              coverage=coverage, assumptions=meta["assumptions"], wall_s=round(wall, 2), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{check_id}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{check_id}.json"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessFailure as e:
        print("HARNESS-ERROR", e, file=sys.stderr)
        sys.exit(3)
