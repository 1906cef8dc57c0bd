"""Executes the runs of one incarnation (one interpreter, one hash seed), or replays / minimises.

Protocol: reads a job (json file), appends json lines to the job's output file.
"""
import faulthandler
import importlib
import json
import os
import re
import sys
import time
import traceback
import warnings


def quiet():
    warnings.simplefilter("ignore")
    os.environ["PYTHONWARNINGS"] = "ignore"
    import logging

    logging.disable(logging.CRITICAL)


def execute(check, seed=None, streams=None, tier="quick"):
    """Runs once; returns (sim, violation or None).  Harness errors propagate."""
    from dst.core import HarnessError, Injected, Sim, Violation
    from dst import env

    sim = Sim(seed=seed, streams=streams, tier=tier)
    env.reset(sim)
    violation = None
    try:
        check.run(sim)
    except Violation as v:
        violation = v
    except (HarnessError, OSError, ImportError):
        raise
    except MemoryError as e:
        if "injected" not in str(e):
            raise HarnessError("out of memory") from e
        violation = Violation("leaked-fault", "an injected failure escaped: " + traceback.format_exc(limit=-6))
    except Exception as e:  # a result the judge could not even digest
        violation = Violation(
            f"malformed-result:{type(e).__name__}",
            f"the judge could not read the result: {e}\n" + traceback.format_exc(limit=-6),
        )
    finally:
        env.cleanup(sim)
    if violation is not None:
        sim.log("VIOLATION", violation.kind)
    return sim, violation


def matches_known(known, v):
    return v is not None and any(k["kind"] == v.kind and re.search(k["match"], v.message) for k in known)


def run_seed(seed, index):
    return f"{seed}:{index}"


def main(job_path):
    job = json.load(open(job_path))
    out = open(job["out"], "a", buffering=1)

    def emit(**kw):
        out.write(json.dumps(kw) + "\n")

    quiet()
    faulthandler.enable()
    check = importlib.import_module("dst.checks." + job["check"].lower())
    from dst.core import HarnessError, Violation

    t0 = time.time()
    if hasattr(check, "warmup"):
        try:
            check.warmup(job["tier"])
        except (ImportError, OSError, MemoryError):
            raise
        except Exception:       # the runs will show what it is
            traceback.print_exc()
    emit(ev="ready", t=time.time() - t0)

    mode = job["mode"]
    if mode == "explore":
        deadline = t0 + job["budget_s"]
        for index in job["indices"]:
            if time.time() > deadline:
                emit(ev="budget", at=index)
                break
            if any(int(f) < index for f in os.listdir(job["stop"])):
                break                             # another process failed at an earlier run
            emit(ev="start", i=index)
            t1 = time.time()
            sim, v = execute(check, seed=run_seed(job["seed"], index), tier=job["tier"])
            emit(
                ev="done", i=index, log=sim.log_digest, sched=sim.sched_digest, steps=sim.steps,
                time=sim.time, faults=dict(sim.faults), probes=dict(sim.probes),
                nontrivial=sim.nontrivial, wall=time.time() - t1,
                sample=sim.trace[:12] if index < 3 else None,
                violation=None if v is None else dict(kind=v.kind, message=v.message),
                streams=sim.recorded() if v is not None else None,
                trace=sim.trace if v is not None else None,
                known=matches_known(job["known"], v),
            )
            if v is not None and not matches_known(job["known"], v):
                open(os.path.join(job["stop"], str(index)), "w").close()
                break
        emit(ev="end")
    elif mode == "replay":
        for p in job.get("prefix", []):
            execute(check, seed=p.get("seed"), streams=p.get("streams"), tier=job["tier"])
        emit(ev="start", i=-1)
        sim, v = execute(check, seed=job.get("run_seed"), streams=job.get("streams"), tier=job["tier"])
        emit(
            ev="done", i=-1, log=sim.log_digest, sched=sim.sched_digest, faults=dict(sim.faults),
            violation=None if v is None else dict(kind=v.kind, message=v.message),
            streams=sim.recorded(), trace=sim.trace,
        )
        emit(ev="end")
    elif mode == "minimise":
        from dst.minimise import minimise

        best, sim, v, tried = minimise(
            lambda streams: execute(check, streams=streams, tier=job["tier"]),
            job["streams"], job["kind"], deadline=time.time() + job["budget_s"],
        )
        emit(
            ev="done", i=-1, log=sim.log_digest, tried=tried, faults=dict(sim.faults),
            violation=dict(kind=v.kind, message=v.message), streams=best, trace=sim.trace,
        )
        emit(ev="end")
    else:
        raise HarnessError(mode)


if __name__ == "__main__":
    try:
        main(sys.argv[1])
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
