"""Writes MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

TECHNIQUE = "deterministic simulation with fault injection: seeded search over "
CHECKS = {
    "C01": ("numba worker schedules, fresh-memory contents, bar arrival and crash/restart histories, against an event-by-event reference",
            "Every run executes the real kernels (machine code or the kernel source preempted statement by statement) under simulated workers; assurance is that of the sampled schedules and histories. Trusts the reference labeller, pandas and numba's code generation."),
    "C02": ("numba worker schedules, fresh-memory contents and call histories of a long-lived labeler, against least squares per window",
            "Sampled schedules and histories; near-ties of t-values are accepted either way. Trusts the reference regression."),
    "C03": ("numba worker schedules, books of bets whose closes are announced late, repeatedly or never, against the mean over open bets",
            "Sampled books and schedules. Half-way discretisation is accepted either way."),
    "C04": ("numba worker schedules, fresh-memory contents, linear-algebra failures inside workers and arrival histories, against reference regressions",
            "Well-posed regressions only (condition bound); sampled. Trusts the reference formulas."),
    "C05": ("joblib partitions, orders and interleavings, workers as threads or processes, several hash seeds, noise on global random sources",
            "Differential: each ensemble against a sequential one, and the same runs across interpreters with different hash seeds."),
    "C06": ("scripted random sources, orders of rows and shared-memory fits, against an exact average-uniqueness model of every draw",
            "The probabilities handed to the random source are compared with the model for every draw."),
    "C07": ("training tasks failing at seeded lines, failing member fits, lost workers, save/restore in another process, warm starts",
            "Reference ensemble from an undisturbed training with the same seed; out-of-bag values recomputed from the members."),
    "C08": ("interleaved lazy consumers that abandon and restart iterations, against the definition of purging and embargo evaluated sample by sample",
            "Sampled times, groups, embargoes and interleavings."),
    "C09": ("scripted shuffles, interleaved path computations and failing model fits, against recomputed split-by-split predictions",
            "Sampled groups/splits; models are deterministic functions of their train set so that each prediction identifies it."),
    "C10": ("arrival histories (delay, stall, loss with back-fill, duplicates), crashes with truncated history, interleaved instruments",
            "Live value against whole-history value, 1e-9 relative; restarts up to the rounding of rolling sums."),
    "C11": ("arrival patterns of several feeds, re-alignments as data arrives, failing calls, against a row-by-row model",
            "Sampled arrival patterns; observes the aligned features through the training data set."),
    "C12": ("live bar histories, failing models, transformers and missing feeds, against the sizing rule evaluated bar by bar",
            "Models are deterministic functions of the features so that every prediction can be recomputed."),
    "C13": ("live histories with crashes, save/restore in another process, saves of older versions, failing calls, against a position model",
            "Sampled histories; the volatility reference is recomputed from its definition."),
    "C14": ("caller threads parked and switched at every line of repository code, failures raised at seeded lines",
            "Each concurrent result against a fresh object's; line-granular interleavings, compiled kernels are atomic steps."),
    "C15": ("batched, re-sent and restarted histories and failing calls, against an online filter that sees one bar at a time",
            "Sampled histories."),
    "C16": ("threads creating and using transformers concurrently, rejected requests and failures in between, against direct TA-lib calls",
            "Sampled over all TA-lib functions the factory can build."),
    "C17": ("live books of samples whose ends become known late and out of order, crashes with truncated archives and failing calls, against a sweep over opens and closes",
            "Sampled books and histories; refinement against the definitions, 1e-9 relative."),
    "C18": ("arrival histories, crashes with truncated history, interrupted calls and interleaved instruments, against estimators fed one bar at a time",
            "Refinement against small online estimators; TA-lib is trusted for EMA, RSI and MACD. Values that rounding decides are left open."),
    "C19": ("interleaved callers with scripted, seeded and failing random sources, against stratified quantiles and draws in another process",
            "Sampled ranges and strata; quantiles to 1e-6 of the logarithmic range."),
    "C20": ("joblib partitions, orders and interleavings, failing parts, failures at seeded lines, lost workers, concurrent callers, other processes",
            "Each output against the parts used alone; parts that learn reveal which bars and targets they were trained on."),
    "C21": ("joblib workers, orders and interleavings of the trainings of a search, failures at seeded lines, lost workers, repeated searches, other users of the global generator, other processes",
            "Every score against a model built from constructors and trained alone on the rows of its split (reference split of C08)."),
}
REFERENCE = {}

checks = []
for cid, (how, note) in CHECKS.items():
    if not os.path.exists(os.path.join(HERE, "dst", "checks", cid.lower() + ".py")):
        continue
    cmd = f"{PY} -m dst.runner {cid}"
    checks.append(dict(property=cid, quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                       evidence_file=f"evidence/{cid}.json", technique=TECHNIQUE + how, level="exploration",
                       level_note="Seeded exploration, not exhaustive. " + note))
na = [dict(property=k, reason=v) for k, v in REFERENCE.items()]
done = {c["property"] for c in checks}
na += [dict(property=c, reason="check still being built") for c in CHECKS if c not in done]
json.dump(dict(version=1, setup_cmd=f"{PY} -m dst.setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo. VERIF_SEED selects the seed; a violation's replay file is run with "
                     "`/opt/venv/bin/python -m dst.runner <ID> --replay <file>`."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
