"""Determinism of the simulator: the same seeds give the same digests whatever the machine does.

usage: python tools/selftest.py [C01 ...]   (development; every check runs three times on a small number of runs)
The digest of a run covers its log: every schedule decision, fault and result.
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUNS = {"C14": 160, "C09": 80}


def main(ids):
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        for c in ids:
            logs = []
            for k, width in enumerate((8, 1, 3)):
                log = os.path.join(d, f"{c}-{k}")
                r = subprocess.run([sys.executable, "-m", "dst.runner", c, "--runs", str(RUNS.get(c, 240)), "--width", str(width),
                                    "--log", log, "--no-evidence"], cwd=HERE, capture_output=True, text=True)
                if r.returncode:
                    print(c, "exit", r.returncode, r.stdout[-500:], r.stderr[-500:])
                    bad = 1
                logs.append([json.loads(x) for x in open(log)])
            diff = [a[0] for a, b, x in zip(*logs) if not a == b == x]
            print(c, len(logs[0]), "runs,", "identical" if not diff and len(set(map(len, logs))) == 1 else f"DIFFERENT {diff[:10]}", flush=True)
            bad |= bool(diff)
    return bad


if __name__ == "__main__":
    sys.exit(main([x.upper() for x in sys.argv[1:]] or [f"C{i:02}" for i in range(1, 22)]))
