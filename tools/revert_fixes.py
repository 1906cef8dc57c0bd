"""Sensitivity: with a repair taken back (in a scratch copy of /repo), the check that found the defect reports it again.

usage: python tools/revert_fixes.py [COMMIT ...]
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(only):
    fixed = [re.match(r"fixed: property=(\w+) (\w+) (.*)", x).groups() for x in json.load(open(HERE + "/known_findings.json"))["fixed"]]
    with tempfile.TemporaryDirectory() as d:
        copy = os.path.join(d, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        subprocess.run(["git", "-C", copy, "reset", "-q", "--hard"])
        for prop, commit, what in fixed:
            if only and commit not in only:
                continue
            diff = subprocess.run(["git", "-C", copy, "show", commit], capture_output=True).stdout
            r = subprocess.run(["git", "-C", copy, "apply", "-R", "--3way"], input=diff, capture_output=True)
            if r.returncode:
                print(prop, commit, "cannot be taken back alone", flush=True)
            else:
                p = subprocess.run([sys.executable, "-m", "dst.runner", prop, "--fast", "--no-evidence"], cwd=HERE, capture_output=True,
                                   text=True, env=dict(os.environ, DST_REPO=copy))
                line = p.stdout.splitlines()[1:2]
                print(prop, commit, {0: "MISSED", 1: "reported"}.get(p.returncode, f"exit {p.returncode}"), line, flush=True)
            subprocess.run(["git", "-C", copy, "reset", "-q", "--hard"])


if __name__ == "__main__":
    main(sys.argv[1:])
