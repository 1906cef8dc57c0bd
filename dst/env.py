"""Process-wide state that is put back to a known value before and after every run."""
import os
import random
import sys

import numpy as np

REPO = os.environ.get("DST_REPO", "/repo")
_cleanups = []


def reset(sim):
    random.seed(12345)
    np.random.seed(12345)
    _cleanups.clear()


def on_cleanup(fn):
    _cleanups.append(fn)


def cleanup(sim):
    while _cleanups:
        _cleanups.pop()()


def in_repo(filename):
    return filename.startswith(REPO + "/mizarlabs/")
