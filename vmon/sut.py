"""Import the code under test from /repo's working tree, monitors installed."""
import os
import sys

from . import capture

capture.install()
REPO = os.environ.get("VMON_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import mpopt  # noqa: E402
from mpopt import mp  # noqa: E402

assert os.path.realpath(mp.__file__).startswith(os.path.realpath(REPO)), mp.__file__
CAP = capture.CAP


def reset(tau=(-1, 1), dmat="symbolic"):
    """Put the module level configuration of the library in a known state"""
    mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = tau
    mp.Collocation.D_MATRIX_METHOD = dmat
    CAP.reset()
