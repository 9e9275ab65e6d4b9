"""Cooperative time limit of the proving part of a check."""
import os
import time


class OutOfTime(ValueError):
    """the verifier gave up: the obligation stays open"""


T0 = time.time()
LIMIT = [float(os.environ.get("VERIF_PROOF_LIMIT", "480"))]
_n = [0]


def tick():
    _n[0] += 1
    if not _n[0] & 63 and time.time() - T0 > LIMIT[0]:
        raise OutOfTime("time limit of %d s" % LIMIT[0])


def expired():
    return time.time() - T0 > LIMIT[0]
