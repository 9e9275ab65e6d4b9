"""Shared pieces of the checks."""
import os
import time
from dv.limit import expired
from dv.nf import NFError, TooBig, Norm
from dv.sym import Unsupported
from dv.term import *
from replay.build import BuildError

NF = "nf (exact polynomial normal form)"
INV = "loop invariants + nf"
ERR = (Unsupported, NFError, KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError, AssertionError)


def forced(c):
    """the thorough tier replays the contracts on the compiled code although every obligation is discharged"""
    return c.tier != "quick" or bool(os.environ.get("VERIF_FORCE_REPLAY"))


def attempt(c, name, fn, backend=NF):
    """one obligation: fn returns None when it is discharged, otherwise the reason it is not"""
    t = time.time()
    try:
        why = fn() if not expired() else 'time limit'
    except ERR as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:300])
    if why is None:
        c.ok(name, backend, time.time() - t)
        return True
    c.open(name, why)
    return False


def fallback(c, opened, replay, what):
    """opened: list of (obligation name, reason).  replay(): (evaluations, list of failing inputs)"""
    if not opened and not forced(c):
        return
    names = [o if isinstance(o, str) else str(o[0]) for o in opened]
    try:
        n, bad = replay()
    except BuildError as e:
        print("  replay unavailable: %s" % str(e)[:300])
        for o in names:
            c.bound(o, "replay unavailable")
        return
    except RuntimeError as e:
        n, bad = 0, [{"crash": str(e)[:900]}]
    if bad:
        c.violation(names[0] if opened else "(forced replay)", {"open_obligations": opened, "failing_inputs": bad[:6]})
        return
    if not opened:
        c.agreed(what, n)
        print("  forced replay: %d evaluations agree" % n)
    for o in names:
        c.bound(o, "%s: %d evaluations" % (what, n))
