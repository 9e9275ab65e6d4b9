#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property on the current /repo."""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)

WHERE = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from checks import REGISTRY, HELPERS
    mod, fn = REGISTRY[a.prop]
    scratch = tempfile.mkdtemp(prefix="vp-")
    rc = [3]

    def go():
        c = None
        try:
            from dv.report import Check
            m = importlib.import_module("checks." + mod)
            c = Check(a.prop, a.tier, "")
            c.replay = None
            try:
                getattr(m, fn)(c, scratch)
            except Exception as e:
                # the verifier itself failed: its obligations stay open and the bounded stand-in decides
                if c.replay is None or c.violations:
                    raise
                import traceback
                traceback.print_exc()
                from checks.common import fallback
                why = "%s: %s" % (type(e).__name__, str(e)[:300])
                c.open("(verifier)", why)
                fallback(c, [("(verifier)", why)], *c.replay)
            if a.prop in HELPERS:
                from checks.toolbox import helpers
                helpers(c, scratch, HELPERS[a.prop])
            rc[0] = c.finish()
        except BaseException:
            import traceback
            traceback.print_exc()
            if c is not None and c.violations:
                rc[0] = c.finish()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc[0])


main()
