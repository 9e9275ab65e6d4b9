"""Replays on the rebuilt Python module."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from .build import BuildError, HERE
from . import pybuild


def drive(what, scratch, timeout=600, workers=8):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        try:
            pkg = pybuild.build(d, what in ("settings", "budget", "outputs"))
        except subprocess.CalledProcessError:
            # a field of the probe may have another name now
            shutil.rmtree(os.path.join(d, "pkg"), ignore_errors=True)
            pkg = pybuild.build(d)
    except subprocess.CalledProcessError as e:
        raise BuildError(str(e))
    env = dict(os.environ, OMP_NUM_THREADS="1")
    ps = []
    for i in range(workers):
        out = open(os.path.join(d, "out%d" % i), "w+")
        ps.append((subprocess.Popen([pybuild.VENV + "python", os.path.join(HERE, "pydrv.py"), pkg, what, str(i), str(workers)],
                                    stdout=out, stderr=subprocess.STDOUT, env=env, cwd=d), out))
    n, bad = 0, []
    end = time.time() + timeout
    for p, out in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            bad.append("no answer within %d s" % timeout)
        out.seek(0)
        for l in out:
            if l.startswith("R "):
                r = json.loads(l[2:])
                n += r.get("n", 0)
                if "bad" in r:
                    bad.append(r["bad"])
        if p.returncode:
            out.seek(0)
            bad.append("driver: " + out.read()[-400:])
    return n, bad


def fresh(c, scratch):
    return drive("fresh", scratch)


def threads(c, scratch, limit=600):
    """every output, bit for bit, with one and with several threads, in either order of computation"""
    t0 = time.time()
    d = tempfile.mkdtemp(dir=scratch)
    try:
        pkg = pybuild.build(d)
    except subprocess.CalledProcessError as e:
        raise BuildError(str(e))

    def go(nthreads, workers, *more):
        ps = []
        for i in range(workers):
            out = open(os.path.join(d, "o%d" % i), "w+")
            ps.append((subprocess.Popen([pybuild.VENV + "python", os.path.join(HERE, "pydrv.py"), pkg, "threads", str(i), str(workers)] + list(more),
                                        stdout=out, stderr=subprocess.STDOUT, cwd=d, env=dict(os.environ, OMP_NUM_THREADS=str(nthreads), OMP_DYNAMIC="false")), out))
        res = {}
        for p, out in ps:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                late.append(1)
            out.seek(0)
            t = out.read()
            for l in t.splitlines():
                if l.startswith("R "):
                    r = json.loads(l[2:])
                    res[r["s"]] = r.get("r", r.get("bad"))
                    res.setdefault("n", 0)
                    res["n"] += r.get("n", 0)
            if p.returncode and not late:
                res["crash %d" % p.returncode] = t[-300:]
        return res
    late = []
    one = go(1, 4)
    bad, n = [], one.get("n", 0)
    for k in (8, 8, 3, 8):
        r = go(k, 1, *(["reversed"] if k != 8 or bad else []))
        n += r.get("n", 0)
        for s in sorted(set(r) if late else set(one) | set(r)):
            if s != "n" and one.get(s) != r.get(s):
                bad.append({"scenario": s, "threads": k, "difference": first(one.get(s), r.get(s))})
        if bad or late:
            break
    return n, bad


def first(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for o in a:
            if a[o] != b.get(o):
                if isinstance(a[o], list) and isinstance(b.get(o), list):
                    for x, y in zip(a[o], b[o]):
                        if x != y:
                            f = lambda v: [float.fromhex(i) for i in v]
                            return {"output": o, "one thread": f(x), "several": f(y)}
                return {"output": o, "one thread": str(a[o])[:200], "several": str(b.get(o))[:200]}
    return {"one thread": str(a)[:200], "several": str(b)[:200]}
