#!/usr/bin/env python3-vt
"""Creates seeded/<id>/ from edits; demos compare values of the real code with the values of the unchanged tree."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

def patch(edits, rev="HEAD"):
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
    for f, old, new in edits:
        p = d + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d + "/r", "diff"]).decode()
    return d, diff

def write(id, prop, edits, needs, breaks, demo_sh, files=()):
    d, diff = patch(edits)
    out = V + "/seeded/" + id
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.sh", "w").write(demo_sh)
    os.chmod(out + "/demo.sh", 0o755)
    for n, c in files:
        open(out + "/" + n, "w").write(c)
    shutil.rmtree(d)
    return out

POINT_DEMO = '''"""Evaluates the compiled correlation-function code on analytic tables at fixed points."""
import ctypes, json, os, subprocess, sys, tempfile, shutil, glob
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import mock
d = tempfile.mkdtemp()
try:
    srcs = [s for s in sorted(glob.glob("/repo/src/*.c")) if not s.endswith("main.c")] + [H + "/shim.c"]
    lib = d + "/lib.so"
    subprocess.check_call(["gcc", "-std=gnu99", "-w", "-O1", "-fPIC", "-fopenmp", "-shared", "-I/repo/src", "-o", lib] + srcs +
                          ["-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"])
    job = json.load(open(H + "/points.json"))
    p = subprocess.run([sys.executable, H + "/mock.py"], input=json.dumps({"lib": lib, "seed": job["seed"], "points": job["points"]}).encode(),
                       stdout=subprocess.PIPE)
    out = [json.loads(l[7:]) for l in p.stdout.decode().splitlines() if l.startswith("RESULT ")]
    if not out:
        print("no result"); sys.exit(1)
    bad = [(g, w) for g, w in zip(out[0], job["expected"]) if not abs(g - w) <= 1e-6 * abs(w) + 1e-300]
    print("disagreements:", bad)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
'''
SH = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec python3-vt "$D/demo.py"\n'
PYSH = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=/opt/vp:/repo/_build/stage PYTHONDONTWRITEBYTECODE=1\nexec /opt/coffe-venv/bin/python "$D/demo.py"\n'

def points(id, prop, edits, pts, needs, breaks, seed=5):
    from replay import build as RB, corr as RC
    d = tempfile.mkdtemp(prefix="seed-")
    exp = RC.run_points(RB.build(d), seed, pts)
    shutil.rmtree(d)
    out = write(id, prop, edits, needs, breaks, SH, [("demo.py", POINT_DEMO), ("mock.py", open(V + "/replay/corr.py").read()),
        ("shim.c", open(V + "/replay/shim.c").read()), ("points.json", json.dumps({"seed": seed, "points": pts, "expected": exp}))])
    return out

def py(id, prop, edits, demo, needs, breaks, extra=()):
    return write(id, prop, edits, needs, breaks, PYSH, [("demo.py", demo)] + list(extra))
