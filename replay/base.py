"""Runs a replay function in a process of its own."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def run(module, job, timeout=600, env=None):
    """module: name of a module in this directory with a function main(job) -> (n, bad)"""
    code = ("import sys, json; sys.path.insert(0, %r); sys.path.insert(0, %r)\n"
            "import importlib; m = importlib.import_module('replay.%s')\n"
            "r = m.main(json.load(sys.stdin)); sys.stdout.flush(); print('RESULT ' + json.dumps(r, default=str))"
            % (HERE, os.path.dirname(HERE), module))
    try:
        p = subprocess.run([sys.executable, "-c", code], input=json.dumps(job).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise RuntimeError("the code under test did not return within %d s" % timeout)
    for l in p.stdout.decode(errors="replace").splitlines():
        if l.startswith("RESULT "):
            return json.loads(l[7:])
    raise RuntimeError("the harness ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-600:]))
