"""Compiles the current /repo/src into a shared library together with a shim."""
import glob
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SKIP = ("main.c",)
CF = ["-std=gnu99", "-w", "-O1", "-g0", "-fPIC", "-fopenmp", "-I" + os.path.join(REPO, "src")]
LIBS = ["-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(p.stdout.decode(errors="replace")[:1500])


def build(outdir, shims=("shim.c",), defines=(), name="libshim.so", skip=SKIP, wrap=(), flags=()):
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) if os.path.basename(s) not in skip]
    srcs += [os.path.join(HERE, s) for s in shims]
    objs = []

    def one(s):
        o = os.path.join(outdir, os.path.basename(s)[:-2] + ".o")
        run(["gcc"] + CF + list(flags) + ["-D" + d for d in defines] + ["-c", s, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    lib = os.path.join(outdir, name)
    run(["gcc", "-shared", "-fopenmp", "-o", lib] + list(flags) + ["-Wl,--wrap=" + w for w in wrap] + objs + LIBS)
    return lib


if __name__ == "__main__":
    d = tempfile.mkdtemp()
    print(build(d))
