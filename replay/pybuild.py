"""Rebuilds the Python package from /repo's working tree into a scratch folder (the extension is linked with a
stand-in for the CLASS call)."""
import glob
import os
import shutil
import sys
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .build import CF, HERE, LIBS, REPO, run

VENV = "/opt/coffe-venv/bin/"


def probe():
    """a method that shows the C side of the settings, added to the copy that is built"""
    sys.path.insert(0, os.path.dirname(HERE))
    from specs import settings as S
    f = [v[0] for v in S.SCALAR.values()] + list(S.PRECISION.values()) + list(S.BOOL.values()) + [v[0] for v in S.ENUM.values()] + \
        list(S.POPULATIONS) + ["k_min_norm", "k_max_norm", "Omega0_de", "Omega0_nu", "interp_method"]
    t = "    def _vp_probe(self):\n        r = {}\n"
    for x in f:
        t += "        r[%r] = self._parameters.%s\n" % (x, x)
    for a, n, *_ in S.LIST.values():
        t += "        r[%r] = [self._parameters.%s[i] for i in range(self._parameters.%s)]\n" % (a, a, n)
    for _, names in S.ENUM.values():
        for k in names:
            t += "        r['=%s'] = ccoffe.%s\n" % (k, k)
    t += "        return r\n\n    def _vp_table(self):\n        r = {}\n"
    for n, (obj, fields) in TABLES.items():
        t += "        r[%r] = [(%s,) for i in range(self.%s.size)]\n" % (
            n, ", ".join("self.%s.array[i].%s" % (obj, f if f == "value" else "coords." + f) for f in fields + ("value",)), obj)
    return t + "        return r\n\n"


# the tables of the C side, entry by entry, in the order the elements list their coordinates
TABLES = {
    "corrfunc": ("_corrfunc", ("z_mean", "separation", "mu")),
    "multipoles": ("_multipoles", ("z_mean", "separation", "l")),
    "average_multipoles": ("_average_multipoles", ("z_min", "z_max", "separation", "l")),
    "covariance": ("_covariance_multipoles", ("z_mean", "separation1", "separation2", "l1", "l2")),
    "average_covariance": ("_average_covariance_multipoles", ("z_min", "z_max", "separation1", "separation2", "l1", "l2"))}


def build(outdir, withprobe=False):
    pkg = os.path.join(outdir, "pkg", "coffe")
    os.makedirs(pkg)
    for f in glob.glob(os.path.join(REPO, "python", "coffe", "*.py*")) + \
            glob.glob(os.path.join(REPO, "python", "coffe", "*.px*")):
        shutil.copy(f, pkg)
    pyx = os.path.join(pkg, "coffe.pyx")
    inc = subprocess.check_output([VENV + "python", "-c",
                                   "import sysconfig; print(sysconfig.get_paths()['include'], "
                                   "sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().split()
    csrc = os.path.join(outdir, "coffe.c")
    if withprobe:
        t = open(pyx).read()
        if t.count("    def __cinit__(") == 1:
            open(pyx, "w").write(t.replace("    def __cinit__(", probe() + "    def __cinit__("))

    def ext():
        run([VENV + "cython", "-3", pyx, "-o", csrc])
        o = os.path.join(outdir, "ext.o")
        run(["gcc", "-w", "-O0", "-g0", "-fPIC", "-fopenmp", "-I" + inc[0],
             "-I" + os.path.join(REPO, "src"), "-c", csrc, "-o", o])
        return o

    def one(s):
        o = os.path.join(outdir, "c_" + os.path.basename(s)[:-2] + ".o")
        run(["gcc"] + CF + ["-O2", "-c", s, "-o", o])
        return o
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) if os.path.basename(s) != "main.c"]
    with ThreadPoolExecutor(8) as ex:
        e = ex.submit(ext)
        objs = list(ex.map(one, srcs + [os.path.join(HERE, "shim_py.c")])) + [e.result()]
    run(["gcc", "-shared", "-fopenmp", "-o", os.path.join(pkg, "coffe" + inc[1])] + objs + LIBS)
    return os.path.dirname(pkg)
