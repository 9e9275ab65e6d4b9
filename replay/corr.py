"""Replays correlation-function obligations on the real code: functions.c is compiled from
/repo/src, its tables are filled with smooth functions that satisfy the Bessel recurrences, and
its value is compared with the numeric value of the specification term."""
import ctypes
import json
import math
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

FLAGS = ["den", "rsd", "d1", "d2", "g1", "g2", "g3", "len", "g4", "g5"]
INTS = ["output_type", "b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative",
        "only_cross_correlations", "flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal", "divergent",
        "pk_type", "midpoint_approximation"]
CHI_MAX = 40.0
N1 = 801


class Model(object):
    """mock tables; every function is smooth and positive where it is divided by"""

    def __init__(self, seed):
        r = random.Random(seed)
        u = lambda a, b: r.uniform(a, b)
        self.dbl = {"h": u(0.5, 0.9) * 2997.92458 * 0.3, "Omega0_cdm": u(0.2, 0.3), "Omega0_baryon": u(0.03, 0.07)}
        # comoving distance is linear so that it is exact; z = chi/10
        self.slope = 10.0
        self.z = {}
        for n in ("bg.a", "bg.Hz", "bg.conformal_Hz", "bg.conformal_Hz_prime", "bg.D1", "bg.f", "bg.G1", "bg.G2",
                  "par.galaxy_bias1", "par.galaxy_bias2", "par.galaxy_bias3", "par.galaxy_bias4", "par.magnification_bias1",
                  "par.magnification_bias2", "par.evolution_bias1", "par.evolution_bias2"):
            self.z[n] = (u(0.4, 1.5), u(-0.08, 0.08) + 0.11, u(-0.01, 0.01))
        if isinstance(seed, int) and seed < 0:
            self.z["par.galaxy_bias2"] = self.z["par.galaxy_bias1"]
        self.b = dict(((n, l), (u(0.5, 2), u(-0.02, 0.02), u(-0.0004, 0.0004)))
                      for (n, l) in ((0, 0), (0, 2), (0, 4), (2, 0), (4, 0)))
        self.rest = {}
        self.seed = seed
        self.rr = (u(0.5, 1.5), u(0.01, 0.03), u(-0.01, 0.01))

    def table(self, name, x):
        if name == "bg.comoving_distance":
            return self.slope * x
        if name == "bg.z_as_chi":
            return x / self.slope
        a, b, c = self.z[name]
        return a + b * x + c * x * x

    def V(self, n, l, r):
        if (n, l) in self.b:
            a, b, c = self.b[(n, l)]
            v = a + b * r + c * r * r
            return v * (r / 10.) ** 2 if l else v
        if (n, l) == (1, 1):
            return (self.V(0, 0, r) + self.V(0, 2, r)) / 3
        if (n, l) == (1, 3):
            return (self.V(0, 2, r) + self.V(0, 4, r)) / 7
        if (n, l) == (2, 2):
            return (self.V(1, 1, r) + self.V(1, 3, r)) / 5
        if (n, l) == (3, 1):
            return (self.V(2, 0, r) + r * r * self.V(2, 2, r)) / 3
        return self.other(n, l, 0, 0, r)

    def other(self, n, l, sn, sl, r):
        k = (n, l, sn, sl)
        if k not in self.rest:
            q = random.Random(repr((self.seed, k)))
            self.rest[k] = (q.uniform(0.5, 2), q.uniform(-0.02, 0.02), q.uniform(-0.0004, 0.0004))
        a, b, c = self.rest[k]
        return a + b * r + c * r * r

    def ren(self, x, y):
        a, b, c = self.rr
        return a + b * (x + y) + c * (x + y) ** 2 / 40. + 0.001 * x * y

    def ren0(self, x):
        return 1.3 + 0.04 * x - 0.0007 * x * x


ENTRIES = [(n, l, 0, 0) for (n, l) in ((0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1), (4, 0), (1, 0),
                                       (1, 2), (1, 4), (1, 6), (1, 8))] + \
          [(1, -1, 1, 1)] + [(l - 2 * k + 3, l - 2 * k + 1, 1, 1) for l in (0, 2, 4, 6, 8) for k in range(l // 2 + 1)]


def fill(lib, sh, m):
    import numpy as np
    dp = np.ctypeslib.ndpointer(dtype=np.float64)
    lib.sh_table.argtypes = [ctypes.c_void_p, ctypes.c_char_p, dp, dp, ctypes.c_size_t]
    lib.sh_integral.argtypes = [ctypes.c_void_p] + [ctypes.c_int] * 4 + [dp, dp, ctypes.c_size_t]
    lib.sh_ren.argtypes = [ctypes.c_void_p, ctypes.c_int, dp, ctypes.c_size_t, dp, dp]
    lib.sh_d.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_double]
    lib.sh_i.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int]
    for k, v in m.dbl.items():
        assert lib.sh_d(sh, k.encode(), v) == 0, k
    z = np.linspace(0, CHI_MAX / m.slope, N1)
    for k in list(m.z) + ["bg.comoving_distance"]:
        assert lib.sh_table(sh, k.encode(), z, np.array([m.table(k, x) for x in z]), len(z)) == 0, k
    chi = np.linspace(0, CHI_MAX, N1)
    lib.sh_table(sh, b"bg.z_as_chi", chi, np.array([m.table("bg.z_as_chi", x) for x in chi]), len(chi))
    r = np.linspace(0, CHI_MAX, 4 * N1 - 3)
    seen = set()
    for (n, l, sn, sl) in ENTRIES:
        if (n, l, sn, sl) in seen:
            continue
        seen.add((n, l, sn, sl))
        f = (lambda x: m.V(n, l, x)) if sn == sl == 0 else (lambda x: m.other(n, l, sn, sl, x))
        e = lib.sh_integral(sh, n, l, sn, sl, r, np.array([f(x) for x in r]), len(r))
        if (n, l, sn, sl) == (4, 0, 0, 0):
            g = np.linspace(0, CHI_MAX, 161)
            zz = np.array([[m.ren(x, y) for x in g] for y in g])
            lib.sh_ren(sh, e, g, len(g), np.ascontiguousarray(zz).ravel(), np.array([m.ren0(x) for x in g]))


def worker():
    job = json.load(sys.stdin)
    lib = ctypes.CDLL(job["lib"])
    lib.sh_new.restype = ctypes.c_void_p
    sh = lib.sh_new()
    m = Model(job["seed"])
    fill(lib, sh, m)
    d = ctypes.c_double
    for n, k in (("sh_nonint", "ddd"), ("sh_single", "dddd"), ("sh_double", "ddddd"), ("sh_flat_ll", "ddid"), ("sh_flat_dl", "ddi")):
        f = getattr(lib, n)
        f.restype = d
        f.argtypes = [ctypes.c_void_p] + [d if c == "d" else ctypes.c_int for c in k]
    out = []
    for pt in job["points"]:
        for k in INTS:
            lib.sh_i(sh, k.encode(), pt["ints"].get(k, 1 if k == "divergent" else 0))
        for k in FLAGS:
            lib.sh_i(sh, ("correlation_contrib." + k).encode(), 1 if k in pt["flags"] else 0)
        out.append(getattr(lib, pt["entry"])(sh, *pt["args"]))
        if len(out) % 50 == 0:
            sys.stdout.flush()
    print("RESULT " + json.dumps(out))


class Died(RuntimeError):
    """the code under test crashed or exited"""


def run_points(lib, seed, points, timeout=120):
    """values of the real code at the points; raises RuntimeError when it dies"""
    p = subprocess.run([sys.executable, os.path.abspath(__file__)],
                       input=json.dumps({"lib": lib, "seed": seed, "points": points}).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    for l in p.stdout.decode(errors="replace").splitlines():
        if l.startswith("RESULT "):
            return json.loads(l[7:])
    if p.returncode < 0 or p.returncode == 1 and b"Traceback" not in p.stderr:
        raise Died("the code ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-600:]))
    raise RuntimeError("the harness ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-600:]))


# ---- the specification side ---------------------------------------------------------------

def spec_value(term, m, pt):
    sys.path.insert(0, os.path.dirname(HERE))
    from dv.evalt import Evaluator
    from specs.contracts import field_of

    def path(l):
        p = []
        while l.op == "fld":
            p.append(l.args[1])
            l = l.args[0]
        return l, list(reversed(p))

    def load(l):
        b, p = path(l)
        n = ".".join(p)
        if n.startswith("correlation_contrib."):
            return 1 if n.split(".")[1] in pt["flags"] else 0
        if n in INTS:
            return pt["ints"].get(n, 1 if n == "divergent" else 0)
        return m.dbl[n]

    def app(f, A, ev):
        if f == "interp":
            loc = A[0].args[0]
            b, p = path(loc)
            o, fl = field_of(A[0])
            x = ev(A[1])
            if o is not None and o.op == "app" and o.args[0] == "find_integral":
                n, l, s1, s2 = [int(ev(t)) for t in o.args[2:]]
                if fl == "renormalization_zero_separation":
                    return m.ren0(x)
                return m.V(n, l, x) if s1 == s2 == 0 else m.other(n, l, s1, s2, x)
            base = b
            while base.op in ("idx", "obj"):
                base = base.args[0]
            return m.table(base.args[0] + "." + p[-1], x)
        if f == "interp2d":
            return m.ren(ev(A[1]), ev(A[2]))
        raise KeyError(f)
    return Evaluator(pt["env"], app, load)(term)


if __name__ == "__main__":
    worker()
