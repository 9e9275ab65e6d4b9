"""Replay of the projection layer: the real coffe_integrate over stand-in integrands and a
deterministic quadrature, against the closed form of the contract."""
import ctypes
import json
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
WRAP = ["functions_nonintegrated", "functions_single_integrated", "functions_double_integrated",
        "functions_flatsky_lensing_lensing_multipoles", "functions_flatsky_density_lensing_multipoles",
        "coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential", "coffe_integrate_1d",
        "coffe_integrate_multidimensional"]
FLAGS = ["den", "rsd", "d1", "d2", "g1", "g2", "g3", "len", "g4", "g5"]
LOCAL, INTEG = FLAGS[:7], FLAGS[7:]
KIND = ("local", "single", "double")
OUT = ("CORRFUNC", "MULTIPOLES", "AVERAGE_MULTIPOLES")


def worker():
    from replay.corr import Model, fill
    job = json.load(sys.stdin)
    lib = ctypes.CDLL(job["lib"])
    import numpy as np
    lib.sh_new.restype = ctypes.c_void_p
    lib.sg_integrate.restype = ctypes.c_double
    lib.sg_integrate.argtypes = [ctypes.c_void_p] + [ctypes.c_double] * 5 + [ctypes.c_int] * 4
    sh = lib.sh_new()
    m = Model(job["seed"])
    fill(lib, sh, m)
    rng = random.Random(job["seed"])
    C = np.array([[rng.uniform(0.5, 2) * rng.choice((-1, 1)) for _ in range(8)] for _ in range(6)])
    dp = np.ctypeslib.ndpointer(dtype=np.float64)
    lib.sg_coef.argtypes = [dp]
    lib.sg_coef(np.ascontiguousarray(C).ravel())
    gx, gw = np.polynomial.legendre.leggauss(8)
    gx, gw = (gx + 1) / 2, gw / 2
    lib.sg_rule.argtypes = [ctypes.c_int, dp, dp]
    lib.sg_rule(8, gx.copy(), gw.copy())

    def poly(k, z, mu, r, x1=0., x2=0.):
        c = C[k]
        return (c[0] + c[1] * mu + c[2] * mu ** 3 + c[3] * z + c[4] * r) * (1 + c[5] * x1 + c[6] * x2 ** 2) + c[7] * m.dbl["h"] * x1 * mu * mu

    def P(l, mu):
        return np.polynomial.legendre.Legendre.basis(l)(mu)

    def grid(n):
        g = np.meshgrid(*([gx] * n), indexing="ij")
        w = np.meshgrid(*([gw] * n), indexing="ij")
        W = 1.
        for a in w:
            W = W * a
        return g, W
    grids = dict((n, grid(n)) for n in (1, 2, 3, 4))
    cache = {}

    def H(z):
        return m.table("bg.conformal_Hz", z)

    def full(k, out, l, z, zmin, zmax, sep, mu):
        key = (k, out, l, z, zmin, zmax, sep, mu)
        if key in cache:
            return cache[key]
        if out == 0:
            if k == 0:
                v = poly(0, z, mu, sep)
            else:
                g, W = grids[k]
                v = float(np.sum(W * poly(k, z, mu, sep, *g)))
        elif out == 1:
            g, W = grids[1 + k]
            u = 2 * g[0] - 1
            v = (2 * l + 1) * float(np.sum(W * poly(k, z, u, sep, *g[1:]) * P(l, u)))
        else:
            g, W = grids[2 + k]
            z1 = (m.slope * zmin + sep / 2) / m.slope
            z2 = (m.slope * zmax - sep / 2) / m.slope
            zz = z1 + (z2 - z1) * g[0]
            u = 2 * g[1] - 1
            h0 = m.dbl["h"] / 2997.92458
            v = (2 * l + 1) * float(np.sum(W * poly(k, zz, u, sep, *g[2:]) * P(l, u) * h0 / H(zz) / (1 + zz)))
        cache[key] = v
        return v

    def spec(k, out, l, fl, fs_ln, fs_nl, cross, args):
        F = lambda *n: any(x in fl for x in n)
        loc, integ = F(*LOCAL), F(*INTEG)
        gate = (loc, loc and integ, integ)[k]
        if not gate:
            return 0.
        if out != 1 or k == 0:
            return full(k, out, l, *args)
        z, zmin, zmax, sep, mu = args
        v = 0.
        if k == 1:
            if F("den") and F("len") and fs_ln:
                v += 2 * np.pi ** 2 * poly(4, z, 0.1 * l, sep)
            if (F("g4", "g5") and loc) or (F("len") and F("d2", "g1", "g2", "g3")) or (F("den", "rsd", "d1") and F("len") and not fs_ln):
                v += full(k, out, l, *args)
        else:
            if F("len") and fs_nl and not cross and l % 2 == 0:
                v += 2 * np.pi ** 2 * float(np.sum(gw * poly(3, z, 0.1 * l, sep, gx)))
            if F("g4", "g5") or (F("len") and not fs_nl):
                v += full(k, out, l, *args)
        return v
    bad, n = [], 0
    geo = [(rng.uniform(0.8, 1.2), rng.uniform(0.4, 0.7), rng.uniform(1.3, 1.8), rng.uniform(0.5, 4), rng.uniform(-1, 1)) for _ in range(3)]
    for k in job["kinds"]:
        for out in job["outs"]:
            for mask in range(1024):
                fl = [f for i, f in enumerate(FLAGS) if mask >> i & 1]
                for rep in range(2 if out == 1 else 1):
                    if k == 2 and out == 2 and mask % 8 != 3:
                        continue
                    fs_ln, fs_nl, cross, one = [rng.randrange(2) for _ in range(4)]
                    l = rng.choice((0, 0, 1, 2, 3, 4, 5))
                    if k == 2 and out == 2:
                        l = rng.choice((0, 1, 2))
                    g = rng.choice(geo)
                    for f in FLAGS:
                        lib.sh_i(sh, ("correlation_contrib." + f).encode(), int(f in fl))
                    for nme, v in (("flatsky_local_nonlocal", fs_ln), ("flatsky_nonlocal", fs_nl), ("only_cross_correlations", cross)):
                        lib.sh_i(sh, nme.encode(), v)
                    got = lib.sg_integrate(sh, g[0], g[1], g[2], g[3], g[4], l, k, out, one)
                    want = spec(k, out, l, fl, fs_ln, fs_nl, cross, g)
                    n += 1
                    if not abs(got - want) <= 1e-6 * (1 + abs(want)):
                        bad.append(dict(kind=KIND[k], output=OUT[out], l=l, effects=fl, flatsky_local_nonlocal=fs_ln, flatsky_nonlocal=fs_nl,
                                        only_cross_correlations=cross, z_mean=g[0], z_min=g[1], z_max=g[2], separation=g[3], mu=g[4],
                                        got=got, expected=want))
                        if len(bad) > 5:
                            print("RESULT " + json.dumps([n, bad]))
                            return
    print("RESULT " + json.dumps([n, bad]))


def run(lib, seed, kinds, outs, timeout=400):
    p = subprocess.run([sys.executable, os.path.abspath(__file__)],
                       input=json.dumps({"lib": lib, "seed": seed, "kinds": kinds, "outs": outs}).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    for l in p.stdout.decode(errors="replace").splitlines():
        if l.startswith("RESULT "):
            return json.loads(l[7:])
    raise RuntimeError("the harness ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-600:]))


if __name__ == "__main__":
    worker()
