"""Replay of coffe_integrals_init against independent sums and Bessel functions."""
import ctypes
import random
import numpy as np
from scipy.special import jv, gamma

LINEAR = [(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)]


def main(job):
    lib = ctypes.CDLL(job["lib"])
    D, I = ctypes.c_double, ctypes.c_int
    dp, ip = np.ctypeslib.ndpointer(dtype=np.float64), np.ctypeslib.ndpointer(dtype=np.int32)
    lib.in_run.argtypes = [dp, dp, I, dp, dp, I, D, D, ip, dp, dp, ip]
    lib.in_key.argtypes = [I, ip]
    lib.in_get.argtypes = [I, I, ctypes.c_void_p, ctypes.c_void_p]
    lib.in_ren.restype = lib.in_chi.restype = D
    lib.in_ren.argtypes, lib.in_chi.argtypes = [I, D, D], [D]
    lib.in_pk.argtypes = [dp, dp, I]
    lib.in_nodes.argtypes = [D, D, dp, dp]
    lib.in_twofast.argtypes = [dp, dp, I, dp, dp, I, D, D, D, D, D]
    rng = random.Random(job["seed"])
    n, bad = 0, []
    q, w = np.zeros(6400), np.zeros(6400)
    for fl, fn, dv, out in job["runs"]:
        kmin, kmax = 1e-4, 10.0
        k = np.geomspace(kmin, kmax, 400)
        pk = 1e4 * k / (1 + (k / rng.uniform(.015, .03)) ** 2) ** 1.3 * np.exp(-(k / rng.uniform(.2, .4)) ** 2)
        cz = np.linspace(0, 5, 50)
        chi = rng.uniform(2000, 4000) * cz / (1 + .3 * cz)
        nz = rng.choice((1, 3))
        z = np.array([rng.uniform(.3, 2) for _ in range(nz)])
        dz = np.array([rng.uniform(.01, .3) for _ in range(nz)])
        mult = np.array(rng.choice(([0, 2, 4], [2, 0], [4], [0])), dtype=np.int32)
        N, interp, cov = rng.choice((300, 512)), rng.choice((2, 5)), rng.choice((1, 2))
        ints = np.array([N, interp, dv, fl, fn, out, nz, len(mult), cov, rng.choice((1, 8))], dtype=np.int32)
        size = lib.in_run(k, pk, len(k), cz, chi, len(cz), kmin, kmax, ints, z, dz, mult)
        desc = dict(flatsky_local_nonlocal=fl, flatsky_nonlocal=fn, divergent=dv, output=out, multipoles=mult.tolist(), bins=N)

        def fail(**kw):
            bad.append(dict(desc, **kw))
        q, w = np.zeros(6400), np.zeros(6400)
        lib.in_nodes(kmin, kmax, q, w)
        P = np.zeros(6400)
        lib.in_pk(q, P, 6400)
        w = w * P / (2 * np.pi ** 2)
        need = [(a, b, 0, 0) for a, b in LINEAR] + ([(4, 0, 0, 0)] if dv else []) + ([(1, -1, 1, 1)] if fl or fn else [])
        if out == 2:
            need += [(1, int(l), 0, 0) for l in mult] * fn + [(int(l) - 2 * i + 3, int(l) - 2 * i + 1, 1, 1) for l in mult for i in range(l // 2 + 1)] * fl
        for key in need:
            n += 1
            if lib.in_find(*key) < 0:
                fail(key=key, what="there is no such table")
        if lib.in_find(17, 0, 0, 0) != -1 or lib.in_find(2, 0, 1, 0) != -1 or lib.in_find(2, 0, 0, 1) != -1 or lib.in_find(2, 7, 0, 0) != -1:
            fail(what="a table is found that was never built")
        for j in range(size):
            key = np.zeros(4, dtype=np.int32)
            first = lib.in_key(j, key)
            a, b, sa, sb = map(int, key)
            if not 0 <= first <= j:
                fail(key=(a, b, sa, sb), what="lookup of a table that was built")
                continue
            on, ol = a / (2. if sa else 1), b / (2. if sb else 1)
            m = lib.in_get(j, 0, None, None)
            x, y = np.zeros(m), np.zeros(m)
            lib.in_get(j, 0, x.ctypes.data, y.ctypes.data)
            n += m
            if m < 2 or not (np.diff(x) > 0).all():
                fail(key=(a, b, sa, sb), what="separations do not increase")
                continue
            scale = (np.sqrt(2 / np.pi) * 2 * np.pi ** 2) if (a, b, sa, sb) == (1, -1, 1, 1) else 1.

            def ref(r):
                t = q * r
                with np.errstate(all="ignore"):
                    g = np.sqrt(np.pi / 2) * jv(ol + .5, t) / t ** (on + .5)
                    return scale * np.sum(w * q ** 2 * g) * (r ** (on - ol) if on > ol else 1)
            zero = 0. if on < ol else scale * np.sum(w * q ** (2 + ol - on)) * np.sqrt(np.pi / 2) / 2 ** (ol + .5) / gamma(ol + 1.5)
            pts = [i for i in range(m) if 0 < x[i] < 1] + ([i for i in range(m) if 1 <= x[i] <= 1000] if (a, b) == (4, 0) else [])
            for i in pts:
                e = ref(x[i])
                # the integral of a high order at a tiny separation is lost in rounding, whichever way it is computed
                floor = 0 if on >= ol else 1e-12 * np.sum(w * q ** 2)
                if not abs(y[i] - e) <= 1e-6 * abs(e) + floor:
                    fail(key=(a, b, sa, sb), r=float(x[i]), got=float(y[i]), expected=float(e))
                    break
            if (a, b) != (4, 0):
                if x[0] != 0 or not abs(y[0] - zero) <= 1e-6 * abs(zero):
                    fail(key=(a, b, sa, sb), r=float(x[0]), got=float(y[0]), expected=float(zero))
                big = [i for i in range(m) if 20 <= x[i] <= 300]
                big = big[::max(1, len(big) // 25)]
                e = np.array([ref(x[i]) for i in big])
                g = y[big]
                err = ~(np.abs(g - e) <= 5e-3 * np.abs(e).max())
                if len(big) < 4 or err.any():
                    i = int(np.argmax(err)) if len(big) else 0
                    fail(key=(a, b, sa, sb), r=float(x[big[i]]), got=float(g[i]), expected=float(e[i]))
                continue
            m0 = lib.in_get(j, 1, None, None)
            x, y = np.zeros(max(m0, 1)), np.zeros(max(m0, 1))
            lib.in_get(j, 1, x.ctypes.data, y.ctypes.data)
            for i in range(m0):
                if x[i] > 1000:
                    break
                t = q * x[i]
                e = np.sum(w * (1 - np.sinc(t / np.pi) ** 2) / q ** 2)
                if not abs(y[i] - e) <= 1e-6 * abs(e) + 1e-9:
                    fail(key="(4, 0) renormalised, zero separation", comoving_distance=float(x[i]), got=float(y[i]), expected=float(e))
                    break
            if m0 < 4:
                fail(key="(4, 0) renormalised, zero separation", what="missing")
            top = lib.in_chi(max(z) if out == 3 else max(z + dz))
            for rep in range(40):
                i1, i2 = rng.randrange(201), rng.randrange(201)
                a_, b_ = top * i1 / 200, top * i2 / 200
                e = np.sum(w * np.sinc(q * a_ / np.pi) * np.sinc(q * b_ / np.pi) / q ** 2)
                tot = np.sum(w / q ** 2)
                g = lib.in_ren(j, min(a_, top * (1 - 1e-13)), min(b_, top * (1 - 1e-13)))
                n += 1
                if not abs(g - e) <= 1e-6 * tot:
                    fail(key="renormalisation of (4, 0)", chi1=a_, chi2=b_, got=g, expected=float(e))
                    break
        if lib.in_free():
            fail(what="the tables are still there after coffe_integrals_free")
        if len(bad) > 4:
            break
    for rep in range(job.get("transforms", 0)):
        # the contract assumed of the transform
        kmin, kmax, N = 1e-4, 10., rng.choice((256, 512, 700))
        k = np.geomspace(kmin, kmax, 500)
        pk = k / (1 + (k / .02) ** 2) ** 1.3 * np.exp(-(k / rng.uniform(.2, .4)) ** 2)
        l, nu = rng.choice([(b, a) for a, b in LINEAR] + [(-.5, .5), (.5, 1.5), (1.5, 2.5), (2.5, 3.5)])
        ox, oy = np.zeros(N), np.zeros(N)
        lib.in_twofast(ox, oy, N, k, pk, len(k), l, nu, 1., kmin, kmax)
        if not np.allclose(ox, (kmax / kmin) ** (np.arange(N) / N), rtol=1e-9):
            bad.append(dict(what="the transform's separations", l=l, nu=nu, N=N))
        lib.in_nodes(kmin, kmax, q, w)
        P = np.exp(np.interp(np.log(q), np.log(k), np.log(np.maximum(pk, 1e-200))))
        big = [i for i in range(N) if 20 <= ox[i] <= 300]
        e = np.array([np.sum(w * P * q ** 2 * np.sqrt(np.pi / 2) * jv(l + .5, q * ox[i]) / (q * ox[i]) ** (nu + .5)) / 2 / np.pi ** 2 for i in big])
        n += len(big)
        err = ~(np.abs(oy[big] - e) <= 5e-3 * np.abs(e).max())
        if err.any():
            i = int(np.argmax(err))
            bad.append(dict(what="the transform", l=l, nu=nu, N=N, r=float(ox[big[i]]), got=float(oy[big[i]]), expected=float(e[i])))
    return n, bad
