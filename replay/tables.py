"""Replay of the table builders against their contract."""
import ctypes
import random
import numpy as np


def main(job):
    lib = ctypes.CDLL(job["lib"])
    dp = np.ctypeslib.ndpointer(dtype=np.float64)
    ip = np.ctypeslib.ndpointer(dtype=np.int32)
    lib.tb_coef.argtypes = [dp]
    lib.tb_run.restype = ctypes.c_long
    lib.tb_run.argtypes = [ctypes.c_int, ctypes.c_int, dp, dp, dp, ctypes.c_int, dp, ctypes.c_int, ip, ctypes.c_int, dp,
                           ctypes.c_int, ctypes.c_int, dp]
    rng = random.Random(job["seed"])
    K = np.array([[[rng.uniform(0.5, 2) for _ in range(6)] for _ in range(3)] for _ in range(3)])
    lib.tb_coef(np.ascontiguousarray(K).ravel())
    n, bad = 0, []
    for rep in range(300):
        nz, nm, nl, ns = [rng.choice((1, 2, 3, 4, 5)) for _ in range(4)]
        nz = rng.choice((nz, 7, 33)) if rep % 20 == 0 else nz
        arr = lambda m: np.array([rng.uniform(0.1, 3) for _ in range(m)])
        z, zmin, zmax, mu, sep = arr(nz), arr(nz), arr(nz), arr(nm), arr(ns)
        l = np.array(rng.sample(range(0, 11), nl), dtype=np.int32)
        for which in (0, 1, 2):
            m2 = nm if which == 0 else nl
            tot = nz * m2 * ns
            out = np.zeros(5 * (tot + 8))
            thr = rng.choice((1, 2, 4, 8))
            got = lib.tb_run(which, nz, z, zmin, zmax, nm, mu, nl, l, ns, sep, thr, rng.choice((1, 1, 2, 3)), out)
            n += 1
            if got != tot:
                bad.append(dict(table=which, lengths=[nz, m2, ns], size=got, expected=tot))
                continue
            out = out[:5 * tot].reshape(nz, m2, ns, 5)
            for i in range(nz):
                for j in range(m2):
                    for k in range(ns):
                        s = sep[k]
                        if which == 0:
                            co = (z[i], 0, mu[j], s)
                            v = sum(c[0] + c[1] * z[i] + c[2] * s * mu[j] + c[3] * mu[j] ** 2 * z[i] + c[4] * s * s for c in K[:, 0])
                        elif which == 1:
                            co = (z[i], 0, l[j], s)
                            v = sum(c[0] + c[1] * z[i] + c[2] * s * l[j] + c[3] * l[j] ** 2 * z[i] + c[4] * s * s for c in K[:, 1])
                        else:
                            co = (zmin[i], zmax[i], l[j], s)
                            v = sum(c[0] + c[1] * zmin[i] + c[5] * zmax[i] * zmin[i] + c[2] * s * l[j] + c[3] * l[j] ** 2 * zmax[i] + c[4] * s * s
                                    for c in K[:, 2])
                        g = out[i, j, k]
                        if not (all(abs(a - b) < 1e-12 for a, b in zip(g[:4], co)) and abs(g[4] - v) <= 1e-9 * (1 + abs(v))):
                            bad.append(dict(table=("corrfunc", "multipoles", "average_multipoles")[which], lengths=[nz, m2, ns],
                                            cell=[i, j, k], threads=thr, coords=list(g[:4]), expected_coords=[float(x) for x in co],
                                            value=g[4], expected_value=float(v)))
                            if len(bad) > 5:
                                return n, bad
    return n, bad
