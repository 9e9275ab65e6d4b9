"""Replay of coffe_covariance_init against a direct evaluation of the covariance."""
import ctypes
import random
import numpy as np
from numpy.polynomial import legendre as npl
from scipy.special import spherical_jn


def legint(*ls):
    x, w = npl.leggauss(24)
    p = np.ones_like(x)
    for l in ls:
        c = np.zeros(l + 1)
        c[l] = 1
        p = p * npl.legval(x, c)
    return float((w * p).sum())


def main(job):
    lib = ctypes.CDLL(job["lib"])
    dp = np.ctypeslib.ndpointer(dtype=np.float64)
    ip = np.ctypeslib.ndpointer(dtype=np.int32)
    lib.cv_rule.argtypes = [dp, dp, dp]
    lib.cv_tab.argtypes = [ctypes.c_int, dp, dp, ctypes.c_int, ctypes.c_int]
    lib.cv_interp.restype = ctypes.c_double
    lib.cv_interp.argtypes = [ctypes.c_int, ctypes.c_double]
    lib.cv_run.restype = ctypes.c_long
    lib.cv_run.argtypes = [ip] + [dp] * 9 + [ip, dp, dp]
    rng = random.Random(job["seed"])
    gx, gw = npl.leggauss(12)
    qx, qw = (gx + 1) / 2, gw / 2
    C = np.array([rng.uniform(0.5, 2) for _ in range(8)])
    lib.cv_rule(qx.copy(), qw.copy(), C)
    AK = 5
    k = np.exp(np.linspace(np.log(0.3), np.log(3), 1500))
    lib.cv_tab(0, k.copy(), 3 + np.sin(2 * k) / k, 1500, 5)
    lib.cv_tab(1, k.copy(), 2 + np.cos(2 * k) / k, 1500, 5)
    zz = np.linspace(0, 3, 400)
    fs = [1 + 0.3 * zz, 1.2 + 0.2 * zz ** 2, 1.5 - 0.1 * zz, 0.8 + 0.4 * zz, 0.5 + 0.1 * zz, 1 / (1 + zz) + 0.2, 2 * zz + 0.3 * zz ** 2 + 1, 0.5 + 0.2 * zz]
    for i, y in enumerate(fs):
        lib.cv_tab(2 + i, zz.copy(), y.copy(), 400, 5)
    V = np.vectorize(lambda i, x: lib.cv_interp(int(i), float(x)))
    n, bad = 0, []
    LI = {}

    def leg4(*a):
        if a not in LI:
            LI[a] = legint(*a)
        return LI[a]
    hx, hw = npl.leggauss(40)

    def W(l, kk, s, d):
        if d == 0:
            return spherical_jn(l, kk * s)
        a, b = s - d / 2, s + d / 2
        r = a + (b - a) * (hx + 1) / 2
        w = hw / 2 * (b - a)
        return np.array([(w * r * r * spherical_jn(l, q * r)).sum() for q in kk]) / ((b ** 3 - a ** 3) / 3)
    reps = 60
    for rep in range(reps):
        avg, fft, pk, win = [(rep >> b) & 1 for b in range(4)]
        nz, nl, ns = rng.choice((1, 2, 3)), rng.choice((1, 2, 3)), rng.choice((1, 2, 3, 4))
        arr = lambda m, a=0.3, b=2.0: np.array([rng.uniform(a, b) for _ in range(m)])
        z, dz = arr(nz, 0.5, 2), arr(nz, 0.05, 0.3)
        zmin = arr(nz, 0.2, 1)
        zmax = zmin + arr(nz, 0.2, 1)
        d1, d2, px, fsky = arr(nz), arr(nz), arr(nz, 0.3, 1), arr(nz)
        sep = np.array(sorted(rng.sample(list(np.arange(2.0, 9.0, 0.37)), ns)))
        l = np.array(rng.sample((0, 1, 2, 3, 4, 5, 6), nl), dtype=np.int32)
        on = lambda p=0.75: int(rng.random() < p)
        den, rsd = on(), on()
        one = rng.choice((None, 0, 1, 2))
        terms = [1, 1, 1] if one is None else [int(one == t) for t in range(3)]
        pops = [rng.choice((1, 2, 3, 4)) if on(0.3) else rng.choice((1, 2)) for _ in range(4)]
        bins = rng.choice((23, 24))
        f = np.array([avg, fft, pk, win, den, rsd] + terms + pops + [rng.choice((1, 2, 4)), on(0.5), bins, nz, nl, ns], dtype=np.int32)
        h, kmin, kmax, knmin, knmax = 0.7, 0.4, 2.5, 0.35, 2.8
        L = nl
        tot = nz * L * ns * L * ns
        out = np.zeros(7 * tot)
        got = lib.cv_run(f, np.array([h, kmin, kmax, knmin, knmax]), z, zmin, zmax, dz, d1, d2, px, fsky, l, sep, out)
        n += 1
        desc = dict(averages=avg, fftlog=fft, pk_type=pk, window=win, density=den, rsd=rsd, poisson_mixed_cosmic=terms, populations=pops,
                    lengths=[nz, L, ns], multipoles=[int(x) for x in l])
        if got != tot:
            bad.append(dict(desc, size=got, expected=tot))
            continue
        out = out.reshape(nz, L, ns, L, ns, 7)
        kq = kmin + (kmax - kmin) * qx
        Pk = V(0, kq)
        bins += bins % 2
        ki = knmin * (knmax / knmin) ** (np.arange(bins) / bins)
        Pn = V(1, ki)
        step = np.log(knmax / knmin) / bins
        for a in range(nz):
            if avg:
                zc = (zmin[a] + zmax[a]) / 2
                q = zmin[a] + (zmax[a] - zmin[a]) * qx
                vol = 4 * np.pi * fsky[a] / ((qw / V(9, q) / V(8, q) ** 2 / (1 + q)).sum() * (zmax[a] - zmin[a])) / (h / 2997.92458) ** 2
            else:
                zc = z[a]
                chi = [lib.cv_interp(8, zc + s * dz[a]) for s in (-1, 1)]
                vol = 4 * np.pi * fsky[a] * (chi[1] ** 3 - chi[0] ** 3) / 3
            b = [lib.cv_interp(2 + i, zc) * den for i in range(4)]
            g = lib.cv_interp(6, zc) * rsd
            D1 = 1 if pk else lib.cv_interp(7, zc)

            def al(x, y, c):
                p, q = b[pops[x] - 1], b[pops[y] - 1]
                return {0: p * q + (p + q) * g / 3 + g * g / 5, 2: 2 * (p + q) * g / 3 + 4 * g * g / 7, 4: 8 * g * g / 35}[c]
            dl = lambda x, y: float(pops[x] == pops[y])
            for i in range(L):
                for j in range(L):
                    li, lj = int(l[i]), int(l[j])
                    cosm = sum((al(0, 2, x) * al(1, 3, y) + al(0, 3, x) * al(1, 2, y)) * leg4(li, lj, x, y) for x in (0, 2, 4) for y in (0, 2, 4))
                    mixd = sum((al(0, 2, x) * dl(1, 3) / d2[a] + al(1, 3, x) * dl(0, 2) / d1[a] + al(0, 3, x) * dl(1, 2) / d2[a] +
                                al(1, 2, x) * dl(0, 3) / d1[a]) * leg4(li, lj, x, 0) for x in (0, 2, 4))
                    ph = (-1) ** int((lj - li) / 2)
                    ll = (2 * li + 1) * (2 * lj + 1)
                    for s in range(ns):
                        for t in range(ns):
                            v = 0
                            if terms[0] and li == lj and s == t:
                                w = 1 / (((sep[s] + px[a] / 2) ** 3 - (sep[s] - px[a] / 2) ** 3) / 3) if win else 1 / (sep[s] ** 2 * px[a])
                                v += (2 * li + 1) / (4 * np.pi) * (dl(0, 2) * dl(1, 3) + (-1) ** lj * dl(0, 3) * dl(1, 2)) * w / d1[a] / d2[a] / vol
                            for p in (1, 2):
                                if not terms[p]:
                                    continue
                                if fft:
                                    T = ((np.arange(bins) + 1) * Pn ** p / step).sum() / bins
                                    x, y, lx, ly = (sep[s], sep[t], li, lj)
                                    I = T * (C[0] + C[1] * (1 + lx) * x + C[1] * (1 + ly) * y + C[2] * (1 + lx * ly) * x * y)
                                else:
                                    dd = px[a] if win else 0
                                    I = (kmax - kmin) * (qw * kq ** 2 * Pk ** p * W(li, kq, sep[s], dd) * W(lj, kq, sep[t], dd)).sum()
                                I *= 2 / np.pi
                                if p == 1:
                                    v += ph * (-1) ** (li + lj) * D1 ** 2 * ll * I * mixd / (8 * np.pi) / vol
                                else:
                                    v += ph * D1 ** 4 * ll * I * cosm / (8 * np.pi) / vol
                            o = out[a, i, s, j, t]
                            co = ((zmin[a], zmax[a]) if avg else (zc, 0)) + (li, lj, sep[s], sep[t])
                            if not (all(abs(x - y) < 1e-12 for x, y in zip(o[:6], co)) and abs(o[6] - v) <= 1e-5 * abs(v) + 1e-9 * abs(out[..., 6]).max()):
                                bad.append(dict(desc, cell=[a, i, s, j, t], coords=[float(x) for x in o[:6]], expected_coords=[float(x) for x in co],
                                                value=float(o[6]), expected_value=float(v)))
                                if len(bad) > 4:
                                    return n, bad
    return n, bad
