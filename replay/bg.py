"""Replay of coffe_background_init against independent quadrature and integration of the growth equation."""
import ctypes
import random
import numpy as np
from scipy.integrate import quad, solve_ivp

NAMES = ("a", "Hz", "conformal_Hz", "conformal_Hz_prime", "D1", "f", "comoving_distance", "G1", "G2", "z_as_chi")


def main(job):
    lib = ctypes.CDLL(job["lib"])
    dp = np.ctypeslib.ndpointer(dtype=np.float64)
    ip = np.ctypeslib.ndpointer(dtype=np.int32)
    lib.bg_bias.argtypes = [ctypes.c_int, dp, dp, ctypes.c_int]
    lib.bg_run.argtypes = [dp, ip, dp, dp, dp]
    lib.bg_eval.restype = ctypes.c_double
    lib.bg_eval.argtypes = [ctypes.c_int, ctypes.c_double]
    lib.bg_fit.argtypes = [ctypes.c_int, ctypes.c_int, dp]
    rng = random.Random(job["seed"])
    part = job["part"]
    use = {"growth": ("D1", "f"), "expansion": tuple(x for x in NAMES if x not in ("D1", "f"))}[part]
    n, bad = 0, []
    for rep in range(6):
        u = rng.uniform
        cdm, bar, gam = u(0.15, 0.4), u(0.02, 0.08), rng.choice((0, u(0, 2e-3)))
        de = 1 - cdm - bar - gam
        h, w0, wa = u(0.5, 0.9), rng.choice((-1.0, u(-1.2, -0.7))), rng.choice((0.0, u(-0.3, 0.3)))
        N = rng.choice((30, 61, 97))
        bz = np.linspace(0, 15, 50)
        bias = [u(0.5, 2) + u(0.1, 0.6) * bz + u(-.02, .02) * bz ** 2 for i in range(6)]
        for i in range(6):
            lib.bg_bias(i, bz.copy(), bias[i].copy(), 50)
        z = np.array(sorted(u(0.3, 2) for i in range(rng.choice((1, 2, 3)))))
        sep = np.array(sorted(u(20, 300) for i in range(rng.choice((1, 4)))))
        deg = [rng.choice((1, 2, 3)) for i in range(6)]
        fits = rep % 2
        out = np.zeros(20 * N)
        rc = lib.bg_run(np.array([cdm, bar, gam, de, h, w0, wa]), np.array([N, rep % 3 == 1, fits, len(z), len(sep), 5] + deg, dtype=np.int32), z, sep, out)
        desc = dict(Omega_cdm=cdm, Omega_baryon=bar, Omega_gamma=gam, h=h, w0=w0, wa=wa, bins=N)
        n += 1
        if rc:
            bad.append(dict(desc, table=NAMES[rc - 1], what="length"))
            continue
        T = out.reshape(10, 2, N)
        om = cdm + bar
        zi = 15 * np.arange(N) / (N - 1)
        H0 = h / 2997.92458
        wint = lambda x: (1 + x) ** (3 * (1 + w0 + wa)) * np.exp(-3 * wa * x / (1 + x))
        w = lambda x: w0 + wa * x / (1 + x)
        E2 = lambda x: om * (1 + x) ** 3 + gam * (1 + x) ** 4 + de * wint(x)
        a = 1 / (1 + zi)
        H = np.sqrt(E2(zi)) * H0
        cH = a * H
        cHp = -(om * (1 + zi) + 2 * gam * (1 + zi) ** 2 + (1 + 3 * w(zi)) * de * wint(zi) / (1 + zi) ** 2) / 2 * H0 ** 2
        chi = np.array([quad(lambda x: E2(x) ** -0.5, 0, x, epsrel=1e-10)[0] for x in zi]) / H0
        ref = {"a": a, "Hz": H, "conformal_Hz": cH, "conformal_Hz_prime": cHp, "comoving_distance": chi, "z_as_chi": zi}
        from scipy.interpolate import CubicSpline
        spl = [CubicSpline(bz, b, bc_type="natural") for b in bias]
        for i in (0, 1):
            s, e = spl[2 + i](zi), spl[4 + i](zi)
            with np.errstate(divide="ignore", invalid="ignore"):
                g = cHp / cH ** 2 + (2 - 5 * s) / (chi * cH) + 5 * s - e
            g[0] = 0
            ref["G%d" % (i + 1)] = g
        if part == "growth":
            def X(y):
                # om/(1-om) exp(-3 int_a^1 w da/a)
                zz = 1 / y - 1
                return om / (1 - om) / ((1 + zz) ** (3 * (w0 + wa)) * np.exp(-3 * wa * zz / (1 + zz)))

            def rhs(t, y):
                x = X(t)
                return [y[1], -1.5 * (1 - w(1 / t - 1) / (1 + x)) * y[1] / t + 1.5 * x / (1 + x) * y[0] / t ** 2]
            so = solve_ivp(rhs, (0.05, 1), [0.05, 1.0], rtol=1e-10, atol=1e-12, dense_output=True)
            y = so.sol(a)
            ref["D1"] = y[0] / so.sol(1.0)[0]
            ref["f"] = y[1] * a / y[0]
        tol = 5e-5 if part == "growth" else 2e-5
        for k, nm in enumerate(NAMES):
            if nm not in use:
                continue
            xs = chi if nm == "z_as_chi" else zi
            for what, got, want in (("abscissa", T[k, 0], xs), ("value", T[k, 1], ref[nm])):
                err = ~(np.abs(got - want) <= tol * (np.abs(want) + (1 if nm in ("G1", "G2") and what == "value" else 0)) + 1e-12)
                if part == "growth" and what == "value" and nm == "f":
                    # just after its initial value the velocity is still adapting to the step size
                    err &= zi < 14
                if nm == "D1" and what == "value" and not abs(got[0] - 1) <= 1e-14:
                    err[0] = True
                if err.any():
                    j = int(np.argmax(err))
                    bad.append(dict(desc, table=nm, what=what, z=float(zi[j]), got=float(got[j]), expected=float(want[j])))
        if part == "expansion" and fits:
            buf = np.zeros(64)
            for b in range(6):
                for i, x in enumerate(z):
                    sz = lib.bg_fit(b, i, buf)
                    c = lib.bg_eval(0, x)
                    zr = [lib.bg_eval(1, c - sep[-1]), lib.bg_eval(1, c + sep[-1])]
                    xx = np.array([lib.bg_eval(0, q) for q in bz])
                    xx = xx - lib.bg_eval(0, sum(zr) / 2)
                    sc = np.abs(xx).max()
                    co = np.linalg.lstsq(np.vander(xx / sc, deg[b] + 1, increasing=True), bias[b], rcond=None)[0] / sc ** np.arange(deg[b] + 1)
                    ok = sz == len(z) and buf[0] == deg[b] + 1 and buf[1] == deg[b] and np.allclose(buf[2:4], zr, rtol=1e-12) and \
                        np.allclose(np.polyval(co[::-1], xx), np.polyval(buf[4:5 + deg[b]][::-1], xx), rtol=1e-6, atol=1e-8)
                    if not ok:
                        bad.append(dict(desc, fit=b, redshift=float(x), degree=deg[b], got=list(map(float, buf[:4 + deg[b] + 1])), expected=list(map(float, co))))
        if len(bad) > 4:
            break
    return n, bad
