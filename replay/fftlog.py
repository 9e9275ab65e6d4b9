"""Replay of the FFTlog transforms against direct evaluation with numpy, scipy and mpmath."""
import ctypes as C
import random
import mpmath as mp
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import loggamma

D, S, L, P = C.c_double, C.c_size_t, C.c_long, C.c_void_p
PD = C.POINTER(D)


class Config(C.Structure):
    _fields_ = [("l1", D), ("l2", D), ("nu1", D), ("nu2", D), ("width", D), ("n", L)]


def ptr(a):
    return a.ctypes.data_as(PD)


def gl(l, z):
    return np.exp(z * np.log(2.) + loggamma((l + z) / 2) - loggamma((3. + l - z) / 2))


def taper(w, h1, h2):
    W = np.ones((2 * h1, h2 + 1))
    n1, n2 = int(h1 * w), int(h2 * w)
    f = lambda i, n: i / n - np.sin(2 * np.pi * i / n) / (2 * np.pi)
    for j in range(n2 + 1):
        W[:, h2 - j] *= f(j, n2)
    for i in range(n1 + 1):
        W[h1 - i, :] *= f(i, n1)
        W[h1 + 1 + i, :] *= f(i, n1)
    return W


def two(lib, rng, check, h1, h2, l1, l2, same, square, w=0.25):
    """same: equal grids and biases on both sides; square: the input is diagonal"""
    N1, N2 = 2 * h1, 2 * h2
    n1, n2 = rng.uniform(0.7, 1.3), rng.uniform(0.7, 1.3)
    if same:
        n1 = n2 = rng.choice([1.01, n2])
    # g_l
    eta = np.array([rng.uniform(0, 40) for _ in range(9)])
    g = np.zeros(9, complex)
    lib.g_l.argtypes, lib.g_l.restype = [D, D, PD, P, L], None
    lib.g_l(l1, n1, ptr(eta), g.ctypes.data, 9)
    mp.mp.dps = 30
    for e, got in zip(eta, g):
        z = mp.mpc(n1, e)
        want = complex(mp.exp(z * mp.log(2) + mp.loggamma((l1 + z) / 2) - mp.loggamma((3 + l1 - z) / 2)))
        check("g_l", abs(got - want) / abs(want), 0., 1e-11, l=l1, nu=n1, eta=e)
    # the window
    lib.c_window_2d.argtypes, lib.c_window_2d.restype = [P, D, L, L], None
    o = np.array([[complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(h2 + 1)] for _ in range(N1)])
    o2 = o.copy()
    lib.c_window_2d(o2.ctypes.data, w, h1, h2)
    W = taper(w, h1, h2)
    check("c_window_2d", float(np.abs(o2 - o * W).max()), 0., 1e-12, h1=h1, h2=h2, width=w)
    # the transform
    k1 = np.exp(np.linspace(np.log(1e-3), np.log(3.), N1, endpoint=False))
    k2 = np.exp(np.linspace(np.log(2e-3), np.log(5.), N2, endpoint=False))
    f = np.array([[rng.uniform(0.2, 1) for _ in range(N2)] for _ in range(N1)])
    if same and h1 == h2:
        k2 = k1.copy()
        if square:
            f = np.diag(np.diag(f))
    r1, r2, res = np.zeros(N1), np.zeros(N2), np.zeros((N1, N2))
    row = lambda a: (PD * a.shape[0])(*[ptr(a[i]) for i in range(a.shape[0])])
    cf = Config(l1, l2, n1, n2, w, 0)
    lib.two_sph_bessel.argtypes, lib.two_sph_bessel.restype = [PD, PD, P, L, L, P, PD, PD, P], None
    lib.two_sph_bessel(ptr(k1), ptr(k2), row(f), N1, N2, C.byref(cf), ptr(r1), ptr(r2), row(res))
    R1, R2 = 1 / k1[::-1], 1 / k2[::-1]
    c = np.fft.rfft2(f / k1[:, None] ** n1 / k2[None, :] ** n2) * W
    m1 = np.fft.fftfreq(N1, 1. / N1)
    m1[h1] = h1
    e1 = 2 * np.pi * m1 / (N1 * np.log(k1[1] / k1[0]))
    e2 = 2 * np.pi * np.arange(h2 + 1) / (N2 * np.log(k2[1] / k2[0]))
    A1 = (k1[0] * R1[0]) ** (-1j * e1) * gl(l1, n1 + 1j * e1)
    A2 = (k2[0] * R2[0]) ** (-1j * e2) * gl(l2, n2 + 1j * e2)
    c = np.conj(c * A1[:, None] * A2[None, :])
    # c2r of half a spectrum, summed directly
    full = np.zeros((N1, N2), complex)
    full[:, :h2 + 1] = c
    for j in range(1, h2):
        full[:, N2 - j] = np.conj(np.roll(c[::-1, j], 1))
    full = np.real(np.fft.ifft2(full)) * N1 * N2
    want = full * np.pi / (16. * N1 * N2 * R2[None, :] ** n2 * R1[:, None] ** n1)
    check("two_sph_bessel: separations", float(max(abs(r1 / R1 - 1).max(), abs(r2 / R2 - 1).max())), 0., 1e-12, N1=N1, N2=N2)
    check("two_sph_bessel: result", float(np.abs(res - want).max() / np.abs(want).max()), 0., 1e-9, N1=N1, N2=N2, l1=l1, l2=l2, nu1=n1, nu2=n2)


ORDERS = [(0, 0), (2, 0), (4, 0), (1, 1), (0, 2), (3, 1), (2, 2)]


def one(lib, rng, check, N, l, nu, flag):
    lo, hi = rng.uniform(1e-4, 1e-3), rng.uniform(5, 20)
    n = 60
    x = np.exp(np.linspace(np.log(lo / 2), np.log(hi * 2), n))
    y = x / (1 + 50 * x ** 2) ** 1.3 * rng.uniform(1, 5)
    k0, r0 = lo, rng.choice([1., lo, 1 / hi])
    ox, oy = np.zeros(N), np.zeros(N)
    lib.twofast_1bessel.argtypes, lib.twofast_1bessel.restype = [PD, PD, S, PD, PD, S, D, D, D, D, D, D, C.c_uint], None
    lib.twofast_1bessel(ptr(ox), ptr(oy), N, ptr(x), ptr(y), n, l, nu, r0, k0, lo, hi, flag)
    i = np.arange(N)
    G = np.log(hi / lo)
    qmin, qmax, q = max(0.9999 - 1 - nu, -l), min(3.9 - nu, 2.), (2 + .9 + .9999) / 2 - nu
    if not qmin < q < qmax:
        q = (qmin + 2 * qmax) / 3
    kk = k0 * (hi / lo) ** (i / N)
    last = kk[-1]
    xl, xr = np.exp(.46) * lo, np.exp(-.46) * last

    def win(v):
        u = np.where(v < xl, (v - lo) / (xl - lo), (last - v) / (last - xr))
        r = u - np.sin(2 * np.pi * u) / (2 * np.pi)
        r = np.where((v >= xl) & (v <= xr), 1., r)
        return np.where((v <= lo) | (v >= last), 0., r)
    b = q + nu
    a = (hi / lo) ** ((3 - b) * i / N) * CubicSpline(x, y, bc_type="natural")(kk) * win(kk)
    h = N // 2
    s = win(kk[h - 1:h - 1 + h + 1]) * np.conj(np.fft.rfft(a)) / (2 * np.pi * N / G)
    t = 2 * np.pi * np.arange(h + 1) / G
    z = q - 1 - 1j * t
    M = 2 ** (z - 1) * np.sqrt(np.pi) * np.exp(loggamma((1 + l + z) / 2) - loggamma((2 + l - z) / 2)) * (k0 * r0) ** (1j * t - q)
    w = np.fft.irfft(s * M, N) * N * k0 ** 3 * (hi / lo) ** (-b * i / N) / np.pi / (r0 * k0) ** nu / G
    X = r0 * (hi / lo) ** (i / N)
    check("twofast_1bessel: x", float(abs(ox / X - 1).max()), 0., 1e-12, N=N)
    inp = dict(N=N, l=l, nu=nu, r0=r0, k0=k0, kmin=lo, kmax=hi)
    # relative to the size of the biased series, which the prefactor spreads over many orders of magnitude
    sc = (hi / lo) ** (b * i / N)
    check("twofast_1bessel: y", float(np.abs((oy - w) * sc).max() / np.abs(w * sc).max()), 0., 1e-8, **inp)


def main(job):
    lib = C.CDLL(job["lib"])
    rng = random.Random(job["seed"])
    n, bad = 0, []

    def check(what, got, want, tol, **inp):
        nonlocal n
        n += 1
        if not abs(got - want) <= tol and len(bad) < 20:
            bad.append(dict(function=what, error=got, tolerance=tol, **inp))
    if "twobessel" in job["groups"]:
        for rep in range(job.get("reps", 3)):
            for h1, h2 in ((8, 8), (4, 4), (8, 16), (20, 8), (15, 9), (16, 16)):
                for l1, l2, same in ((0, 0, True), (0, 2, True), (4, 2, True), (1, 3, False), (2, 2, False), (3, 0, False)):
                    two(lib, rng, check, h1, h2, l1, l2, same, rep != 1)
    if "twofast" in job["groups"]:
        for rep in range(job.get("reps", 3)):
            for N in (32, 65, 64, 127, rng.randint(8, 200)):
                for l, nu in ORDERS:
                    one(lib, rng, check, N, l, nu, rng.choice((0, 1, 2, 3, 7)) if rep else 0)
    return n, bad
