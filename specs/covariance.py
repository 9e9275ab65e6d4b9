"""Contracts of the covariance (covariance.c)."""
from dv import term as T
from dv.term import *
from dv.term import mk
from dv.sym import Write, Unsupported
from .splines import SPL, interp, quadterm

F = T.Fraction


def coefficient_pair(ex, fr, st, v, n):
    """coefficient alpha_l of the redshift-space power spectrum of populations p1, p2 (proved on its own)"""
    p1, p2, bias, f, l = toI(v[0]), toI(v[1]), v[2], toR(v[3]), toI(v[4])
    return alpha_of(l, p1, p2, [ex.read(st, pointee(ex.padd(bias, num(x, "I"))), "R") for x in range(4)], f)


def alpha_of(l, p1, p2, bias, f):
    if l.op != "num":
        raise Unsupported("order of alpha is not constant")
    if int(val(l)) not in (0, 2, 4):
        return num(0)
    return app("alpha", (l, p1, p2, mk("app", ("pack",) + tuple(bias), "S"), mk("app", ("pack", f), "S")), "R")


def alpha(b1, b2, f, l):
    if l.op != "num":
        raise Unsupported("order of alpha is not constant")
    l = int(val(l))
    r = lambda a, b: num(F(a, b))
    if l == 0:
        return add(mul(b1, b2), mul(add(b1, b2), f, r(1, 3)), mul(r(1, 5), powi(f, 2)))
    if l == 2:
        return add(mul(r(2, 3), add(b1, b2), f), mul(r(4, 7), powi(f, 2)))
    if l == 4:
        return mul(r(8, 35), powi(f, 2))
    return num(0)


def legendre4(ex, fr, st, v, n):
    return app("Leg4", tuple(toI(x) for x in v), "R")


def sgn(m):
    """(-1)^m"""
    if m.op == "num":
        return num(-1 if int(val(m)) % 2 else 1)
    return toR(app("sgn", (m,), "I"))


def sign_contract(ex, fr, st, v, n):
    m = ex.simp(toI(v[0]))
    return num(-1 if int(val(m)) % 2 else 1, "I") if m.op == "num" else app("sgn", (m,), "I")


def windowed(ex, fr, st, v, n):
    """contract of covariance_windowed_bessel (proved on its own)"""
    s, p = toR(v[0]), v[1]
    o = pointee(p)
    rd = lambda f, so="R": ex.read(st, fld(o, f), so)
    return wbessel(rd("ell", "I"), rd("k"), s, rd("s_mean"), rd("s_delta"))


def wbessel(l, k, s, sm, d):
    return ite(eq(d, num(0)), app("jl", (l, mul(s, k)), "R"), app("jlw", (l, k, sm, d), "R"))


def fftlog(ex, fr, st, v, n):
    """contract of covariance_integrate_fftlog (proved on its own): the sampled double Bessel integral at every pair of separations"""
    s, power, l1, l2, N, sep, npix, kmin, kmax, meth, res = v
    ex.samples = getattr(ex, "samples", ()) + (toI(N),)
    m, q = ex.fresh("m", "I"), ex.fresh("n", "I")
    z = num(0, "I")
    t = ex.fresh("t", "R")
    b = {m: (z, npix), q: (z, npix)}
    ex.bounds.update(b)
    try:
        sm, sn = [ex.read(st, pointee(ex.padd(sep, x)), "R") for x in (m, q)]
        value = fftlogterm(ex, app("interp", (s, t), "R"), toR(power), toI(l1), toI(l2), sm, sn, toI(N), toR(kmin), toR(kmax), toI(meth), t)
        l = ex.canon(pointee(ex.padd(res, add(mul(toI(npix), q), m))))
        k, ix = ex.absloc(l)
    finally:
        for x in b:
            del ex.bounds[x]
    st.store[k] = st.store.get(k, ()) + (Write(tuple(ix), value, TRUE, (m, q), band(le(z, m), lt(m, npix), le(z, q), lt(q, npix)), "w", b),)
    return num(0, "I")


def fftlogterm(ex, pk, power, l1, l2, s1, s2, N, kmin, kmax, meth, t):
    body = mul(powi(t, 2), cpow(pk, power), app("jl", (l1, mul(t, s1)), "R"), app("jl", (l2, mul(t, s2)), "R"),
               app("FFTLOG", (t, N, kmin, kmax, meth), "R"))
    body, names = ex.bind([t], body)
    return app("quad", (1, names, body), "R")


COV = dict(SPL)
COV.update({"covariance_coefficient_pair": coefficient_pair, "coffe_legendre_integral": legendre4, "coffe_sign": sign_contract,
            "covariance_windowed_bessel": windowed, "covariance_integrate_fftlog": fftlog})


class Cell(object):
    """the covariance of the multipoles of two pairs of populations, at cell (k, i, m, j, n), read off the parameters in state st"""

    def __init__(self, ex, st, par, bg, averages, method, pk, win):
        self.ex, self.st, self.par, self.bg = ex, st, par, bg
        self.averages, self.method, self.pk, self.win = averages, method, pk, win

    def P(self, n, s="R"):
        return self.ex.read(self.st, fld(pointee(self.par), n), s)

    def at(self, n, i, s="R"):
        return self.ex.read(self.st, pointee(self.ex.padd(self.P(n, "P"), i)), s)

    def tab(self, n, x, o=None):
        return app("interp", (addr(fld(pointee(o or self.bg), n)), x), "R")

    def flag(self, n):
        return bnot(eq(self.ex.read(self.st, fld(fld(pointee(self.par), "correlation_contrib"), n), "I"), num(0, "I")))

    def pflag(self, n):
        return bnot(eq(self.P(n, "I"), num(0, "I")))

    def cube(self, a, b):
        return mul(num(F(1, 3)), sub(powi(b, 3), powi(a, 3)))

    def pk_content(self, power):
        ex, st = self.ex, self.st
        sp = ex.read(st, fld(fld(pointee(self.par), "power_spectrum"), "spline"), "P")
        o = pointee(sp)
        ln = ex.read(st, fld(o, "size"), "I")
        b = ex.fresh("i", "I")
        from .splines import arr, spline
        x = arr(ex, st, ex.read(st, fld(o, "x"), "P"), b)
        y = arr(ex, st, ex.read(st, fld(o, "y"), "P"), b)
        return spline(ex, self.P("interp_method", "I"), ln, b, x, powi(y, power))

    def bessel_integral(self, power, k, li, lj, sm, sn):
        """(2/pi) int dk k^2 P^power j_li(k s_m) j_lj(k s_n), windowed by the pixel size of the bin"""
        ex = self.ex
        t = ex.fresh("t", "R")
        two_pi = mul(num(2), div(num(1), T.PI))
        if self.method == "FFTLOG":
            pk = app("interp", (addr(fld(pointee(self.par), "power_spectrum_norm")), t), "R")
            return mul(two_pi, fftlogterm(ex, pk, num(power), li, lj, sm, sn, ex.samples[0],
                                          self.P("k_min_norm"), self.P("k_max_norm"), self.P("covariance_interpolation_method", "I"), t))
        d = self.at("pixelsize", k) if self.win else num(0)
        a, b = self.P("k_min"), self.P("k_max")
        q = add(a, mul(sub(b, a), t))
        body = mul(powi(q, 2), app("interp", (self.pk_content(power), q), "R"), wbessel(li, q, sm, sm, d), wbessel(lj, q, sn, sn, d))
        return mul(two_pi, quadterm(ex, t, a, b, body))

    def value(self, k, i, m, j, n):
        ex = self.ex
        I = lambda x: num(x, "I")
        l1, l2 = self.at("multipole_values", i, "I"), self.at("multipole_values", j, "I")
        sm, sn = self.at("sep", m), self.at("sep", n)
        dl = lambda a, b: ite(eq(a, b), num(1), num(0))
        sign = sgn
        pops = dict((x, self.P("covariance_pop%d" % x, "I")) for x in (1, 2, 3, 4))
        if self.averages:
            z0, z1 = self.at("zmin", k), self.at("zmax", k)
            z = mul(num(F(1, 2)), add(z0, z1))
            t = ex.fresh("t", "R")
            zz = add(z0, mul(sub(z1, z0), t))
            w = div(num(1), mul(self.tab("conformal_Hz", zz), powi(self.tab("comoving_distance", zz), 2), add(num(1), zz)))
            H0 = self.H0()
            vol = div(mul(num(4), T.PI, self.at("fsky", k)), mul(quadterm(ex, t, z0, z1, w), powi(H0, 2)))
        else:
            z = self.at("z_mean", k)
            dz = self.at("deltaz", k)
            chi = lambda x: self.tab("comoving_distance", x)
            vol = mul(num(4), T.PI, self.at("fsky", k), self.cube(chi(sub(z, dz)), chi(add(z, dz))))
        f = ite(self.flag("rsd"), self.tab("f", z), num(0))
        bias = [ite(self.flag("den"), self.tab("galaxy_bias%d" % x, z, self.par), num(0)) for x in (1, 2, 3, 4)]

        A = lambda x, y, l: alpha_of(I(l), pops[x], pops[y], bias, f)
        Leg = lambda a, c: app("Leg4", (l1, l2, I(a), I(c)), "R")
        D = lambda x, y: dl(pops[x], pops[y])
        n1, n2 = self.at("density1", k), self.at("density2", k)
        D1 = self.tab("D1", z)
        cosmic = num(0)
        for a in (0, 2, 4):
            for c in (0, 2, 4):
                cosmic = add(cosmic, mul(add(mul(A(1, 3, a), A(2, 4, c)), mul(A(1, 4, a), A(2, 3, c))), Leg(a, c)))
        mixed = num(0)
        for a in (0, 2, 4):
            shot = add(div(mul(A(1, 3, a), D(2, 4)), n2), div(mul(A(2, 4, a), D(1, 3)), n1),
                       div(mul(A(1, 4, a), D(2, 3)), n2), div(mul(A(2, 3, a), D(1, 4)), n1))
            mixed = add(mixed, mul(shot, Leg(a, 0)))
        ll = mul(add(mul(num(2), toR(l1)), num(1)), add(mul(num(2), toR(l2)), num(1)))
        px = self.at("pixelsize", k)
        half = mul(num(F(1, 2)), px)
        shell = div(num(1), self.cube(sub(sm, half), add(sm, half))) if self.win else div(num(1), mul(sm, sn, px))
        pois = div(mul(add(mul(num(2), toR(l1)), num(1)), dl(l1, l2), dl(m, n), add(mul(D(1, 3), D(2, 4)), mul(sign(l2), D(1, 4), D(2, 3))), shell),
                   mul(num(4), T.PI, n1, n2, vol))
        g = (lambda p: num(1)) if self.pk else (lambda p: powi(D1, p))
        ph = sign(idiv(sub(l2, l1), I(2)))
        pi = T.PI
        mix = div(mul(ph, sign(add(l1, l2)), g(2), ll, self.bessel_integral(1, k, l1, l2, sm, sn), mixed), mul(num(8), pi, vol))
        cos = div(mul(ph, g(4), ll, self.bessel_integral(2, k, l1, l2, sm, sn), cosmic), mul(num(8), pi, vol))
        return [(self.pflag("covariance_poisson"), pois), (self.pflag("covariance_mixed"), mix), (self.pflag("covariance_cosmic"), cos)]

    def H0(self):
        return mul(num(1 / F("2997.92458")), self.P("h"))
