"""Contract of the projection layer (signal.c): which integral of which integrand."""
from dv import term as T
from dv.term import *
from dv.sym import STD, Unsupported
from .corr import Corr, LOCAL, INTEG
from .contracts import CORR

F = T.Fraction


def quad1(ex, fr, st, v, n):
    """contract of coffe_integrate_1d_*: the integral of func(., parameters) over [a, b]"""
    func, params, a, b = v[0], v[1], toR(v[2]), toR(v[3])
    if func.op != "func":
        raise Unsupported("integrand is not a named function")
    t = sym("t0")
    s2 = st.copy()
    # substitution to [0, 1]
    arg = t if (a is num(0) and b is num(1)) else add(a, mul(sub(b, a), t))
    body = ex.call_values(fr, func.args[0], [arg, params], n, s2)
    if not (a is num(0) and b is num(1)):
        body = mul(sub(b, a), body)
    return app("quad", (1, ("t0",), body), "R")


def quadn(ex, fr, st, v, n):
    """contract of coffe_integrate_multidimensional: the integral over the unit cube"""
    func, params, dims = v[0], v[1], toI(v[3])
    if func.op != "func" or dims.op != "num":
        raise Unsupported("integrand is not a named function of fixed dimension")
    d = int(val(dims))
    s2 = st.copy()
    arr = fr.temp()
    names = tuple("t%d" % i for i in range(d))
    for i in range(d):
        ex.write(s2, idx(arr, num(i, "I")), sym(names[i]))
    body = ex.call_values(fr, func.args[0], [addr(idx(arr, num(0, "I"))), num(d, "I"), params], n, s2)
    return app("quad", (d, names, body), "R")


def opaque_fn(name, ints=()):
    def h(ex, fr, st, v, n):
        return app(name, tuple(v[:3]) + tuple(toI(x) if i in ints else toR(x) for i, x in enumerate(v[3:])), "R")
    return h


SIGNAL = dict(CORR)
SIGNAL.update({
    "coffe_integrate_1d_prec_gsl": quad1,
    "coffe_integrate_1d_prec_double_exponential": quad1,
    "coffe_integrate_multidimensional": quadn,
    "functions_nonintegrated": opaque_fn("F.local"),
    "functions_single_integrated": opaque_fn("F.single"),
    "functions_double_integrated": opaque_fn("F.double"),
    "functions_flatsky_lensing_lensing_multipoles": opaque_fn("F.flatLL", (2,)),
    "functions_flatsky_density_lensing_multipoles": opaque_fn("F.flatDL", (2,)),
})


class Signal(object):
    def __init__(self, l):
        self.S = S = Corr()
        self.zmin, self.zmax = sym("z_min"), sym("z_max")
        self.l = l
        self.obj = (S.par, S.bg, S.integral)

    def F(self, k, z, mu, *xs):
        return app("F." + k, self.obj + (z, mu, self.S.sep) + xs, "R")

    def P(self, mu):
        return app("legendre", (self.l, mu), "R")

    def norm(self):
        return add(mul(num(2), toR(self.l)), num(1))

    def any_local(self):
        return bor(*[self.S.flag(s) for s in LOCAL])

    def any_integ(self):
        return bor(*[self.S.flag(s) for s in INTEG])

    def spec(self, kind, out):
        S = self.S
        t = [sym("t%d" % i) for i in range(4)]
        k = {"local": 0, "single": 1, "double": 2}[kind]
        flag = S.flag
        gate = {"local": self.any_local(), "single": band(self.any_local(), self.any_integ()),
                "double": self.any_integ()}[kind]

        def q(n, body):
            return app("quad", (n, tuple("t%d" % i for i in range(n)), body), "R")
        mu_t = lambda u: sub(mul(num(2), u), num(1))
        if out == "CORRFUNC":
            if k == 0:
                v = self.F(kind, S.z_mean, S.mu)
            else:
                v = q(k, self.F(kind, S.z_mean, S.mu, *t[:k]))
        elif out == "MULTIPOLES":
            full = mul(self.norm(), q(1 + k, mul(self.F(kind, S.z_mean, mu_t(t[0]), *t[1:1 + k]), self.P(mu_t(t[0])))))
            pi2 = mul(num(2), powi(T.PI, 2))
            if k == 0:
                v = full
            elif k == 1:
                fl = S.pflag("flatsky_local_nonlocal")
                dl = app("F.flatDL", self.obj + (S.z_mean, S.sep, self.l), "R")
                loc3 = bor(flag("den"), flag("rsd"), flag("d1"))
                others = bor(band(self.any_local(), bor(flag("g4"), flag("g5"))),
                             band(flag("len"), bor(flag("d2"), flag("g1"), flag("g2"), flag("g3"))),
                             band(loc3, flag("len"), bnot(fl)))
                v = add(ite(band(flag("den"), flag("len"), fl), mul(pi2, dl), num(0)), ite(others, full, num(0)))
            else:
                fl = S.pflag("flatsky_nonlocal")
                even = eq(imod(self.l, num(2, "I")), num(0, "I"))
                ll = app("F.flatLL", self.obj + (S.z_mean, S.sep, self.l, t[0]), "R")
                a = ite(band(flag("len"), fl, bnot(S.pflag("only_cross_correlations")), even), mul(pi2, q(1, ll)), num(0))
                b = ite(bor(flag("g4"), flag("g5"), band(flag("len"), bnot(fl))), full, num(0))
                v = add(a, b)
        elif out == "AVERAGE_MULTIPOLES":
            half = mul(num(F(1, 2)), S.sep)
            z1 = S.zchi(add(S.bgs("comoving_distance", self.zmin), half))
            z2 = S.zchi(sub(S.bgs("comoving_distance", self.zmax), half))
            z = add(z1, mul(sub(z2, z1), t[0]))
            mu = mu_t(t[1])
            w = mul(S.H0(), div(num(1), mul(S.bgs("conformal_Hz", z), add(num(1), z))))
            v = mul(self.norm(), q(2 + k, mul(self.F(kind, z, mu, *t[2:2 + k]), self.P(mu), w)))
        else:
            v = num(0)
        return ite(gate, v, num(0))
