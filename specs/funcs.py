"""Contracts of the correlation-function integrands (functions.c)."""
import sympy as sp
from dv import term as T
from dv.term import *
from .corr import *
from .corr import _d

U = sp.Symbol("U")


def flat_correlator(opA, opB):
    """plane-parallel limit: {m: polynomial in U = n.r} of op_A op_B Xi"""
    def d(e, s):
        out = {}
        for m, c in e.items():
            dc = sp.diff(c, U)
            if dc != 0:
                out[m] = sp.expand(out.get(m, 0) + s * dc)
            out[m + 1] = sp.expand(out.get(m + 1, 0) + s * c * U)
        return out
    e = {0: sp.Integer(1)}
    for op, s in ((opA, -1), (opB, 1)):
        for _ in range({"1": 0, "d": 1, "dd": 2}[op]):
            e = d(e, s)
    return dict((m, c) for m, c in e.items() if c != 0)


def upoly(p, u):
    out = []
    for (k,), co in sp.Poly(p, U).terms():
        out.append(mul(num(T.Fraction(int(sp.Rational(co).p), int(sp.Rational(co).q))), powi(u, k)))
    return add(*out)


F = T.Fraction
FLATLOCAL = ("den", "rsd", "d1")


def pairs_of(A):
    return [(A[i], A[j]) for i in range(len(A)) for j in range(i, len(A))]


def gate(S, a, b):
    if a == b:
        return band(S.flag(a), bnot(S.pflag("only_cross_correlations")))
    return band(S.flag(a), S.flag(b))


# ---- local x local ------------------------------------------------------------------------

def nonint_pair(S, a, b, flat=False, deriv=None, d1d1_sign=1):
    z1, z2 = S.zchi(S.chi1), S.zchi(S.chi2)
    zm = S.z_mean
    xi4 = sub(S.T.raw(4, 0, S.sep), S.T.ren(S.chi1, S.chi2))

    def one(p, q):
        if flat and p in FLATLOCAL and q in FLATLOCAL:
            cor = flat_correlator(OP[p], OP[q])
            x = add(*[mul(upoly(c, mul(S.sep, S.mu)), S.T.DX(PW[p] + PW[q], m, S.sep)) for m, c in sorted(cor.items())])
            A, B = S.amp(p, 1, zm), S.amp(q, 2, zm)
            if deriv is None:
                return mul(A, B, x)
            dA, dB = damp(S, p, 1, zm, deriv), damp(S, q, 2, zm, deriv)
            return mul(add(mul(dA, B), mul(A, dB)), x)
        return mul(S.amp(p, 1, z1), S.amp(q, 2, z2), S.xi(p, q, S.chi1, S.chi2, S.sep, S.costheta, xi4=xi4))
    if a == b:
        v = one(a, a)
        if a == "d1" and d1d1_sign < 0:
            # the recorded deviation: the I^2_2 part enters with the opposite sign
            i22 = S.T.V(2, 2, S.sep)
            if flat:
                amp = mul(S.amp(a, 1, zm), S.amp(a, 2, zm))
                q = mul(num(F(-2, 3)), S.legendre2(), powi(S.sep, 2), i22)
            else:
                amp = mul(S.amp(a, 1, z1), S.amp(a, 2, z2))
                q = mul(add(mul(sub(S.chi2, mul(S.chi1, S.costheta)), sub(S.chi1, mul(S.chi2, S.costheta))),
                            mul(num(F(1, 3)), powi(S.sep, 2), S.costheta)), i22)
            v = sub(v, mul(num(2), amp, q))
        return v
    return add(one(a, b), one(b, a))


def damp(S, s, i, z, wrt):
    if s == "den":
        return num(1) if wrt == "b" else num(0)
    if s == "rsd":
        return num(0) if wrt == "b" else num(-1)
    raise ValueError(s)


def nonint(S, flat, pairlist=None, deriv=None, growth=None, d1d1_sign=1):
    z1, z2 = S.zchi(S.chi1), S.zchi(S.chi2)
    tot = add(*[ite(gate(S, a, b), nonint_pair(S, a, b, flat, deriv, d1d1_sign), num(0))
                for a, b in (pairlist or pairs_of(LOCAL))])
    if growth is None:
        growth = powi(S.bgs("D1", S.z_mean), 2) if flat else mul(S.bgs("D1", z1), S.bgs("D1", z2))
    return mul(tot, growth)


# ---- local x integrated -------------------------------------------------------------------

class Single(object):
    def __init__(self, S, x):
        self.S, self.x = S, x
        self.l1, self.l2 = mul(S.chi1, x), mul(S.chi2, x)
        self.z1c, self.z2c = S.zchi(S.chi1), S.zchi(S.chi2)
        self.z1, self.z2 = S.zchi(self.l1), S.zchi(self.l2)
        c = S.costheta
        self.r21 = sub(add(powi(self.l2, 2), powi(S.chi1, 2)), mul(num(2), S.chi1, self.l2, c))
        self.r22 = sub(add(powi(self.l1, 2), powi(S.chi2, 2)), mul(num(2), S.chi2, self.l1, c))

    def half(self, loc, itg, tr, zero):
        """local source of tracer tr, integrated source of the other tracer"""
        S = self.S
        if tr == 1:
            chi, zc, r2, lam, zl = S.chi1, self.z1c, self.r21, self.l2, self.z2
            o, ochi, oz = 2, S.chi2, self.z2c
        else:
            chi, zc, r2, lam, zl = S.chi2, self.z2c, self.r22, self.l1, self.z1
            o, ochi, oz = 1, S.chi1, self.z1c
        r = num(0) if zero else app("sqrt", (r2,), "R")
        xi4 = S.T.ren0(lam) if zero else sub(S.T.raw(4, 0, r), S.T.ren(lam, chi))
        v = S.xi(loc, itg, chi, lam, r, S.costheta, at_zero=zero, xi4=xi4)
        if loc == "rsd" and itg == "len" and not zero:
            # within 0.001 of |mu| = 1 the l=4 coefficient may be taken at |mu| = 1
            cor = correlator("dd", "lap")
            env = {X1: chi, X2: lam, C: S.costheta}
            v04 = S.T.V(0, 4, r)
            # coefficient of V04: from D^2 (r^0 I22), D^3 (-r^-2 I13), D^4 (r^-4 I04)
            co = add(mul(poly_term(cor[2], env), num(F(1, 35))),
                     neg(mul(poly_term(cor[3], env), powi(r, -2), num(F(1, 7)))),
                     mul(poly_term(cor[4], env), powi(r, -4)),
                     neg(mul(poly_term(cor[1], env), num(F(1, 105)), powi(r, 2))) if 1 in cor else num(0))
            lim = mul(num(F(-4, 35)), add(lam, chi), lam)
            near = mul(sub(lim, co), v04)
            v = add(v, ite(lt(app("fabs", (S.mu,), "R"), num(F(999, 1000))), num(0), near))
        w = mul(S.amp(loc, tr, zc), S.iamp(itg, o, oz, ochi, self.x, zl))
        return mul(w, v, S.bgs("D1", zc), S.bgs("D1", zl))

    def pair(self, loc, itg, zero1=False, zero2=False, case=None):
        S = self.S
        full = add(self.half(loc, itg, 1, zero1), self.half(loc, itg, 2, zero2))
        if itg == "len" and loc in ("den", "rsd", "d1"):
            fl = S.pflag("flatsky_local_nonlocal")
            alt = num(0)
            if loc == "den":
                zm = S.z_mean
                mag = lambda i: sub(num(2), mul(num(5), S.pars("magnification_bias%d" % i, zm)))
                b = lambda i: S.pars("galaxy_bias%d" % i, zm)
                arg = mul(S.sep, app("sqrt", (sub(num(1), mul(S.mu, S.mu)),), "R"))
                tab = app("interp", (S.T.ptr(1, -1, "result", 1, 1), arg), "R")
                alt = mul(num(F(-3, 8)), S.Om(), powi(S.H0(), 2), div(num(1), T.PI),
                          powi(S.bgs("D1", zm), 2), add(num(1), zm), app("fabs", (S.mu,), "R"), S.sep,
                          add(mul(mag(1), b(2)), mul(mag(2), b(1))), tab)
                alt = ite(eq(S.p("output_type", "I"), num(2, "I")), num(0), alt)
            full = ite(fl, alt, full)
        return full

    def total(self, zero1=False, zero2=False):
        return add(*[ite(gate(self.S, a, b), self.pair(a, b, zero1, zero2), num(0)) for b in INTEG for a in LOCAL])


# ---- integrated x integrated --------------------------------------------------------------

class Double(object):
    def __init__(self, S, x1, x2):
        self.S, self.x1, self.x2 = S, x1, x2
        self.l1, self.l2 = mul(S.chi1, x1), mul(S.chi2, x2)
        self.z1c, self.z2c = S.zchi(S.chi1), S.zchi(S.chi2)
        self.z1, self.z2 = S.zchi(self.l1), S.zchi(self.l2)
        self.r2 = sub(add(powi(self.l1, 2), powi(self.l2, 2)), mul(num(2), self.l1, self.l2, S.costheta))

    def one(self, a, b, zero):
        S = self.S
        r = num(0) if zero else app("sqrt", (self.r2,), "R")
        xi4 = S.T.ren0(self.l1) if zero else sub(S.T.raw(4, 0, r), S.T.ren(self.l1, self.l2))
        v = S.xi(a, b, self.l1, self.l2, r, S.costheta, at_zero=zero, xi4=xi4)
        return mul(S.iamp(a, 1, self.z1c, S.chi1, self.x1, self.z1), S.iamp(b, 2, self.z2c, S.chi2, self.x2, self.z2),
                   v, S.bgs("D1", self.z1), S.bgs("D1", self.z2))

    def pair(self, a, b, zero):
        S = self.S
        v = self.one(a, a, zero) if a == b else add(self.one(a, b, zero), self.one(b, a, zero))
        if a == b == "len":
            zm = S.z_mean
            mag = lambda i: sub(num(2), mul(num(5), S.pars("magnification_bias%d" % i, zm)))
            lam = mul(self.x1, S.chi_mean)
            arg = mul(self.x1, S.sep, app("sqrt", (sub(num(1), mul(S.mu, S.mu)),), "R"))
            tab = app("interp", (S.T.ptr(1, -1, "result", 1, 1), arg), "R")
            zl = S.zchi(lam)
            alt = mul(num(F(9, 8)), powi(S.Om(), 2), powi(S.H0(), 4), mag(1), mag(2), powi(S.chi_mean, 3),
                      div(num(1), T.PI), tab, powi(S.bgs("D1", zl), 2), powi(add(num(1), zl), 2),
                      powi(mul(self.x1, sub(num(1), self.x1)), 2))
            alt = ite(eq(S.p("output_type", "I"), num(2, "I")), num(0), alt)
            v = ite(S.pflag("flatsky_nonlocal"), alt, v)
        return v

    def total(self, zero):
        return add(*[ite(gate(self.S, a, b), self.pair(a, b, zero), num(0)) for a, b in pairs_of(INTEG)])


# ---- flat-sky multipoles ------------------------------------------------------------------

def flat_len_len(S, l, x):
    """l: even python int"""
    import math
    zm = S.z_mean
    mag = lambda i: sub(num(2), mul(num(5), S.pars("magnification_bias%d" % i, zm)))
    lam = mul(x, S.chi_mean)
    zl = S.zchi(lam)
    pre = F((2 * l + 1) * math.factorial(l), 2 ** l * math.factorial(l // 2) ** 2)
    r = mul(x, S.sep)
    # int over mu of I^1_-1(half) ... = r I^1_l ; the table holds r^(1-l) I^1_l, and I^1_l for l > 1
    tab = S.T.raw(1, l, r)
    rI = tab if l == 0 else mul(r, tab)
    return mul(num(pre * F(9, 8)), div(num(1), T.PI), powi(S.Om(), 2), powi(S.H0(), 4), mag(1), mag(2),
               powi(S.chi_mean, 3), rI, powi(S.bgs("D1", zl), 2), powi(add(num(1), zl), 2),
               powi(mul(x, sub(num(1), x)), 2))


def flat_den_len(S, l):
    import math
    if l % 2:
        return num(0)
    zm = S.z_mean
    mag = lambda i: sub(num(2), mul(num(5), S.pars("magnification_bias%d" % i, zm)))
    b = lambda i: S.pars("galaxy_bias%d" % i, zm)
    tot = []
    for k in range(l // 2 + 1):
        co = F((-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l) * math.factorial(l // 2 - k), 2 ** k)
        tot.append(mul(num(co), app("interp", (S.T.ptr(l - 2 * k + 3, l - 2 * k + 1, "result", 1, 1), S.sep), "R")))
    return mul(add(*tot), num(F(-3, 8) * (2 * l + 1) * F(2) ** (1 - l // 2)), div(num(1), T.PI), S.Om(), powi(S.H0(), 2),
               powi(S.bgs("D1", zm), 2), add(num(1), zm), S.sep,
               add(mul(mag(1), b(2)), mul(mag(2), b(1))),
               div(num(1), app("sqrt", (mul(num(2), T.PI),), "R")))
