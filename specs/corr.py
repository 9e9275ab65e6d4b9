"""Specification of the relativistic two-point correlation function, derived from the
source terms and not from the code.

Every contribution to the galaxy number counts is  (amplitude) x (differential operator)
acting on  k^-p delta(k, z) e^{i k.x}:

  den   b                                  p=0
  rsd  -f                     d^2/dchi^2   p=2        (1/H d_r (V.n))
  d1   -G f H                 d/dchi       p=2        (G V.n)
  d2    (3-fevo) H^2 f                     p=2        ((fevo-3) H x velocity potential)
  g1    (1+G)    psi                       p=2        psi = -3/2 Om H0^2 / a
  g2    (5s-2)   psi                       p=2
  g3    (f-1)    psi                       p=2
  len   -(2-5s)/2 (1-x)/x  2 psi  Lap_Omega  p=2      integrated, lambda = x chi
  g4    (2-5s)             2 psi             p=2      integrated
  g5    G chi H (f-1)      2 psi             p=2      integrated

All carry the growth factor D1.  The correlator of two sources is the product of the
amplitudes times both operators acting on  Xi_p(r) = int k^2 dk/(2 pi^2) P(k) k^-p j0(kr),
with r^2 = x1^2 + x2^2 - 2 x1 x2 cos(theta).  With D = (1/r) d/dr,
  D^m Xi_p = (-1)^m r^(p-2m) I^(p-m)_m(r),   I^n_l = int k^2 dk/(2 pi^2) P(k) j_l(kr)/(kr)^n.
"""
import sympy as sp
from dv import term as T
from dv.term import *

X1, X2, C = sp.symbols("X1 X2 C")

LOCAL = ["den", "rsd", "d1", "d2", "g1", "g2", "g3"]
INTEG = ["len", "g4", "g5"]
OP = {"den": "1", "rsd": "dd", "d1": "d", "d2": "1", "g1": "1", "g2": "1", "g3": "1",
      "len": "lap", "g4": "1", "g5": "1"}
PW = dict((s, 2) for s in LOCAL + INTEG)
PW["den"] = 0

# order in which non-integrated pairs appear is irrelevant
def pairs(A, B):
    return [(a, b) for a in A for b in B]


def _d(expr, var):
    """derivative of {m: coeff} with coeff polynomial in X1,X2,C multiplying D^m Xi"""
    chain = {"1": X1 - X2 * C, "2": X2 - X1 * C, "c": -X1 * X2}[var]
    s = {"1": X1, "2": X2, "c": C}[var]
    out = {}
    for m, co in expr.items():
        dco = sp.diff(co, s)
        if dco != 0:
            out[m] = sp.expand(out.get(m, 0) + dco)
        out[m + 1] = sp.expand(out.get(m + 1, 0) + co * chain)
    return dict((m, c) for m, c in out.items() if c != 0)


def apply_op(expr, op, who):
    if op == "1":
        return expr
    if op == "d":
        return _d(expr, who)
    if op == "dd":
        return _d(_d(expr, who), who)
    if op == "lap":
        e = _d(expr, "c")
        e = dict((m, sp.expand(c * (1 - C ** 2))) for m, c in e.items())
        return _d(e, "c")
    raise ValueError(op)


_cc = {}


def correlator(opA, opB):
    """{m: polynomial} for op_A at point 1, op_B at point 2"""
    k = (opA, opB)
    if k not in _cc:
        _cc[k] = apply_op(apply_op({0: sp.Integer(1)}, opA, "1"), opB, "2")
    return _cc[k]


def poly_term(p, env):
    """sympy polynomial in X1,X2,C -> Term with env {symbol: Term}"""
    p = sp.Poly(sp.expand(p), X1, X2, C)
    out = []
    for (i, j, k), co in p.terms():
        t = num(sp.Rational(co).p) if sp.Rational(co).q == 1 else num(T.Fraction(int(co.p), int(co.q)))
        for s, e in ((X1, i), (X2, j), (C, k)):
            if e:
                t = mul(t, powi(env[s], e))
        out.append(t)
    return add(*out) if out else num(0)


# ---- the Fourier-Bessel tables ------------------------------------------------------------
# coffe_find_integral(integral, n, l).result evaluated at r holds V(n,l) = r^(n-l) I^n_l for
# n >= l and I^n_l otherwise.  Independent tables: V00 V02 V04 V20 V40; the rest follow from
# j_(l-1) + j_(l+1) = (2l+1) j_l / x.

BASE = {(0, 0), (0, 2), (0, 4), (2, 0), (4, 0)}


class Tables(object):
    """interprets the Bessel tables as terms; `raw(n, l, r)` gives the opaque value"""

    def __init__(self, integral):
        self.integral = integral

    def ptr(self, n, l, field="result", state1=0, state2=0):
        o = app("find_integral", (self.integral, num(n, "I"), num(l, "I"), num(state1, "I"), num(state2, "I")), "P")
        return addr(fld(pointee(o), field))

    def raw(self, n, l, r):
        return app("interp", (self.ptr(n, l), r), "R")

    def V(self, n, l, r):
        r0 = r.op == "num" and val(r) == 0
        if (n, l) in ((0, 2), (0, 4)) and r0:
            return num(0)
        if (n, l) in BASE:
            return self.raw(n, l, r)
        if (n, l) == (1, 1):
            return mul(num(T.Fraction(1, 3)), add(self.V(0, 0, r), self.V(0, 2, r)))
        if (n, l) == (1, 3):
            return mul(num(T.Fraction(1, 7)), add(self.V(0, 2, r), self.V(0, 4, r)))
        if (n, l) == (2, 2):
            return mul(num(T.Fraction(1, 5)), add(self.V(1, 1, r), self.V(1, 3, r)))
        if (n, l) == (3, 1):
            return mul(num(T.Fraction(1, 3)), add(self.V(2, 0, r), mul(powi(r, 2), self.V(2, 2, r))))
        return self.raw(n, l, r)

    def DX(self, p, m, r):
        """D^m Xi_p at separation r (r may be the numeral 0: the limit)"""
        n, l = p - m, m
        s = num(-1 if m % 2 else 1)
        r0 = r.op == "num" and val(r) == 0
        if (p, m) == (4, 0):
            raise ValueError("Xi_4 needs its renormalisation")
        if n >= l:
            return mul(s, self.V(n, l, r))          # r^(p-2m) = r^(n-l)
        if r0:
            raise ValueError("singular order at r=0")
        return mul(s, powi(r, p - 2 * m), self.V(n, l, r))

    def ren(self, a, b):
        x, y = sorted((a, b), key=lambda t: t.id)
        return app("interp2d", (self.ptr(4, 0, "renormalization"), x, y), "R")

    def ren0(self, a):
        return app("interp", (self.ptr(4, 0, "renormalization_zero_separation"), a), "R")


class Corr(object):
    """builds the specification terms from the inputs of the functions_* entry points"""

    def __init__(self):
        self.par, self.bg, self.integral = sym("par", "P"), sym("bg", "P"), sym("integral", "P")
        self.z_mean, self.mu, self.sep = sym("z_mean"), sym("mu"), sym("sep")
        self.T = Tables(self.integral)
        self.chi_mean = self.bgs("comoving_distance", self.z_mean)
        half = num(T.Fraction(1, 2))
        self.chi1 = sub(self.chi_mean, mul(half, self.sep, self.mu))
        self.chi2 = add(self.chi_mean, mul(half, self.sep, self.mu))
        q = mul(half, powi(self.mu, 2), powi(self.sep, 2))
        X2_ = mul(num(2), powi(self.chi_mean, 2))
        self.costheta = div(add(sub(X2_, powi(self.sep, 2)), q), sub(X2_, q))

    # splines and scalars
    def bgs(self, f, x):
        return app("interp", (addr(fld(pointee(self.bg), f)), x), "R")

    def pars(self, f, x):
        return app("interp", (addr(fld(pointee(self.par), f)), x), "R")

    def p(self, f, sort="R"):
        l = pointee(self.par)
        for part in f.split("."):
            l = fld(l, part)
        return mk("load", (l,), sort)

    def flag(self, name):
        return toB(self.p("correlation_contrib.%s" % name, "I"))

    def pflag(self, name):
        return toB(self.p(name, "I"))

    def H0(self):
        return div(self.p("h"), num(T.Fraction("2997.92458")))

    def Om(self):
        return add(self.p("Omega0_cdm"), self.p("Omega0_baryon"))

    def legendre2(self):
        return sub(mul(num(T.Fraction(3, 2)), powi(self.mu, 2)), num(T.Fraction(1, 2)))

    def zchi(self, chi):
        return self.bgs("z_as_chi", chi)

    def psi(self, z):
        return mul(num(T.Fraction(-3, 2)), self.Om(), powi(self.H0(), 2), div(num(1), self.bgs("a", z)))

    def amp(self, s, i, z):
        """amplitude of a local source of tracer i at redshift z, without growth"""
        I = str(i)
        f, H, a = self.bgs("f", z), self.bgs("conformal_Hz", z), self.bgs("a", z)
        G = self.bgs("G" + I, z)
        if s == "den":
            return self.pars("galaxy_bias" + I, z)
        if s == "rsd":
            return neg(f)
        if s == "d1":
            return neg(mul(G, f, H))
        if s == "d2":
            return mul(sub(num(3), self.pars("evolution_bias" + I, z)), powi(H, 2), f)
        if s == "g1":
            return mul(add(num(1), G), self.psi(z))
        if s == "g2":
            return mul(sub(mul(num(5), self.pars("magnification_bias" + I, z)), num(2)), self.psi(z))
        if s == "g3":
            return mul(sub(f, num(1)), self.psi(z))
        raise ValueError(s)

    def iamp(self, s, i, zc, chi, x, zl):
        """weight of an integrated source of tracer i at lambda = x chi (redshift zl)"""
        I = str(i)
        mag = sub(num(2), mul(num(5), self.pars("magnification_bias" + I, zc)))
        psi2 = mul(num(2), self.psi(zl))
        if s == "len":
            return mul(num(T.Fraction(-1, 2)), mag, div(sub(num(1), x), x), psi2)
        if s == "g4":
            return mul(mag, psi2)
        if s == "g5":
            return mul(self.bgs("G" + I, zc), chi, self.bgs("conformal_Hz", zl),
                       sub(self.bgs("f", zl), num(1)), psi2)
        raise ValueError(s)

    def xi(self, sA, sB, xA, xB, r, c, at_zero=False, xi4=None, mu1_l4=False):
        """op_A op_B Xi_p; sA acts at tracer-1 coordinate xA, sB at xB"""
        pw = PW[sA] + PW[sB]
        cor = correlator(OP[sA], OP[sB])
        env = {X1: xA, X2: xB, C: c}
        out = []
        for m, co in sorted(cor.items()):
            if pw == 4 and m == 0:
                v = xi4
            elif at_zero and pw - m < m:
                continue     # regular correlators: the singular orders cancel (see zero_limit)
            else:
                v = self.T.DX(pw, m, r)
            out.append(mul(poly_term(co, env), v))
        return add(*out)
