"""The FFTlog transforms (twofast.c, twobessel.c, utils.c) against their contracts; used by P08 and P11."""
import os
from fractions import Fraction
from dv.cast import load
from dv.sym import Unsupported, subterms, subst
from dv.prove import int_valid, real_valid
from dv.term import *
from specs.fftlog import *
from specs import fftlog as SF
from replay import base
from replay.build import build
from .common import attempt, fallback
from .toolbox import Run, first

BACK = "symbolic execution against FFTW and complex-function contracts + nf"
LANCZOS = ["0.99999999999980993227684700473478", "676.520368121885098567009190444019", "-1259.13921672240287047156078755283",
           "771.3234287776530788486528258894", "-176.61502916214059906584551354", "12.507343278686904814458936853",
           "-0.13857109526572011689554707", "9.984369578019570859563e-6", "1.50563273514931155834e-7"]
COEF = [sym("lanczos%d" % i) for i in range(9)]
ROOTPI = Fraction("1.7724538509055160272981674833411451827975494561224")
KNOWN = [(Fraction(x), s) for x, s in zip(LANCZOS, COEF)] + [(ROOTPI, app("sqrt", (PI,), "R"))]
I_ = lambda k: num(k, "I")
R_ = lambda a, b=1: num(Fraction(a, b))


def constants(t):
    """decimal constants within a relative 1e-13 of a known one are that constant"""
    m = {}
    for x in subterms(t):
        if x.op == "num" and x.sort == "R":
            for v, s in KNOWN:
                if abs(x.args[0] - v) <= abs(v) * Fraction(1, 10 ** 13):
                    m[x] = s
                elif abs(x.args[0] + v) <= abs(v) * Fraction(1, 10 ** 13):
                    m[x] = neg(s)
    return subst(t, m) if m else t


def settle(ex, t, memo=None):
    """decide the conditions on indices inside the term"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term) or not t.args:
        return t
    r = memo.get(t)
    if r is None:
        if t.op == "ite":
            c = ex.simpb(t.args[0])
            r = settle(ex, t.args[1], memo) if c is TRUE else settle(ex, t.args[2], memo) if c is FALSE else \
                ite(c, settle(ex, t.args[1], memo), settle(ex, t.args[2], memo))
        else:
            na = [settle(ex, a, memo) for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else subst(mk(t.op, na, t.sort), {})
        memo[t] = r
    return r


class Case(Run):
    def same(self, a, b, what="value"):
        return Run.same(self, settle(self.ex, self.ex.simp(a)), settle(self.ex, self.ex.simp(b)), what)


LG = dict(FFT, lngamma_lanczos=one("LG"), twofast_lgamma=one("LG"))


def lngamma(fn, tu):
    """log Gamma by the Lanczos series (g = 7, nine terms) for Re z >= 1/2, by reflection below"""
    z = sym("z")
    R = Run(fn, [z], tus=(tu,), contracts=LG, recursive=True)
    x = COEF[0]
    for i in range(1, 9):
        x = add(x, div(COEF[i], add(z, R_(i - 1))))
    t = add(z, R_(13, 2))
    series = add(div(app("log", (mul(R_(2), PI),), "R"), R_(2)), mul(sub(z, R_(1, 2)), app("clog", (t,), "R")), neg(t), app("clog", (x,), "R"))
    refl = sub(sub(app("log", (PI,), "R"), app("clog", (app("csin", (mul(PI, z),), "R"),), "R")), app("LG", (sub(R_(1), z),), "R"))
    return R.same(constants(R.v), ite(lt(app("creal", (z,), "R"), R_(1, 2)), refl, series), "log Gamma")


def gl():
    l, nu, eta, out, N = sym("l"), sym("nu"), sym("eta", "P"), sym("gl", "P"), sym("N", "I")
    R = Run("g_l", [l, nu, eta, out, N], tus=("utils.c",), contracts=LG, pos=(N,))
    i = R.ex.fresh("i", "I")
    R.ex.bounds[i] = (I_(0), N)
    z = add(nu, mul(IMAG, SF.at(R.ex, R.st, eta, i)))
    got = SF.at(R.ex, R.st, out, i)
    lg = lambda a: app("LG", (div(a, R_(2)),), "R")
    want = app("cexp", (add(mul(z, app("log", (R_(2),), "R")), lg(add(l, z)), neg(lg(sub(add(R_(3), l), z)))),), "R")
    return R.same(got, want, "g_l[i]")


def window():
    """column h2-j gets W(j/Nc2) for j <= Nc2, rows h1-i and h1+1+i get W(i/Nc1) for i <= Nc1, everything else is kept"""
    out, w, h1, h2 = sym("out", "P"), sym("w"), sym("h1", "I"), sym("h2", "I")
    T = [toI(mul(toR(h), w)) for h in (h1, h2)]

    def pre(ex, st):
        for h, t in zip((h1, h2), T):
            ex.hyps.extend([(I_(0), t), (t, sub(h, I_(1))), (I_(2), h)])
            ex.unsigned_terms.add(t)
    R = Case("c_window_2d", [out, w, h1, h2], tus=("utils.c",), contracts=FFT, pre=pre, pos=(h1, h2))
    ex = R.ex
    M = add(h2, I_(1))
    W = lambda k, t: sub(div(toR(k), toR(t)), mul(div(R_(1), mul(R_(2), PI)), app("sin", (div(mul(R_(2), toR(k), PI), toR(t)),), "R")))
    for rows in ("middle", "beyond", "low", "high"):
        for cols in ("kept", "cut"):
            a, b, u = ex.fresh("a", "I"), ex.fresh("b", "I"), None
            save = dict(ex.bounds)
            if rows == "middle":
                row, dom, fa = sub(h1, a), (I_(0), add(T[0], I_(1))), W(a, T[0])
            elif rows == "beyond":
                row, dom, fa = add(h1, I_(1), a), (I_(0), add(T[0], I_(1))), W(a, T[0])
            elif rows == "low":
                row, dom, fa = a, (I_(0), sub(h1, T[0])), R_(1)
            else:
                row, dom, fa = a, (add(h1, I_(2), T[0]), mul(I_(2), h1)), R_(1)
            if cols == "cut":
                col, cdom, fb = sub(h2, b), (I_(0), add(T[1], I_(1))), W(b, T[1])
            else:
                col, cdom, fb = b, (I_(0), sub(h2, T[1])), R_(1)
            ex.bounds[a], ex.bounds[b] = dom, cdom
            try:
                ix = add(mul(row, M), col)
                got = SF.at(ex, R.st, out, ix)
                old = ex.base(ex.canon(pointee(ex.padd(out, ix))), "R")
                bad = R.same(got, mul(old, fa, fb), "rows %s, columns %s" % (rows, cols))
            finally:
                ex.bounds = save
            if bad:
                return bad
    return None


def memory_ok(R, sizes):
    """what is allocated is of the size used, released once with nothing left over, and not before its last use"""
    al = [e[1] for e in R.st.events if e[0] == "alloc"]
    fr = [e[1][0] for e in R.st.events if e[0] == "free"]
    pl = [e[1][0] for e in R.st.events if e[0] == "plan"]
    de = [e[1][0] for e in R.st.events if e[0] == "destroy"]
    for p in {a[0] for a in al} | set(fr):
        if fr.count(p) != 1:
            return "an array is released %d times" % fr.count(p)
    for p in set(pl) | set(de):
        if de.count(p) != 1 or pl.count(p) != 1:
            return "a plan is released %d times" % de.count(p)
    bad = extents(R)
    if bad:
        return bad
    # an array taking part in a transform lives until the transform ran
    names = [e[0] for e in R.st.events]
    for j, e in enumerate(R.st.events):
        if e[0] == "plan":
            run = [i for i, x in enumerate(R.st.events) if x[0] == "destroy" and x[1][0] is e[1][0]]
            for i, x in enumerate(R.st.events):
                if x[0] == "free" and x[1][0] in e[1][-2:] and j < i < run[0]:
                    return "an array is released before its transform ran"
    return None


def factors(t):
    return [y for x in t.args for y in factors(x)] if t.op == "mul" else [t]


def extents(R):
    """every element written by a loop lies inside the memory its array was given"""
    ex = R.ex
    for e in R.st.events:
        if e[0] != "alloc":
            continue
        p, sz = e[1][:2]
        sz = ex.simp(sz)
        parts = factors(sz)
        unit = [x for x in parts if x.op == "sym" and x.args[0].startswith("sizeof<")]
        if len(unit) != 1:
            return "%s bytes are not a number of elements" % str(sz)[:80]
        n = mul(I_(1), *[x for x in parts if x is not unit[0]])
        for k, ws in R.st.store.items():
            if k[0] != ("obj", tuple(p.args)):
                continue
            for w in ws:
                if len(w.idx) != 1 or not w.vars:
                    continue
                hi = {}
                for d in (w.dom.args if w.dom.op == "and" else (w.dom,)):
                    if d.op == "lt" and d.args[0] in w.vars:
                        hi[d.args[0]] = d.args[1]
                if len(hi) != len(w.vars):
                    return "a loop without an upper end"
                last = subst(w.idx[0], {v: sub(h, I_(1)) for v, h in hi.items()})
                if not ex.same(ex.simp(add(last, I_(1))), n):
                    r = int_valid(implies(band(*[le(I_(1), h) for h in hi.values()]), lt(last, n)))
                    if r is not None:
                        return "%s elements written into %s" % (str(add(last, I_(1)))[:60], str(n)[:60])
    return None


def capacity(R, cases):
    """cases: (pointer, number of elements, bytes per element)"""
    for p, n, unit in cases:
        al = [e[1] for e in R.st.events if e[0] == "alloc" and e[1][0] is p]
        if not al:
            continue
        sz = al[0][1]
        w = R.ex.simp(sz)
        if not R.ex.same(w, mul(sym(unit, "I"), n)):
            return "an array of %s elements gets %s bytes" % (n, str(w)[:80])
    return None


def ffts(R, *kinds):
    e = [x[1] for x in R.st.events if x[0] == "fft"]
    got = [x[0].args[0] for x in e]
    if got != list(kinds):
        raise Unsupported("transforms: %s" % ", ".join(got))
    for x in R.st.events:
        if x[0] in ("fft", "input") and x[2] is not TRUE and R.ex.decide(x[2], R.st) is not TRUE:
            raise Unsupported("a transform runs only if %s" % str(x[2])[:100])
    return e


def two(part):
    """N1 = 2 h1, N2 = 2 h2"""
    h1, h2 = sym("h1", "I"), sym("h2", "I")
    k1, k2, f, cfg, r1, r2, res = [sym(x, "P") for x in ("k1", "k2", "f", "cfg", "r1", "r2", "res")]
    N1, N2, M = mul(I_(2), h1), mul(I_(2), h2), add(h2, I_(1))

    def pre(ex, st):
        ex.hyps.extend([(I_(1), h1), (I_(1), h2)])
    R = Case("two_sph_bessel", [k1, k2, f, N1, N2, cfg, r1, r2, res], tus=("twobessel.c",),
            contracts=dict(FFT, g_l=SF.g_l, c_window_2d=SF.window2d), pre=pre, pos=(h1, h2))
    ex = R.ex
    at = lambda p, i, s="R": SF.at(ex, R.st, p, i, s)
    c = lambda n: toR(ex.read(R.st, fld(pointee(cfg), n), "R"))
    fw, bw = ffts(R, "r2c_2d", "c2r_2d")
    for e in (fw, bw):
        w = first(R.same(e[1], N1, "first size of the transform"), R.same(e[2], N2, "second size of the transform"))
        if w:
            return w
    a, b = ex.fresh("a", "I"), ex.fresh("b", "I")
    save = dict(ex.bounds)
    try:
        if part == "input":
            ex.bounds.update({a: (I_(0), N1), b: (I_(0), N2)})
            got = subst(fw[5], {fw[3]: a, fw[4]: b})
            want = div(div(at(at(f, a, "P"), b), app("pow", (at(k1, a), c("nu1")), "R")), app("pow", (at(k2, b), c("nu2")), "R"))
            return R.same(got, want, "input of the transform at (a, b)")
        if part == "separations":
            for r, k, N in ((r1, k1, N1), (r2, k2, N2)):
                ex.bounds[a] = (I_(0), N)
                w = R.same(at(r, a), div(R_(1), at(k, sub(sub(N, I_(1)), a))), "separation a")
                if w:
                    return w
            return None
        if part == "spectrum":
            d = lambda k: app("log", (div(at(k, I_(1)), at(k, I_(0))),), "R")
            w = app("W2", (c("c_window_width"), h1, h2, a, b), "R")
            for half in ("lower", "upper"):
                ex.bounds.update({a: (I_(0), add(h1, I_(1))) if half == "lower" else (add(h1, I_(1)), N1), b: (I_(0), M)})
                m = toR(a) if half == "lower" else sub(toR(a), toR(N1))        # the signed frequency of row a
                e1 = div(mul(R_(2), PI, m), mul(d(k1), toR(N1)))
                e2 = div(mul(R_(2), PI, toR(b)), mul(d(k2), toR(N2)))
                ph = lambda k, N, e: app("cpow", (mul(at(k, I_(0)), div(R_(1), at(k, sub(N, I_(1))))), neg(mul(IMAG, e))), "R")
                g1 = app("GL", (c("l1"), add(c("nu1"), mul(IMAG, e1))), "R") if half == "lower" else \
                    conj(app("GL", (c("l1"), sub(c("nu1"), mul(IMAG, e1))), "R"))
                g2 = app("GL", (c("l2"), add(c("nu2"), mul(IMAG, e2))), "R")
                want = conj(mul(mul(app("DFT", (0, a, b), "R"), w), mul(ph(k2, N2, e2), g2), mul(ph(k1, N1, e1), g1)))
                bad = R.same(subst(bw[5], {bw[3]: a, bw[4]: b}), want, "spectrum, %s rows" % half)
                if bad:
                    return bad
            return None
        if part == "result":
            ex.bounds.update({a: (I_(0), N1), b: (I_(0), N2)})
            want = div(mul(app("RDFT", (1, a, b), "R"), PI),
                       mul(R_(16), toR(N1), toR(N2), mul(app("pow", (at(r2, b), c("nu2")), "R"), app("pow", (at(r1, a), c("nu1")), "R"))))
            return R.same(at(at(res, a, "P"), b), want, "result at (a, b)")
        pl = [e[1] for e in R.st.events if e[0] == "plan"]
        return first(memory_ok(R, None),
                     capacity(R, [(pl[0][-2], mul(N1, N2), "sizeof<double>"), (pl[0][-1], mul(N1, M), "sizeof<fftw_complex>"),
                                  (pl[1][-2], mul(N1, M), "sizeof<fftw_complex>"), (pl[1][-1], mul(N1, N2), "sizeof<double>")]))
    finally:
        ex.bounds = save


def mql():
    """2^(n-1) sqrt(pi) Gamma((1+l+n)/2) / Gamma((2+l-n)/2) alpha^(it-q), n = q - 1 - it"""
    t, q, l, al = [sym(x) for x in ("t", "q", "l", "alpha")]
    R = Run("twofast_mql", [t, q, l, al], tus=("twofast.c",), contracts=LG)
    n = sub(sub(q, R_(1)), mul(IMAG, t))
    lg = lambda a: app("LG", (div(a, R_(2)),), "R")
    cp = lambda a, b: app("cpow", (a, b), "R")
    want = mul(cp(R_(2), sub(n, R_(1))), app("sqrt", (PI,), "R"), app("cexp", (sub(lg(add(R_(1), l, n)), lg(sub(add(R_(2), l), n))),), "R"),
               cp(al, sub(mul(IMAG, t), q)))
    return R.same(constants(R.v), want, "multiplier")


def strip():
    """whenever some exponent lies in the strip max(-0.0001 - nu, -l) < q < min(3.9 - nu, 2), the chosen one does"""
    l, nu = sym("l"), sym("nu")
    R = Run("twofast_selectqnu", [l, nu], tus=("twofast.c",), contracts=FFT)
    lo = [sub(num(Fraction(-1, 10000)), nu), neg(l)]
    hi = [sub(num(Fraction(39, 10)), nu), R_(2)]
    some = band(*[lt(a, b) for a in lo for b in hi])
    goal = band(*([lt(a, R.v) for a in lo] + [lt(R.v, b) for b in hi]))
    r = real_valid(implies(some, goal))
    return None if r is None else "the chosen exponent %s can leave the strip" % str(R.v)[:120]


def taper():
    """0 outside (xmin, xmax), 1 on [xleft, xright], u - sin(2 pi u)/(2 pi) on the flanks, u the relative position"""
    x = [sym(n) for n in ("v", "xmin", "xmax", "xleft", "xright")]
    v, lo, hi, le_, ri = x

    R = Run("twofast_window", x, tus=("twofast.c",), contracts=FFT)
    fl = lambda u: sub(u, div(app("sin", (mul(R_(2), PI, u),), "R"), mul(R_(2), PI)))
    left, right = fl(div(sub(v, lo), sub(le_, lo))), fl(div(sub(hi, v), sub(hi, ri)))
    asm = [le(lo, le_), le(le_, ri), le(ri, hi)]
    cases = [("below", [le(v, lo)], R_(0)), ("above", [le(hi, v)], R_(0)), ("left flank", [lt(lo, v), lt(v, le_), lt(v, hi)], left),
             ("right flank", [lt(ri, v), lt(v, hi), lt(lo, v)], right), ("plateau", [le(le_, v), le(v, ri), lt(lo, v), lt(v, hi)], R_(1))]
    for nm, c, want in cases:
        asm1 = band(*(asm + c))

        def under(t):
            if not isinstance(t, Term) or not t.args:
                return t
            if t.op == "ite":
                if real_valid(implies(asm1, t.args[0])) is None:
                    return under(t.args[1])
                if real_valid(implies(asm1, bnot(t.args[0]))) is None:
                    return under(t.args[2])
            return subst(mk(t.op, [under(a) for a in t.args], t.sort), {})
        bad = R.same(under(R.v), want, "window, %s," % nm)
        if bad:
            return bad
    return None


def spectrum(odd):
    """output[i] = W(x[N/2-1+i]) conj(DFT(i)) / L of the tapered, biased spline"""
    h = sym("h", "I")
    N = add(mul(I_(2), h), I_(odd))
    y, sp, acc = sym("y", "P"), sym("sp", "P"), sym("acc", "P")
    q, k0, lo, hi = [sym(x) for x in ("q", "k0", "kmin", "kmax")]

    def pre(ex, st):
        ex.hyps.append((I_(0), h))
    R = Case("twofast_fft_input", [y, N, sp, acc, q, k0, lo, hi, sym("flag", "I")], tus=("twofast.c",), pre=pre,
            contracts=dict(FFT, twofast_window=lambda ex, fr, st, v, n: app("WIN", tuple(toR(x) for x in v), "R")), pos=(h,))
    ex = R.ex
    (e,) = ffts(R, "r2c_1d")
    i = ex.fresh("i", "I")
    pw = lambda e: app("pow", (div(hi, lo), e), "R")
    x = lambda j: mul(k0, pw(div(toR(j), toR(N))))
    last = x(sub(N, I_(1)))
    x46 = lambda s: app("exp", (num(Fraction(46 * s, 100)),), "R")
    win = lambda v: app("WIN", (v, lo, last, mul(x46(1), lo), mul(x46(-1), last)), "R")
    save = dict(ex.bounds)
    try:
        ex.bounds[i] = (I_(0), N)
        got = subst(e[3], {e[2]: i})
        want = mul(pw(div(mul(sub(R_(3), q), toR(i)), toR(N))), app("gsl_spline_eval", (sp, x(i), acc), "R"), win(x(i)))
        bad = first(R.same(e[1], N, "size"), R.same(got, want, "input of the transform"))
        if bad:
            return bad
        ex.bounds[i] = (I_(0), add(h, I_(1)))
        L = div(mul(R_(2), PI, toR(N)), app("log", (div(hi, lo),), "R"))
        want = div(mul(win(x(add(sub(h, I_(1)), i))), app("conj", (app("DFT", (0, i), "R"),), "R")), L)
        pl = [e_[1] for e_ in R.st.events if e_[0] == "plan"]
        return first(R.same(SF.at(ex, R.st, y, i), want, "spectrum"), memory_ok(R, None),
                     capacity(R, [(pl[0][-2], N, "sizeof<double>"), (pl[0][-1], add(h, I_(1)), "sizeof<fftw_complex>")]))
    finally:
        ex.bounds = save


def one_bessel(flag, odd):
    """x[i] = r0 (kmax/kmin)^(i/N); y[i] = k0^3 (kmax/kmin)^(-(q+nu) i/N) / (pi (r0 k0)^nu log(kmax/kmin)) times the inverse transform of
    spectrum(i) M(2 pi i/log(kmax/kmin), q, l, k0 r0)"""
    h = sym("h", "I")
    N = add(mul(I_(2), h), I_(odd))
    ox, oy, ix, iy, ln = sym("ox", "P"), sym("oy", "P"), sym("ix", "P"), sym("iy", "P"), sym("ln", "I")
    l, nu, r0, k0, lo, hi = [sym(x) for x in ("l", "nu", "r0", "k0", "kmin", "kmax")]

    def inp(ex, fr, st, v, n):
        ev(st, "input", tuple(v))
        i = ex.fresh("i", "I")
        region(ex, st, v[0], i, (i,), (add(h, I_(1)),), app("SPEC", (i,), "R"))

    def pre(ex, st):
        ex.hyps.append((I_(0), h))
    R = Case("twofast_1bessel", [ox, oy, N, ix, iy, ln, l, nu, r0, k0, lo, hi, I_(flag)], tus=("twofast.c",), pre=pre, pos=(h,),
            contracts=dict(FFT, twofast_fft_input=inp, twofast_mql=lambda ex, fr, st, v, n: app("MQL", tuple(toR(x) for x in v), "R"),
                           twofast_selectqnu=lambda ex, fr, st, v, n: app("QNU", tuple(toR(x) for x in v), "R")))
    ex = R.ex
    (e,) = ffts(R, "c2r_1d")
    a = R.one("input")
    t = R.one("gsl_spline_alloc")
    ini = R.one("gsl_spline_init")
    q = app("QNU", (l, nu), "R")
    bad = first(R.same(toI(a[1]), N, "size of the transform"), R.same(a[2], t[-1], "spline"), R.same(toR(a[4]), add(q, nu), "bias"),
                R.same(toR(a[5]), k0, "k0"), R.same(toR(a[6]), lo, "kmin"), R.same(toR(a[7]), hi, "kmax"),
                R.same(ini[0], t[-1], "initialised spline"), R.same(ini[1], ix, "abscissae"), R.same(ini[2], iy, "ordinates"),
                R.same(toI(ini[3]), ln, "length"), R.same(toI(t[1]), ln, "size"),
                R.same(t[0], ex.read(R.st, var("global:gsl_interp_cspline"), "P"), "interpolation type"),
                R.order("gsl_spline_alloc", "gsl_spline_init", "input", "gsl_spline_free"), R.same(e[1], N, "size"))
    if bad:
        return bad
    i = ex.fresh("i", "I")
    G = app("log", (div(hi, lo),), "R")
    pw = lambda e: app("pow", (div(hi, lo), e), "R")
    save = dict(ex.bounds)
    try:
        ex.bounds[i] = (I_(0), add(h, I_(1)))
        want = mul(app("SPEC", (i,), "R"), app("MQL", (div(mul(R_(2), PI, toR(i)), G), q, l, mul(k0, r0)), "R"))
        bad = R.same(subst(e[3], {e[2]: i}), want, "spectrum")
        if bad:
            return bad
        ex.bounds[i] = (I_(0), N)
        pre = div(mul(powi(k0, 3), pw(neg(div(mul(add(q, nu), toR(i)), toR(N))))), mul(PI, app("pow", (mul(r0, k0), nu), "R"), G))
        pl = [e_[1] for e_ in R.st.events if e_[0] == "plan"]
        return first(R.same(SF.at(ex, R.st, ox, i), mul(r0, pw(div(toR(i), toR(N)))), "x[i]"),
                     R.same(SF.at(ex, R.st, oy, i), mul(app("RDFT", (0, i), "R"), pre), "y[i]"), memory_ok(R, None),
                     capacity(R, [(pl[0][-2], add(h, I_(1)), "sizeof<fftw_complex>"), (pl[0][-1], N, "sizeof<double>"),
                                  (a[0], add(h, I_(1)), "sizeof<fftw_complex>")]))
    finally:
        ex.bounds = save


GROUPS = {
    "twobessel": [("lngamma_lanczos: Lanczos series, reflection below 1/2", lambda: lngamma("lngamma_lanczos", "utils.c")),
                  ("g_l: 2^z Gamma((l+z)/2) / Gamma((3+l-z)/2) at z = nu + i eta", gl),
                  ("c_window_2d: the high-frequency taper of rows and columns, nothing else changed", window)] +
                 [("two_sph_bessel: %s" % p, lambda p=p: two(p)) for p in ("input", "separations", "spectrum", "result", "memory")],
    "twofast": [("twofast_lgamma: Lanczos series, reflection below 1/2", lambda: lngamma("twofast_lgamma", "twofast.c")),
                ("twofast_mql: the Mellin transform of the spherical Bessel function", mql),
                ("twofast_selectqnu: an exponent in the strip of convergence", strip),
                ("twofast_window: the taper, defined for every argument", taper),
                ("twofast_fft_input: spectrum, N even", lambda: spectrum(0)), ("twofast_fft_input: spectrum, N odd", lambda: spectrum(1))] +
               [("twofast_1bessel: N %s, planner %d" % ("odd" if o else "even", f), lambda f=f, o=o: one_bessel(f, o)) for f in range(4) for o in (0, 1)],
}

def transforms(c, scratch, groups):
    opened = []
    for g in groups:
        c.function({"twobessel": "two_sph_bessel, g_l, lngamma_lanczos, c_window_2d", "twofast": "twofast_1bessel, twofast_fft_input, twofast_mql, "
                    "twofast_lgamma, twofast_selectqnu, twofast_window"}[g], "input, spectrum, multiplier and output of the FFTlog transform; its memory")
        for nm, f in GROUPS[g]:
            if not attempt(c, nm, f, BACK):
                opened.append(nm)
    if not opened:
        return
    d = os.path.join(scratch, "fftlog")
    os.makedirs(d, exist_ok=True)

    def replay():
        return base.run("fftlog", {"lib": build(d, shims=("shim.c",)), "seed": c.seed, "groups": groups}, timeout=300)
    fallback(c, opened, replay, "compiled transforms against direct evaluation")
