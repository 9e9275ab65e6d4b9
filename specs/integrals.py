"""Contracts of the integrals of the power spectrum (integrals.c)."""
from dv import term as T
from dv.sym import Write, Unsupported, allocate
from dv.term import *
from . import splines as S

F = T.Fraction
INT, HALF = "COFFE_INTEGER", "COFFE_HALF_INTEGER"


def comprehension(ex, st, p, n, f):
    """p[i] = f(i) for i < n"""
    b = ex.fresh("i", "I")
    z = num(0, "I")
    ex.bounds[b] = (z, n)
    try:
        v = f(b)
    finally:
        del ex.bounds[b]
    k, ix = ex.absloc(ex.canon(pointee(ex.padd(p, b))))
    st.store[k] = st.store.get(k, ()) + (Write(tuple(ix), v, TRUE, (b,), band(le(z, b), lt(b, n)), "w", {b: (z, n)}),)


def samples(ex, st, x, y, n, method):
    """the function through the points (x[i], y[i]), i < n"""
    b = ex.fresh("i", "I")
    ex.bounds[b] = (num(0, "I"), n)
    try:
        xs, ys = S.arr(ex, st, x, b), S.arr(ex, st, y, b)
    finally:
        del ex.bounds[b]
    return S.spline(ex, method, n, b, ex.simp(xs), ex.simp(ys))


def twofast(ex, fr, st, v, n):
    """oy[i] = integral of k^2 f(k) j_l(k ox[i])/(k ox[i])^nu / (2 pi^2) at ox[i] = r0 (kmax/kmin)^(i/N), f through the given points"""
    ox, oy, N, ix, iy, ln, l, nu, r0, k0, kmin, kmax = v[:12]
    N, ln = toI(N), toI(ln)
    f = samples(ex, st, ix, iy, ln, sym("cspline", "I"))
    a = tuple(toR(x) for x in (l, nu, r0, k0, kmin, kmax))
    comprehension(ex, st, ox, N, lambda i: app("TFx", (N,) + a[2:] + (i,), "R"))
    comprehension(ex, st, oy, N, lambda i: app("TF", (f, N) + a + (i,), "R"))
    return num(0, "I")


def renormalizable(ex, fr, st, v, n):
    """fresh arrays with r = 0, the small separations and the FFTlog grid, and r^(max(n-l,0)) I^n_l at them"""
    px, py, N, plen, spec, a, b, sa, sb, kmin, kmax = v
    what = (toI(N), spec) + tuple(toI(x) for x in (a, b, sa, sb)) + (toR(kmin), toR(kmax))
    ln = app("RENn", (toI(N),), "I")
    ex.write(st, pointee(plen), ln)
    for p, nm in ((px, "x"), (py, "y")):
        q = allocate(ex, fr, st, [ln], n)
        q = mk_suffix(q, ":" + nm)
        ex.write(st, pointee(p), q)
        comprehension(ex, st, q, ln, lambda i: app("REN" + nm, what + (i,), "R"))
    return num(0, "I")


def mk_suffix(q, s):
    from dv.term import mk
    return mk("app", ("new", q.args[1] + s) + q.args[2:], "P")


def new_spline(ex, fr, st, v, n):
    ex.write(st, fld(pointee(v[0]), "spline"), NULL)
    return num(0, "I")


def init2d(ex, fr, st, v, n):
    s, x, y, zz, nx, ny, meth = v
    nx, ny = toI(nx), toI(ny)
    z = num(0, "I")
    a, b = ex.fresh("a", "I"), ex.fresh("b", "I")
    ex.bounds.update({a: (z, nx), b: (z, ny)})
    try:
        at = lambda p, i, s="R": ex.simp(ex.read(st, pointee(ex.padd(p, i)), s))
        con, names = ex.bind([a, b], app("trip", (at(x, a), at(y, b), at(zz, add(mul(b, nx), a))), "R"))
    finally:
        del ex.bounds[a], ex.bounds[b]
    ex.write(st, fld(pointee(s), "content!"), app("spline2d", (toI(meth), nx, ny) + names + con.args[1:], "R"))
    return num(0, "I")


def interp2d(ex, fr, st, v, n):
    return app("interp2d", (ex.read(st, fld(pointee(v[0]), "content!"), "R"), toR(v[1]), toR(v[2])), "R")


def maxarr(ex, fr, st, v, n):
    p, ln = v[0], toI(v[1])
    b = ex.fresh("i", "I")
    ex.bounds[b] = (num(0, "I"), ln)
    try:
        x = ex.simp(S.arr(ex, st, p, b))
    finally:
        del ex.bounds[b]
    x, names = ex.bind([b], x)
    return app("maxarr", (ln, names, x), "R")


INTG = dict(S.SPL)
for k in list(INTG):
    pass
INTG.update({
    "twofast_1bessel": twofast,
    "realloc": lambda ex, fr, st, v, n: v[0],
    "coffe_new_spline": new_spline,
    "coffe_new_spline2d": lambda ex, fr, st, v, n: ex.write(st, fld(pointee(v[0]), "content!"), num(0)) or num(0, "I"),
    "coffe_free_spline2d": lambda ex, fr, st, v, n: num(0, "I"),
    "coffe_init_spline2d": init2d, "coffe_interp_spline2d": interp2d,
    "coffe_max_array_double": maxarr,
    "gsl_sf_bessel_Jn": lambda ex, fr, st, v, n: app("Jn", (toI(v[0]), toR(v[1])), "R"),
    "gsl_sf_bessel_J0": lambda ex, fr, st, v, n: app("Jn", (num(0, "I"), toR(v[0])), "R"),
    "gsl_sf_bessel_j0": lambda ex, fr, st, v, n: app("jl", (num(0, "I"), toR(v[0])), "R"),
    "gsl_sf_gamma": lambda ex, fr, st, v, n: app("gamma", (toR(v[0]),), "R"),
})
INIT = dict(INTG)
INIT["coffe_integrals_renormalizable"] = renormalizable


# ---- what the integrals are ---------------------------------------------------------------------------

def orders(ex, tu, n, l, sn, sl):
    half = lambda x, s: ite(eq(s, num(tu.enumname[HALF], "I")), div(toR(x), num(2)), toR(x))
    return half(n, sn), half(l, sl)


def bessel(l, half, x):
    """j_l(x); for half-integer orders j_{l/2}(x) = sqrt(pi/(2 x)) J_{(l+1)/2}(x)"""
    if half:
        return mul(app("sqrt", (div(PI, num(2)),), "R"), app("Jn", (idiv(add(l, num(1, "I")), num(2, "I")), x), "R"), cpow(x, num(F(-1, 2))))
    return app("jl", (l, x), "R")
