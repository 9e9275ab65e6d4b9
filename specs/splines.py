"""Contracts of the interpolation objects and of quadrature (common.c), by content.

A coffe_interpolation initialised during the verified run is described by what it interpolates (method, length and the two
comprehensions x(i), y(i)), so two splines built by different statements from the same data are the same function."""
from dv.term import *
from dv.sym import STD, Unsupported, Write, mk, allocate, release


def arr(ex, st, p, i, sort="R"):
    return ex.read(st, pointee(ex.padd(p, i)), sort)


def init_spline(ex, fr, st, v, n):
    """spline' interpolates (x[i], y[i]), i < n; x and y are copied"""
    s, x, y, ln, method = v[0], v[1], v[2], toI(v[3]), toI(v[4])
    sp = allocate(ex, fr, st, [ln], n)
    ex.write(st, fld(pointee(s), "spline"), sp)
    o = pointee(sp)
    ex.write(st, fld(o, "size"), ln)
    ex.write(st, fld(o, "method!"), method)
    b = ex.fresh("i", "I")
    z = num(0, "I")
    for nm, src in (("x", x), ("y", y)):
        old = ex.bounds.get(b)
        ex.bounds[b] = (z, ln)
        try:
            val = arr(ex, st, src, b)
        finally:
            del ex.bounds[b]
        p = mk("app", ("new", sp.args[1] + ":" + nm) + sp.args[2:], "P")
        ex.write(st, fld(o, nm), p)
        l = ex.canon(pointee(ex.padd(p, b)))
        k, ix = ex.absloc(l)
        st.store[k] = st.store.get(k, ()) + (Write(tuple(ix), val, TRUE, (b,), band(le(z, b), lt(b, ln)), "w", {b: (z, ln)}),)
    st.events = st.events + (("spline_init", (sp,), st.pc),)
    return num(0, "I")


def free_spline(ex, fr, st, v, n):
    sp = ex.read(st, fld(pointee(v[0]), "spline"), "P")
    st.events = st.events + (("spline_free", (sp,), st.pc),)
    return num(0, "I")


def fresh_spline(sp):
    return sp.op == "app" and sp.args[0] == "new"


def content(ex, st, sp):
    """the function represented by the gsl_spline sp"""
    if not fresh_spline(sp):
        return app("splineat", (sp,), "R")
    o = pointee(sp)
    ln = ex.simp(ex.read(st, fld(o, "size"), "I"))
    m = ex.read(st, fld(o, "method!"), "I")
    b = ex.fresh("i", "I")
    ex.bounds[b] = (num(0, "I"), ln)
    try:
        xs = ex.simp(arr(ex, st, ex.read(st, fld(o, "x"), "P"), b))
        ys = ex.simp(arr(ex, st, ex.read(st, fld(o, "y"), "P"), b))
    finally:
        del ex.bounds[b]
    return spline(ex, m, ln, b, xs, ys)


def spline(ex, method, ln, b, xs, ys):
    pr, names = ex.bind([b], app("pair", (toR(xs), toR(ys)), "R"))
    return app("spline", (method, ln, names[0]) + pr.args[1:], "R")


def interp(ex, fr, st, v, n):
    p, x = v[0], toR(v[1])
    loc = pointee(p)
    sp = ex.read(st, fld(loc, "spline"), "P")
    if fresh_spline(sp):
        return app("interp", (content(ex, st, sp), x), "R")
    return app("interp", (p, x), "R")


def quad(ex, fr, st, v, n):
    """the integral of func(., parameters) over [a, b], substituted to [0, 1]; nested integrals get distinct binders"""
    func, params, a, b = v[0], v[1], toR(v[2]), toR(v[3])
    if func.op != "func":
        raise Unsupported("integrand is not a named function")
    t = ex.fresh("t", "R")
    body = ex.call_values(fr, func.args[0], [add(a, mul(sub(b, a), t)), params], n, st.copy())
    return quadterm(ex, t, a, b, body)


def quadterm(ex, t, a, b, body):
    body, names = ex.bind([t], mul(sub(b, a), body))
    return app("quad", (1, names, body), "R")


SPL = dict(STD)
SPL.update({
    "coffe_init_spline": init_spline, "coffe_free_spline": free_spline, "coffe_interp_spline": interp,
    "coffe_integrate_1d_prec_gsl": quad, "coffe_integrate_1d_prec_double_exponential": quad,
    "gsl_sf_bessel_jl": lambda ex, fr, st, v, n: app("jl", (toI(v[0]), toR(v[1])), "R"),
    "gsl_sf_Si": lambda ex, fr, st, v, n: app("Si", (toR(v[0]),), "R"),
    "gsl_sf_coupling_3j": lambda ex, fr, st, v, n: app("w3j", tuple(toI(x) for x in v), "R"),
})
