"""Contracts of GSL as the numerical helpers of common.c use it: what is allocated, filled, evaluated and released."""
from dv.term import *
from dv.sym import STD, Unsupported, Write, mk, allocate, subterms


def ev(st, name, args):
    st.events = st.events + ((name, tuple(args), st.pc),)


def record(name, ret=None):
    def h(ex, fr, st, v, n):
        ev(st, name, v)
        return num(0, "I") if ret is None else ret(ex, fr, st, v, n)
    return h


def qag(ex, fr, st, v, n):
    """integral of F.function(., F.params) over [a, b] by the adaptive rule"""
    F, a, b, eabs, erel, limit, key, ws, res, err = v
    o = pointee(F)
    f, p = ex.read(st, fld(o, "function"), "P"), ex.read(st, fld(o, "params"), "P")
    ev(st, "qag", (f, p, toR(a), toR(b), toR(eabs), toR(erel), toI(limit), ws))
    ex.write(st, pointee(res), app("INT", (f, p, toR(a), toR(b)), "R"))
    ex.write(st, pointee(err), app("INTerr", (f, p, toR(a), toR(b)), "R"))
    return num(0, "I")


def monte(name):
    def h(ex, fr, st, v, n):
        F, lo, hi, dim, calls, rng, state, res, err = v
        o = pointee(F)
        f, p, d = ex.read(st, fld(o, "f"), "P"), ex.read(st, fld(o, "params"), "P"), ex.read(st, fld(o, "dim"), "I")
        dim = toI(dim)
        b = ex.fresh("i", "I")
        ex.bounds[b] = (num(0, "I"), dim)
        try:
            l, h = [ex.simp(ex.read(st, pointee(ex.padd(x, b)), "R")) for x in (lo, hi)]
        finally:
            del ex.bounds[b]
        ev(st, "monte", (mk("func", (name,), "P"), f, p, d, dim, toI(calls), rng, state, l, h))
        ex.write(st, pointee(res), app("MC", (f, p, dim), "R"))
        ex.write(st, pointee(err), app("MCerr", (f, p, dim), "R"))
        return num(0, "I")
    return h


def tsq(ex, fr, st, v, n):
    f, p, a, b, eabs, err, ne = v
    ev(st, "tanhsinh", (f, p, toR(a), toR(b), toR(eabs), ne))
    if err is not NULL and not (err.op == "num"):
        ex.write(st, pointee(err), app("INTerr", (f, p, toR(a), toR(b)), "R"))
    return app("INT", (f, p, toR(a), toR(b)), "R")


def alloc_of(name):
    def h(ex, fr, st, v, n):
        p = allocate(ex, fr, st, [num(0, "I")], n)
        ev(st, name, tuple(v) + (p,))
        return p
    return h


def memory(name):
    def h(ex, fr, st, v, n):
        ev(st, name, v)
        return allocate(ex, fr, st, v, n)
    return h


TOOLS = dict(STD)
for _n in ("malloc", "calloc", "coffe_malloc"):
    TOOLS[_n] = memory(_n)
for _n in ("gsl_spline_alloc", "gsl_spline2d_alloc", "gsl_interp_accel_alloc", "gsl_integration_workspace_alloc", "gsl_rng_alloc",
           "gsl_monte_plain_alloc", "gsl_monte_miser_alloc", "gsl_monte_vegas_alloc"):
    TOOLS[_n] = alloc_of(_n)
for _n in ("gsl_spline_init", "gsl_spline2d_init", "gsl_spline_free", "gsl_spline2d_free", "gsl_interp_accel_free",
           "gsl_integration_workspace_free", "gsl_rng_free", "gsl_monte_plain_free", "gsl_monte_miser_free", "gsl_monte_vegas_free"):
    TOOLS[_n] = record(_n)
TOOLS.update({
    "gsl_rng_env_setup": lambda ex, fr, st, v, n: sym("rngdefault", "P"),
    "gsl_spline_eval": lambda ex, fr, st, v, n: app("gsl_spline_eval", (v[0], toR(v[1]), v[2]), "R"),
    "gsl_spline2d_eval": lambda ex, fr, st, v, n: app("gsl_spline2d_eval", (v[0], toR(v[1]), toR(v[2]), v[3], v[4]), "R"),
    "gsl_integration_qag": qag, "gsl_monte_plain_integrate": monte("plain"), "gsl_monte_miser_integrate": monte("miser"),
    "gsl_monte_vegas_integrate": monte("vegas"),
    "gsl_sf_bessel_j1": lambda ex, fr, st, v, n: app("jl", (num(1, "I"), toR(v[0])), "R"),
    "gsl_sf_bessel_jl": lambda ex, fr, st, v, n: app("jl", (toI(v[0]), toR(v[1])), "R"),
    "tanhsinh_quad": tsq,
    "F!": lambda ex, fr, st, v, n: app("F!", (toR(v[0]), v[1]), "R"),
})
