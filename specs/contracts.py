"""Contracts of the callees that specs treat as opaque (assumed here, see P11/P12)."""
from dv import term as T
from dv.term import *
from dv.sym import STD
from .corr import Tables


def field_of(p):
    """(&X->f) -> (X pointer, f)"""
    if p.op == "addr" and p.args[0].op == "fld":
        l = p.args[0]
        b = l.args[0]
        if b.op == "idx" and b.args[0].op == "obj":
            return b.args[0].args[0], l.args[1]
    return None, None


def interp_spline(ex, fr, st, v, n):
    p, x = v[0], toR(v[1])
    o, f = field_of(p)
    if f == "result" and o.op == "app" and o.args[0] == "find_integral":
        _, integral, a, b, s1, s2 = o.args
        if all(t.op == "num" for t in (a, b, s1, s2)) and val(s1) == 0 and val(s2) == 0:
            return Tables(integral).V(int(val(a)), int(val(b)), x)
    return app("interp", (p, x), "R")


def interp_spline2d(ex, fr, st, v, n):
    p, x, y = v[0], toR(v[1]), toR(v[2])
    o, f = field_of(p)
    if f == "renormalization" and o.op == "app" and o.args[0] == "find_integral":
        return Tables(o.args[1]).ren(x, y)
    return app("interp2d", (p, x, y), "R")


def find_integral(ex, fr, st, v, n):
    integral = v[0]
    return app("find_integral", (integral,) + tuple(toI(t) for t in v[1:]), "P")


CORR = dict(STD)
CORR.update({
    "coffe_interp_spline": interp_spline,
    "coffe_interp_spline2d": interp_spline2d,
    "coffe_find_integral": find_integral,
})
