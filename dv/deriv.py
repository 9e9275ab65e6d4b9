"""d/dx on terms (for antiderivative lemmas)."""
from .term import *
from .nf import NFError


def D(t, x):
    if t is x:
        return num(1)
    op = t.op
    if op in ("num", "sym", "load"):
        return num(0)
    a = t.args
    if op == "add":
        return add(*[D(u, x) for u in a])
    if op == "mul":
        return add(mul(D(a[0], x), a[1]), mul(a[0], D(a[1], x)))
    if op == "powi":
        return mul(num(a[1]), powi(a[0], a[1] - 1), D(a[0], x))
    if op == "inv":
        return neg(mul(D(a[0], x), powi(t, 2)))
    if op == "toR":
        return num(0)
    if op == "app":
        f, u = a[0], a[1:]
        if len(u) == 1:
            d = D(u[0], x)
            g = {"sin": lambda v: app("cos", (v,), "R"), "cos": lambda v: neg(app("sin", (v,), "R")),
                 "Si": lambda v: div(app("sin", (v,), "R"), v), "exp": lambda v: t, "log": lambda v: div(num(1), v),
                 "sqrt": lambda v: div(num(1), mul(num(2), t))}.get(f)
            if g is not None:
                return mul(g(u[0]), d)
    raise NFError("derivative of %s" % op)


def jl(l, x):
    """closed form of the spherical Bessel function of order l"""
    s, c = app("sin", (x,), "R"), app("cos", (x,), "R")
    i = div(num(1), x)
    a, b = mul(s, i), sub(mul(s, powi(i, 2)), mul(c, i))
    if l == 0:
        return a
    for k in range(1, l):
        a, b = b, sub(mul(num(2 * k + 1), i, b), a)
    return b
