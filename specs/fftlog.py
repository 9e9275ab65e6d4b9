"""Contracts of the complex functions and of FFTW, as the FFTlog transforms (twofast.c, twobessel.c, utils.c) use them.

Complex numbers are elements of one commutative field that contains the reals and `iunit`; the complex functions are
uninterpreted on it, conj is the ring homomorphism that fixes the reals and sends iunit to -iunit."""
from fractions import Fraction
from dv.sym import Unsupported, Write, allocate, mk
from dv.term import *
from .toolbox import TOOLS, ev

COMPLEX = ("cpow", "cexp", "clog", "csin", "csqrt", "conj", "LG", "GL", "MQL", "DFT", "CIN", "carg", "SPEC")
LIMIT = {"FFTW_ESTIMATE": 64}


def is_complex(t, cx=()):
    """may the value be outside the reals: an atom of it is a complex function, iunit, or declared complex"""
    if t is IMAG or t in cx:
        return True
    if t.op == "app":
        return t.args[0] in COMPLEX
    if t.op in ("add", "mul", "inv", "powi", "ite"):
        return any(is_complex(x, cx) for x in t.args if isinstance(x, Term) and x.sort == "R")
    return False


def conj(t, cx=()):
    if not is_complex(t, cx):
        return t
    if t is IMAG:
        return neg(IMAG)
    if t.op == "add":
        r = num(0)
        for x in t.args:
            r = add(r, conj(x, cx))
        return r
    if t.op == "mul":
        return mul(conj(t.args[0], cx), conj(t.args[1], cx))
    if t.op == "inv":
        return mk("inv", (conj(t.args[0], cx),), "R")
    if t.op == "powi":
        return powi(conj(t.args[0], cx), t.args[1])
    if t.op == "ite":
        return ite(t.args[0], conj(t.args[1], cx), conj(t.args[2], cx))
    if t.op == "app" and t.args[0] == "conj":
        return t.args[1]
    return app("conj", (t,), "R")


def part(name):
    def h(ex, fr, st, v, n):
        t = toR(v[0])
        if not is_complex(t, getattr(ex, "complex", ())) and name != "creal" and t.op == "num":
            return num(0)
        return app(name, (t,), "R")
    return h


def one(name):
    return lambda ex, fr, st, v, n: app(name, (toR(v[0]),), "R")


def at(ex, st, p, i, s="R"):
    return ex.simp(ex.read(st, pointee(ex.padd(p, i)), s))


def region(ex, st, p, size, vars, dom, val):
    """p[size(vars)] = val for all vars in dom"""
    k, ix = ex.absloc(ex.canon(pointee(ex.padd(p, size))))
    z = num(0, "I")
    st.store[k] = st.store.get(k, ()) + (Write(tuple(ix), val, TRUE, tuple(vars), band(*[band(le(z, x), lt(x, n)) for x, n in zip(vars, dom)]),
                                               "w", {x: (z, n) for x, n in zip(vars, dom)}),)


def havoc(ex, st, p, n):
    """the whole object p points to has unknown content"""
    k, ix = ex.absloc(ex.canon(pointee(p)))
    st.store[k] = (Write((), ex.fresh("unknown").args[0], TRUE, (), TRUE, "havoc"),)


def plan(kind):
    def h(ex, fr, st, v, n):
        dims = v[:2] if kind.endswith("2d") else v[:1]
        src, dst, flag = v[-3:]
        dims = tuple(toI(d) for d in dims)
        p = allocate(ex, fr, st, [num(0, "I")], n)
        ev(st, "plan", (p, mk("func", (kind,), "P")) + dims + (src, dst))
        if not ex.same(toI(flag), num(LIMIT["FFTW_ESTIMATE"], "I")):
            havoc(ex, st, src, None)        # any other planner runs the transform on the arrays
            havoc(ex, st, dst, None)
        return p
    return h


def execute(ex, fr, st, v, n):
    """the transform of what the input array holds now; a complex-to-real transform destroys its input"""
    es = [e for e in st.events if e[0] == "plan" and e[1][0] is v[0]]
    if len(es) != 1:
        raise Unsupported("%d plans for one execution" % len(es))
    if [e for e in st.events if e[0] == "destroy" and e[1][0] is v[0]]:
        raise Unsupported("a destroyed plan is executed")
    kind, a = es[0][1][1].args[0], es[0][1][2:]
    dims, src, dst = a[:-2], a[-2], a[-1]
    back = kind.startswith("c2r")
    half = lambda d: add(idiv(d, num(2, "I")), num(1, "I"))
    full = list(dims)
    hermit = list(dims[:-1]) + [ex.simp(half(dims[-1]))]
    dims_in, dims_out = (hermit, full) if back else (full, hermit)
    flat = lambda ix, dm: ix[0] if len(ix) == 1 else add(mul(ix[0], dm[1]), ix[1])
    b = [ex.fresh("k", "I") for _ in dims]
    z = num(0, "I")
    ex.bounds.update({x: (z, d) for x, d in zip(b, dims_in)})
    try:
        val = at(ex, st, src, flat(b, dims_in))
    finally:
        for x in b:
            del ex.bounds[x]
    no = len([e for e in st.events if e[0] == "fft"])
    ev(st, "fft", (mk("func", (kind,), "P"),) + tuple(dims) + tuple(b) + (val,))
    o = [ex.fresh("m", "I") for _ in dims]
    region(ex, st, dst, flat(o, dims_out), o, dims_out, app("RDFT" if back else "DFT", (no,) + tuple(o), "R"))
    if back:
        havoc(ex, st, src, None)
    return None


def destroy(ex, fr, st, v, n):
    ev(st, "destroy", (v[0],))
    return None


def memory(name):
    def h(ex, fr, st, v, n):
        p = allocate(ex, fr, st, v, n)
        ev(st, "alloc", (p, toI(v[0])))
        return p
    return h


def freed(ex, fr, st, v, n):
    ev(st, "free", (v[0],))
    return None


FFT = dict(TOOLS)
FFT.update({
    "creal": part("creal"), "cimag": part("cimag"), "conj": lambda ex, fr, st, v, n: conj(toR(v[0]), getattr(ex, "complex", ())),
    "cpow": lambda ex, fr, st, v, n: app("cpow", (toR(v[0]), toR(v[1])), "R"),
    "fftw_plan_dft_r2c_1d": plan("r2c_1d"), "fftw_plan_dft_c2r_1d": plan("c2r_1d"), "fftw_plan_dft_r2c_2d": plan("r2c_2d"),
    "fftw_plan_dft_c2r_2d": plan("c2r_2d"), "fftw_execute": execute, "fftw_destroy_plan": destroy,
    "fftw_malloc": memory("fftw_malloc"), "malloc": memory("malloc"), "fftw_free": freed, "free": freed,
})
for _n in ("cexp", "clog", "csin", "csqrt"):
    FFT[_n] = one(_n)


def g_l(ex, fr, st, v, n):
    """gl[i] = G(l, nu + i eta[i]) for i < N"""
    l, nu, eta, gl, N = v
    i = ex.fresh("i", "I")
    N = toI(N)
    ex.bounds[i] = (num(0, "I"), N)
    try:
        z = ex.simp(add(toR(nu), mul(IMAG, at(ex, st, eta, i))))
    finally:
        del ex.bounds[i]
    region(ex, st, gl, i, (i,), (N,), app("GL", (toR(l), z), "R"))
    return None


def window2d(ex, fr, st, v, n):
    """out[a (h2+1) + b] is multiplied by W(a, b), for a < 2 h1, b <= h2"""
    out, w, h1, h2 = v
    h1, h2 = toI(h1), toI(h2)
    a, b = ex.fresh("a", "I"), ex.fresh("b", "I")
    z, N1, M = num(0, "I"), mul(num(2, "I"), h1), add(h2, num(1, "I"))
    ex.bounds.update({a: (z, N1), b: (z, M)})
    try:
        old = at(ex, st, out, add(mul(a, M), b))
    finally:
        del ex.bounds[a], ex.bounds[b]
    region(ex, st, out, add(mul(a, M), b), (a, b), (N1, M), mul(old, app("W2", (toR(w), h1, h2, a, b), "R")))
    return None
