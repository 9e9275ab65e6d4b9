"""P09, P10: the cosmological background (background.c)."""
from checks.common import *
from checks.tables import same, frame
from dv.cast import load
from dv.sym import Program, Executor, State, subst, Write
from replay import base
from replay.build import build
from specs import splines as S
from specs.background import BG, Background, ode_rule, fit_contract


def run_bg(tus, flatsky):
    tu = tus[0]
    ex = Executor(Program(tus), BG)
    ex.loop_rules.append(ode_rule)
    par, bg = sym("par", "P"), sym("bg", "P")
    st = State()
    P = lambda n: fld(pointee(par), n)
    ex.write(st, P("verbose"), num(0, "I"))
    if not flatsky:
        ex.write(st, P("flatsky_nonlocal"), num(0, "I"))
    N = ex.read(st, P("background_bins"), "I")
    ex.N.bound_below(N, 2, False)
    st, v = ex.call_function(tu, tu.functions["coffe_background_init"], [par, bg], st)
    if st is None:
        raise Unsupported("never returns")
    return ex, st, par, bg, N


SPLINES = ("a", "Hz", "conformal_Hz", "conformal_Hz_prime", "comoving_distance", "G1", "G2")
GROWTH = ("D1", "f")


def wanted(ex, st, par, N, tu):
    B = Background(ex, st, par, num(tu.enumname["COFFE_INTERP_LINEAR"], "I"))
    meth = B.P("interp_method", "I")

    def table(fx, fy):
        i = ex.fresh("i", "I")
        ex.bounds[i] = (num(0, "I"), N)
        try:
            z = div(mul(num(15), toR(i)), toR(sub(N, num(1, "I"))))
            return S.spline(ex, meth, N, i, fx(z), fy(z))
        finally:
            del ex.bounds[i]
    one = lambda z: z
    w = dict((f, (one, getattr(B, f))) for f in ("a", "Hz", "conformal_Hz", "conformal_Hz_prime", "D1", "f"))
    w["comoving_distance"] = (one, B.chi)
    w["G1"], w["G2"] = (one, lambda z: B.G(1, z)), (one, lambda z: B.G(2, z))
    w["z_as_chi"] = (B.chi, one)
    return dict((k, table(*v)) for k, v in w.items())


def got(ex, st, bg, f):
    return S.content(ex, st, ex.read(st, fld(fld(pointee(bg), f), "spline"), "P"))


def tabulated(c, tus, fields):
    """obligations of coffe_background_init"""
    opened = []
    for flat in (False, True):
        tag = "coffe_background_init[%s]: " % ("flat-sky fits" if flat else "no fits")
        try:
            ex, st, par, bg, N = run_bg(tus, flat)
            want = wanted(ex, st, par, N, tus[0])
        except ERR as e:
            c.open(tag + "summary of every loop", "%s: %s" % (type(e).__name__, str(e)[:300]))
            opened.append(tag + "summary of every loop")
            continue

        def ob(nm, f):
            if not attempt(c, tag + nm, f, INV):
                opened.append(tag + nm)

        def eqspline(f):
            g, w = got(ex, st, bg, f), want[f]
            if not all(a is b or (isinstance(a, Term) and ex.same(a, b)) for a, b in zip(g.args[1:3], w.args[1:3])):
                return "method or length of the table"
            names = [g.args[3], w.args[3]]
            for k, a, b in zip("xy", g.args[4:], w.args[4:]):
                if names[0] != names[1]:
                    i = ex.fresh("i", "I")
                    a, b = subst(a, {sym(names[0], "I"): i}), subst(b, {sym(names[1], "I"): i})
                d = ex.N.diff(a, b)
                if d:
                    d = ex.N.clear_inverses(d)
                if d:
                    return "%s differs by %s" % (k, ex.N.show_poly(d, 2)[:400])
        for f in fields:
            ob("%s interpolates its defining expression over z in [0, 15]" % f, lambda f=f: eqspline(f))
        if "D1" in fields:
            continue
        ob("z_as_chi interpolates the inverse of the distance", lambda: eqspline("z_as_chi"))
        ob("flag set", lambda: same(ex, ex.read(st, fld(pointee(bg), "flag"), "I"), num(1, "I")))
        ob("parameters not modified", lambda: frame_par(ex, st, par))
        if flat:
            ob("six polynomial fits, each of its own bias and degree", lambda: fits(ex, st, par, bg, want))
    return opened


def frame_par(ex, st, par):
    for k, ws in st.store.items():
        r = k
        while r[0] not in ("var", "obj"):
            r = r[0]
        if r[0] == "obj" and r[1] is par:
            if k[1] in ("verbose", "flatsky_nonlocal") and len(ws) == 1:
                continue
            return "writes %s" % (k,)
        if r[0] == "var" and r[1].startswith("global:"):
            return "writes %s" % r[1]
    return None


FITS = [a + str(i) for a in ("galaxy_bias", "magnification_bias", "evolution_bias") for i in (1, 2)]


def fits(ex, st, par, bg, want):
    P = lambda n, s: ex.read(st, fld(pointee(par), n), s)
    ev = [e for e in st.events if e[0] == "biasfit"]
    if len(ev) != 6:
        return "%d fits" % len(ev)
    need = band(bnot(eq(P("flatsky_nonlocal", "I"), num(0, "I"))), bnot(eq(P("z_mean_len", "I"), num(0, "I"))))
    seen = set()
    for k, (chi, zchi, z, nz, sep, ns, bias, deg, out), pc in ev:
        if ex.N.diff(chi, want["comoving_distance"]) or ex.N.diff(zchi, want["z_as_chi"]):
            return "distances"
        if z is not P("z_mean", "P") or sep is not P("sep", "P") or not ex.same(nz, P("z_mean_len", "I")) or not ex.same(ns, P("sep_len", "I")):
            return "redshifts or separations"
        for f in FITS:
            if bias is addr(fld(pointee(par), f)):
                if out is not addr(fld(pointee(par), f + "_coefficients")) or not ex.same(deg, P("degree_" + f, "I")):
                    return "the fit of %s" % f
                seen.add(f)
        if ex.N.nfb(pc) != ex.N.nfb(need):
            return "condition %s" % pc
    return None if len(seen) == 6 else "a bias has no fit"


# ---- the polynomial fits --------------------------------------------------------------------------------

def matrix(ex, fr, st, v, n):
    p = S.allocate(ex, fr, st, v, n)
    ex.write(st, fld(pointee(p), "rows!"), toI(v[0]))
    if len(v) > 1:
        ex.write(st, fld(pointee(p), "cols!"), toI(v[1]))
    return p


def cellof(ex, st, p, *ix):
    o = fld(pointee(p), "cell!")
    for i in ix:
        o = idx(o, toI(i))
    return o


def setc(ex, fr, st, v, n):
    ex.write(st, cellof(ex, st, v[0], *v[1:-1]), toR(v[-1]))
    return num(0, "I")


def getc(ex, fr, st, v, n):
    return ex.read(st, cellof(ex, st, v[0], *v[1:]), "R")


def multifit(ex, fr, st, v, n):
    """c = least-squares solution of X c = y; what X is decides what c means"""
    X, y, cc, cov, chi, work = v
    rows, cols = [ex.read(st, fld(pointee(X), f), "I") for f in ("rows!", "cols!")]
    if not (ex.same(rows, ex.read(st, fld(pointee(y), "rows!"), "I")) and ex.same(cols, ex.read(st, fld(pointee(cc), "rows!"), "I"))):
        raise Unsupported("sizes of the least-squares problem")
    i, j, k = [ex.fresh(x, "I") for x in "ijk"]
    z = num(0, "I")
    ex.bounds.update({i: (z, rows), j: (z, cols)})
    try:
        xij = ex.simp(ex.read(st, cellof(ex, st, X, i, j), "R"))
        yi = ex.simp(ex.read(st, cellof(ex, st, y, i), "R"))
    finally:
        del ex.bounds[i], ex.bounds[j]
    pr, names = ex.bind([i, j], app("pair", (xij, yi), "R"))
    kk, ix = ex.absloc(ex.canon(cellof(ex, st, cc, k)))
    st.store[kk] = st.store.get(kk, ()) + (Write(tuple(ix), app("lsqsol", (rows, cols, k, names) + pr.args[1:], "R"), TRUE, (k,),
                                                band(le(z, k), lt(k, cols)), "w", {k: (z, cols)}),)
    ex.write(st, pointee(chi), app("lsqres", (rows, cols, names) + pr.args[1:], "R"))
    return num(0, "I")


GSLFIT = dict(BG)
NOP = lambda ex, fr, st, v, n: num(0, "I")
GSLFIT.update({"gsl_matrix_alloc": matrix, "gsl_vector_alloc": matrix, "gsl_matrix_calloc": matrix, "gsl_vector_calloc": matrix,
               "gsl_matrix_set": setc, "gsl_vector_set": setc, "gsl_matrix_get": getc, "gsl_vector_get": getc,
               "gsl_multifit_linear": multifit, "gsl_multifit_linear_alloc": S.allocate, "gsl_multifit_linear_free": NOP,
               "gsl_matrix_free": NOP, "gsl_vector_free": NOP})


def polyfit(tus):
    tu = tus[0]
    ex = Executor(Program(tus), GSLFIT)
    st = State()
    x, y, cp, sp, chi = [sym(k, "P") for k in ("x", "y", "coefficients", "csize", "chisq")]
    ln, deg = sym("n", "I"), sym("degree", "I")
    ex.unsigned_terms |= {ln, deg}
    st, v = ex.call_function(tu, tu.functions["coffe_fit_polynomial"], [x, y, ln, deg, cp, sp, chi], st)
    m = add(deg, num(1, "I"))
    z = num(0, "I")
    r = same(ex, ex.read(st, pointee(sp), "I"), m)
    if r:
        return "size: " + r
    i, j, k = [ex.fresh(q, "I") for q in "ijk"]
    ex.bounds.update({i: (z, ln), j: (z, m)})
    pr, names = ex.bind([i, j], app("pair", (cpow(S.arr(ex, st, x, i), toR(j)), S.arr(ex, st, y, i)), "R"))
    del ex.bounds[i], ex.bounds[j]
    ex.bounds[k] = (z, m)
    want = app("lsqsol", (ln, m, k, names) + pr.args[1:], "R")
    have = ex.simp(ex.read(st, pointee(ex.padd(ex.read(st, pointee(cp), "P"), k)), "R"))
    d = ex.N.diff(have, want)
    if d:
        return "got %s" % str(have)[:300]
    d = ex.N.diff(ex.read(st, pointee(chi), "R"), app("lsqres", (ln, m, names) + pr.args[1:], "R"))
    return None if not d else "chi squared"


def biasfits(tus):
    """array[i] = the fit of the bias against chi(z) - chi(midpoint of the bin), over every sample of the bias"""
    tu = tus[0]
    con = dict(BG)
    con["coffe_fit_polynomial"] = fit_contract
    con.pop("coffe_get_bias_coefficients")
    ex = Executor(Program(tus), con)
    st = State()
    chi, zchi, zm, sep, bias, out = [sym(k, "P") for k in ("chi", "zchi", "z_mean", "sep", "bias", "out")]
    nz, ns, deg = [sym(k, "I") for k in ("nz", "ns", "degree")]
    ex.unsigned_terms |= {nz, ns}
    st, v = ex.call_function(tu, tu.functions["coffe_get_bias_coefficients"], [chi, zchi, zm, nz, sep, ns, bias, deg, out], st)
    r = same(ex, ex.read(st, fld(pointee(out), "size"), "I"), nz)
    if r:
        return r
    z = num(0, "I")
    i = sym("i", "I")
    ex.bounds[i] = (z, nz)
    el = pointee(ex.padd(ex.read(st, fld(pointee(out), "array"), "P"), i))
    tab = lambda p, x: app("interp", (p, x), "R")
    c0 = tab(chi, S.arr(ex, st, zm, i))
    smax = S.arr(ex, st, sep, sub(ns, num(1, "I")))
    zmin, zmax = tab(zchi, sub(c0, smax)), tab(zchi, add(c0, smax))
    mid = tab(chi, div(add(zmin, zmax), num(2)))
    for f, w in (("z_min", zmin), ("z_max", zmax), ("degree", deg), ("size", add(deg, num(1, "I")))):
        r = same(ex, ex.read(st, fld(el, f), w.sort), w)
        if r:
            return "%s: %s" % (f, r)
    spl = pointee(ex.read(st, fld(pointee(bias), "spline"), "P"))
    n = ex.read(st, fld(spl, "size"), "I")
    b = ex.fresh("b", "I")
    ex.bounds[b] = (z, n)
    x = S.arr(ex, st, ex.read(st, fld(spl, "x"), "P"), b)
    pr, names = ex.bind([b], app("pair", (sub(tab(chi, x), mid), tab(bias, x)), "R"))
    del ex.bounds[b]
    j = sym("j", "I")
    ex.bounds[j] = (z, add(deg, num(1, "I")))
    have = ex.simp(ex.read(st, pointee(ex.padd(ex.read(st, fld(el, "coefficients"), "P"), j)), "R"))
    d = ex.N.diff(have, app("lsq", (n, deg, j, names) + pr.args[1:], "R"))
    return None if not d else "got %s" % str(have)[:400]


ASSUME = ("GSL splines: an interpolant of the given points, a function of them alone (coffe_init_spline and coffe_interp_spline are discharged against them)",
          "gsl_integration_qag: the integral of the given integrand over [a,b]; the numerical error of the two 1d integrators is not modelled (what they integrate, and the double exponential rule, are discharged)",
          "background_bins >= 2; machine arithmetic is treated as real arithmetic")


def replayed(c, scratch, part):
    def replay():
        lib = build(scratch, shims=("shim.c", "shim_bg.c"), wrap=[])
        n, bad = 0, []
        for s in range(c.seed, c.seed + (1 if c.tier == "quick" else 4)):
            a, b = base.run("bg", {"lib": lib, "seed": s, "part": part})
            n += a
            bad += b
        return n, bad
    c.replay = (replay, "replayed on the compiled background against independent quadrature and integration")


def expansion(c, scratch):
    replayed(c, scratch, "expansion")
    c.assume(*ASSUME)
    c.assume("contract assumed for gsl_multifit_linear: the least-squares solution of its problem")
    tus = [load("background.c"), load("common.c")]
    c.function("coffe_background_init (with integrand_w, integrand_x, integrand_comoving, coffe_dark_energy_eos inlined)",
               "each spline of the background interpolates, at z_i = 15 i/(N-1), the defining expression in the parameters; parameters are not modified")
    c.function("coffe_fit_polynomial", "coefficients = least-squares solution for the design matrix x_i^j; size = degree + 1")
    c.function("coffe_get_bias_coefficients", "array[i] = fit of the bias samples against chi(z) - chi(midpoint), with the range chi(z_i) -/+ largest separation")
    opened = tabulated(c, tus, SPLINES)
    for nm, f in (("coffe_fit_polynomial: least squares of the monomials", lambda: polyfit(tus)),
                  ("coffe_get_bias_coefficients: one fit per redshift", lambda: biasfits(tus))):
        if not attempt(c, nm, f, INV):
            opened.append(nm)
    fallback(c, opened, *c.replay)


def growth(c, scratch):
    replayed(c, scratch, "growth")
    c.assume(*ASSUME)
    c.assume("contract assumed for gsl_odeiv2_evolve_apply: it moves (t, y) along the flow of the given system towards t1 (step size and numerical error not modelled)")
    tus = [load("background.c"), load("common.c")]
    c.function("coffe_background_init, growth_rate_ode", "D1 and f = dlnD/dlna interpolate the solution of the growth equation from D = a at a = 1/20; D1(0) = 1")
    opened = tabulated(c, tus, GROWTH)
    fallback(c, opened, *c.replay)
