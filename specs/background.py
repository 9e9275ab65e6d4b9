"""Contracts of the background (background.c)."""
from dv import term as T
from dv.loops import walk, changed
from dv.sym import Write, Unsupported
from dv.term import *
from . import splines as S

F = T.Fraction


def q(a, b=1):
    return num(F(a, b))


# ---- the growth equation: gsl_odeiv2 ------------------------------------------------------------------

class Apply(object):
    pass


def evolve_apply(ex, fr, st, v, n):
    """one adaptive step: (t, y) moves along the flow of the system to some t' with t < t' <= t1"""
    rec = getattr(ex, "ode_record", None)
    if rec is None:
        raise Unsupported("gsl_odeiv2_evolve_apply outside a loop that reaches its end point")
    sysp, tp, t1, hp, yp = v[3], v[4], toR(v[5]), v[6], v[7]
    dim = ex.read(st, fld(pointee(sysp), "dimension"), "I")
    if dim.op != "num":
        raise Unsupported("dimension of the system")
    dim = int(val(dim))
    t0 = ex.read(st, pointee(tp), "R")
    ys = [pointee(ex.padd(yp, num(j, "I"))) for j in range(dim)]
    y0 = [ex.read(st, y, "R") for y in ys]
    rhs = rhs_of(ex, fr, st, sysp, dim, n)
    r = Apply()
    r.t, r.t1, r.ys, r.t0, r.y0, r.rhs = pointee(tp), t1, ys, t0, y0, rhs
    r.tnew = ex.fresh("tnext", "R")
    rec.append(r)
    ex.write(st, pointee(tp), r.tnew)
    for j, y in enumerate(ys):
        ex.write(st, y, flow(j, rhs, t0, y0, r.tnew))
    return num(0, "I")


def rhs_of(ex, fr, st, sysp, dim, n):
    f = ex.read(st, fld(pointee(sysp), "function"), "P")
    if f.op != "func":
        raise Unsupported("right hand side is not a named function")
    s = st.copy()
    a = ex.fresh("a", "R")
    ya, fa = ex.fresh("odey", "P"), ex.fresh("odef", "P")
    ys = [ex.fresh("y", "R") for j in range(dim)]
    for j, y in enumerate(ys):
        ex.write(s, pointee(ex.padd(ya, num(j, "I"))), y)
    r = ex.call_values(fr, f.args[0], [a, ya, fa, ex.read(st, fld(pointee(sysp), "params"), "P")], n, s)
    if not ex.same(toI(r), num(0, "I")):
        raise Unsupported("right hand side does not report success")
    out = [ex.read(s, pointee(ex.padd(fa, num(j, "I"))), "R") for j in range(dim)]
    for j in range(dim):
        if not ex.same(ex.read(s, pointee(ex.padd(ya, num(j, "I"))), "R"), ys[j]):
            raise Unsupported("right hand side writes its input")
    return system(ex, a, ys, out)


def system(ex, a, ys, out):
    b, names = ex.bind([a] + list(ys), app("rhs", tuple(out), "R"))
    return (tuple(names),) + tuple(b.args[1:])


def flow(j, rhs, t0, y0, t1):
    """component j at t1 of the solution that starts from (t0, y0)"""
    return app("flow", (j, rhs[0]) + tuple(rhs[1:]) + (t0,) + tuple(y0) + (t1,), "R")


def ode_rule(ex, fr, cond, inc, body, st, exits):
    """while (t < t1) evolve_apply(..., &t, t1, &h, y): at exit t = t1 and y = flow(t0, y0, t1), whatever the steps were.
    Invariant: y = flow(t0, y0, t); every step preserves it because flows compose.  The step size h only steers the error."""
    calls = [x for x in walk(body) if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") == "gsl_odeiv2_evolve_apply"]
    if not calls or not cond.get("kind"):
        return None
    if any(x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt") for x in walk(body)):
        return None
    if inc.get("kind"):
        raise Unsupported("integration loop with an increment")

    def once(s):
        ex.ode_record = []
        try:
            c = ex.decide(toB(ex.ev(fr, cond, s)), s)
            my = []
            r = ex.ex(fr, body, s, my)
            if r is None or [e for e in my if e.kind != "continue"]:
                raise Unsupported("integration loop is left early")
            rec = ex.ode_record
            if len(rec) != 1:
                raise Unsupported("integration loop with %d steps" % len(rec))
            return c, ex.join([r] + [e.state for e in my]), rec[0]
        finally:
            ex.ode_record = None
    _, _, r0 = once(st.copy())
    s = st.copy()
    tau = ex.fresh("tau", "R")
    eta = [ex.fresh("eta", "R") for y in r0.ys]
    ex.write(s, r0.t, tau)
    for y, e in zip(r0.ys, eta):
        ex.write(s, y, e)
    before = dict(s.store)
    c, out, r = once(s)
    if r.t is not r0.t or any(a is not b for a, b in zip(r.ys, r0.ys)):
        raise Unsupported("integration loop changes its variables")
    if not (ex.same(r.t0, tau) and all(ex.same(a, b) for a, b in zip(r.y0, eta))):
        raise Unsupported("integration loop changes the state before the step")
    if not ex.same(ex.read(out, r.t, "R"), r.tnew) or not all(
            ex.same(ex.read(out, y, "R"), flow(j, r.rhs, tau, eta, r.tnew)) for j, y in enumerate(r.ys)):
        raise Unsupported("integration loop changes the state after the step")
    if any(mentions_any(x, [tau, r.tnew] + eta) for x in (r.t1,) + r.rhs[1:]):
        raise Unsupported("end point of the integration changes")
    if not (c is lt(tau, r.t1) or ex.N.nfb(c) == ex.N.nfb(lt(tau, r.t1))):
        raise Unsupported("condition of the integration loop is %s" % c)
    okkeys = [ex.absloc(ex.canon(x))[0] for x in [r.t] + r.ys]
    decl = [l.args[0] for i, l in fr.locs.items() if i in set(x.get("id") for x in walk(body) if x.get("kind") == "VarDecl")]
    for k in changed(before, out.store):
        root = k
        while root[0] not in ("var", "obj"):
            root = root[0]
        if k not in okkeys and root[1] not in decl and not str(root[1]).startswith("tmp"):
            raise Unsupported("integration loop also writes %s" % (k,))
    fin = st.copy()
    t0 = ex.read(st, r.t, "R")
    y0 = [ex.read(st, y, "R") for y in r.ys]
    go = lt(t0, r.t1)
    if mentions_any(t0, [tau]):
        raise Unsupported("start of the integration")
    ex.write(fin, r.t, ite(go, r.t1, t0))
    for j, y in enumerate(r.ys):
        ex.write(fin, y, ite(go, flow(j, r.rhs, t0, y0, r.t1), y0[j]))
    return fin


def mentions_any(t, syms):
    from dv.sym import mentions
    return mentions(t, set(syms))


# ---- polynomial fits ------------------------------------------------------------------------------------

def fit_contract(ex, fr, st, v, n):
    """*coefficients is a new array of degree+1 least-squares coefficients of y against 1, x, ..., x^degree"""
    x, y, ln, deg, cp, sp, chi = v
    ln, deg = toI(ln), toI(deg)
    i = ex.fresh("i", "I")
    ex.bounds[i] = (num(0, "I"), ln)
    try:
        xs, ys = [ex.simp(S.arr(ex, st, p, i)) for p in (x, y)]
    finally:
        del ex.bounds[i]
    ar = S.allocate(ex, fr, st, [deg], n)
    ex.write(st, pointee(cp), ar)
    ex.write(st, pointee(sp), add(deg, num(1, "I")))
    j = ex.fresh("j", "I")
    k, ix = ex.absloc(ex.canon(pointee(ex.padd(ar, j))))
    z = num(0, "I")
    m = add(deg, num(1, "I"))
    pr, names = ex.bind([i], app("pair", (xs, ys), "R"))
    st.store[k] = st.store.get(k, ()) + (Write(tuple(ix), app("lsq", (ln, deg, j, names) + pr.args[1:], "R"), TRUE, (j,), band(le(z, j), lt(j, m)), "w", {j: (z, m)}),)
    ex.write(st, pointee(chi), app("lsqchi", (ln, deg, names) + pr.args[1:], "R"))
    return num(0, "I")


def bias_fit_contract(ex, fr, st, v, n):
    """records which fit goes where; the function is proved on its own"""
    chi, zchi, z, nz, sep, ns, bias, deg, out = v
    cont = lambda p: S.content(ex, st, ex.read(st, fld(pointee(p), "spline"), "P"))
    st.events = st.events + (("biasfit", (cont(chi), cont(zchi), z, toI(nz), sep, toI(ns), bias, toI(deg), out), st.pc),)
    return num(0, "I")


NOP = lambda ex, fr, st, v, n: num(0, "I")
NEW = lambda ex, fr, st, v, n: S.allocate(ex, fr, st, v, n)
BG = dict(S.SPL)
BG.update({
    "gsl_odeiv2_evolve_apply": evolve_apply, "gsl_odeiv2_step_alloc": NEW, "gsl_odeiv2_control_y_new": NEW, "gsl_odeiv2_evolve_alloc": NEW,
    "gsl_odeiv2_step_free": NOP, "gsl_odeiv2_control_free": NOP, "gsl_odeiv2_evolve_free": NOP,
    "gsl_odeiv2_step_reset": NOP, "gsl_odeiv2_evolve_reset": NOP,
    "gsl_spline_free": NOP, "gsl_interp_accel_free": NOP, "coffe_get_bias_coefficients": bias_fit_contract,
})


class Background(object):
    """what the background of a cosmology is, in terms of the parameters in state st"""

    def __init__(self, ex, st, par, linear):
        self.ex, self.st, self.par, self.linear = ex, st, par, linear
        P = self.P
        self.Om = add(P("Omega0_cdm"), P("Omega0_baryon"))
        self.Og, self.Ode = P("Omega0_gamma"), P("Omega0_de")
        self.n = num(16385, "I")
        self.H0 = mul(P("h"), q(100000, 299792458))
        self.W = self.table(self.eos)
        self.Wint = self.table(lambda z: app("exp", (mul(num(3), self.quad(num(0), z, lambda x: div(add(num(1), self.w(x)), add(num(1), x)))),), "R"))
        self.X = self.table(self.xratio, True)

    def P(self, n, s="R"):
        return self.ex.read(self.st, fld(pointee(self.par), n), s)

    def tab(self, name, z):
        return app("interp", (addr(fld(pointee(self.par), name)), z), "R")

    def table(self, f, special=False):
        """f tabulated at 16385 redshifts up to 100"""
        ex = self.ex
        i = ex.fresh("i", "I")
        ex.bounds[i] = (num(0, "I"), self.n)
        try:
            z = div(mul(num(100), toR(i)), num(16384))
            y = f(z)
            if special:
                y = ite(eq(i, num(0, "I")), div(self.Om, sub(num(1), self.Om)), y)
        finally:
            del ex.bounds[i]
        return S.spline(ex, self.linear, self.n, i, z, y)

    def quad(self, a, b, f):
        t = self.ex.fresh("t", "R")
        return S.quadterm(self.ex, t, a, b, f(add(a, mul(sub(b, a), t))))

    def eos(self, z):
        return add(self.P("w0"), mul(self.P("wa"), div(z, add(num(1), z))))

    def w(self, z):
        return app("interp", (self.W, z), "R")

    def wint(self, z):
        """exp(3 int_0^z (1+w)/(1+z))"""
        return app("interp", (self.Wint, z), "R")

    def xratio(self, z):
        """matter to dark energy: Om/(1-Om) exp(-3 int_a^1 w da/a)"""
        i = self.quad(div(num(1), add(num(1), z)), num(1), lambda a: div(self.w(sub(div(num(1), a), num(1))), a))
        return mul(div(self.Om, sub(num(1), self.Om)), app("exp", (mul(num(-3), i),), "R"))

    def x(self, z):
        return app("interp", (self.X, z), "R")

    def E2(self, z):
        return add(mul(self.Om, powi(add(num(1), z), 3)), mul(self.Og, powi(add(num(1), z), 4)), mul(self.Ode, self.wint(z)))

    def a(self, z):
        return div(num(1), add(num(1), z))

    def Hz(self, z):
        return mul(app("sqrt", (self.E2(z),), "R"), self.H0)

    def conformal_Hz(self, z):
        return mul(self.a(z), self.Hz(z))

    def conformal_Hz_prime(self, z):
        """d(aH)/d tau = -1/2 [Om(1+z) + 2 Og(1+z)^2 + (1+3w) Ode wint/(1+z)^2] H0^2"""
        o = add(num(1), z)
        return mul(q(-1, 2), powi(self.H0, 2), add(mul(self.Om, o), mul(num(2), self.Og, powi(o, 2)),
                                                    mul(add(num(1), mul(num(3), self.w(z))), self.Ode, self.wint(z), powi(o, -2))))

    def chi(self, z):
        return div(self.quad(num(0), z, lambda x: div(num(1), app("sqrt", (self.E2(x),), "R"))), self.H0)

    def G(self, i, z):
        s, e = self.tab("magnification_bias%d" % i, z), self.tab("evolution_bias%d" % i, z)
        h = self.conformal_Hz(z)
        v = add(mul(self.conformal_Hz_prime(z), powi(h, -2)), div(sub(num(2), mul(num(5), s)), mul(self.chi(z), h)), mul(num(5), s), mul(num(-1), e))
        return ite(lt(num(F("1e-10")), z), v, num(0))

    def rhs(self):
        """D'' = -3/2 (1 - w/(1+X)) D'/a + 3/2 X/(1+X) D/a^2 (Linder & Jenkins), as a system in (D, D')"""
        ex = self.ex
        a, y0, y1 = ex.fresh("a"), ex.fresh("y"), ex.fresh("y")
        z = sub(div(num(1), a), num(1))
        X = self.x(z)
        o = add(num(1), X)
        f1 = add(mul(q(-3, 2), sub(num(1), div(self.w(z), o)), div(y1, a)), mul(q(3, 2), div(X, o), y0, powi(a, -2)))
        return system(ex, a, (y0, y1), (y1, f1))

    def growth(self, z, j):
        """D and D' at the scale factor of z, from D = a at a = 1/20"""
        t0 = q(1, 20)
        y0 = (q(1, 20), num(1))
        a = self.a(z)
        return ite(lt(t0, a), flow(j, self.rhs(), t0, y0, a), y0[j])

    def D1(self, z):
        return div(self.growth(z, 0), self.growth(num(0), 0))

    def f(self, z):
        return mul(self.growth(z, 1), div(self.a(z), self.growth(z, 0)))
