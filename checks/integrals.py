"""P11: the integrals of the power spectrum against Bessel functions (integrals.c)."""
import itertools
from checks.common import *
from checks.tables import same, frame
from dv import rules
from dv.cast import load
from dv.sym import Program, Executor, State, subst, Write, allocate, subterms
from replay import base
from replay.build import build
from specs import splines as S
from specs.integrals import *

I0, I1 = num(0, "I"), num(1, "I")


def eqv(ex, a, b):
    d = ex.N.diff(ex.simp(a), ex.simp(b))
    if d:
        d = ex.N.clear_inverses(d)
    return None if not d else "residual %s" % ex.N.show_poly(d, 2)[:300]


# ---- lookup ---------------------------------------------------------------------------------------------

def lookup(tus):
    tu = tus[0]
    for case in ("null", "empty", "filled"):
        con = dict(INTG)
        ex = Executor(Program(tus), con)
        ex.loop_rules.append(rules.search_rule)
        arr = NULL if case == "null" else addr(var("integrals"))
        key = [sym(x, "I") for x in ("n", "l", "sn", "sl")]
        st = State()
        size = None
        if case != "null":
            sl = fld(pointee(arr), "size")
            if case == "empty":
                ex.write(st, sl, I0)
            else:
                size = ex.read(st, sl, "I")
                ex.N.bound_below(size, 0, True)
                ex.unsigned_terms.add(size)
        st, v = ex.call_function(tu, tu.functions["coffe_find_integral"], [arr] + key, st)
        if case != "filled":
            if ex.simp(v) is not NULL:
                return "%s: %s" % (case, str(v)[:200])
            continue
        b = ex.fresh("j", "I")
        a = ex.read(st, fld(pointee(arr), "array"), "P")
        el = lambda i: pointee(ex.padd(a, i))
        C = band(*[eq(k, ex.read(st, fld(el(b), f), "I")) for k, f in zip(key, ("n", "l", "state_n", "state_l"))])
        found, first = rules.exists_first(ex, b, I0, size, C)
        want = ite(found, addr(el(first)), NULL)
        v = ex.simp(v)
        if v.op != "ite" or ex.N.nfb(v.args[0]) != ex.N.nfb(found) or v.args[2] is not NULL:
            return "%s" % str(v)[:300]
        x = v.args[1]
        if x.op != "addr" or x.args[0].op != "idx" or x.args[0].args[0] is not el(first).args[0] or ex.N.diff(x.args[0].args[1], first):
            return "%s" % str(v)[:300]
    return None


# ---- one integral -------------------------------------------------------------------------------------

def run_ren(tus, half):
    tu = tus[0]
    ex = Executor(Program(tus), INTG)
    ints = dict((k, sym(k, "I")) for k in ("N", "n", "l"))
    spec, px, py, pl = [sym(k, "P") for k in ("spectrum", "px", "py", "plen")]
    kmin, kmax = sym("kmin"), sym("kmax")
    s = num(tu.enumname[HALF if half else INT], "I")
    st = State()
    ex.unsigned_terms.add(ints["N"])
    m = sym("min_sep_len", "I")
    ex.unsigned_terms.add(m)
    ex.write(st, var("global:min_sep_len"), m)
    st, v = ex.call_function(tu, tu.functions["coffe_integrals_renormalizable"],
                             [px, py, ints["N"], pl, spec, ints["n"], ints["l"], s, s, kmin, kmax], st)
    if st is None:
        raise Unsupported("never returns")
    return ex, st, ints, m, spec, px, py, pl, kmin, kmax


def value(ex, half, n, l, spec, kmin, kmax, r):
    """r^max(n-l, 0) I^n_l(r) for r > 0"""
    ln, ll = (div(toR(n), num(2)), div(toR(l), num(2))) if half else (toR(n), toR(l))
    t = ex.fresh("t", "R")
    k = add(kmin, mul(sub(kmax, kmin), t))
    body = mul(k, k, app("interp", (spec, k), "R"), bessel(l, half, mul(k, r)), cpow(mul(k, r), neg(ln)))
    q = S.quadterm(ex, t, kmin, kmax, body)
    up = bnot(lt(ln, ll))
    return div(ite(band(up, lt(num(0), r)), mul(q, cpow(r, sub(ln, ll))), q), mul(num(2), PI, PI))


def renorm(c, tus, half):
    tag = "coffe_integrals_renormalizable[%s orders]: " % ("half-integer" if half else "integer")
    opened = []
    try:
        ex, st, ints, m, spec, px, py, pl, kmin, kmax = run_ren(tus, half)
    except ERR as e:
        c.open(tag + "summary of every loop", "%s: %s" % (type(e).__name__, str(e)[:300]))
        return [tag + "summary of every loop"]
    N, n, l = ints["N"], ints["n"], ints["l"]
    ln, ll = (div(toR(n), num(2)), div(toR(l), num(2))) if half else (toR(n), toR(l))
    up = bnot(lt(ln, ll))

    def ob(nm, f):
        if not attempt(c, tag + nm, f, INV):
            opened.append(tag + nm)
    at = lambda p, i: ex.simp(ex.read(st, pointee(ex.padd(ex.read(st, pointee(p), "P"), i)), "R"))
    ob("length", lambda: same(ex, ex.read(st, pointee(pl), "I"), add(N, m, I1)))
    ob("x[0] = 0", lambda: eqv(ex, at(px, I0), num(0)))

    def zero():
        """lim x->0 of x^-l j_l(x) = sqrt(pi)/(2^(l+1) Gamma(l+3/2))"""
        t = ex.fresh("t", "R")
        k = add(kmin, mul(sub(kmax, kmin), t))
        q = S.quadterm(ex, t, kmin, kmax, mul(cpow(k, add(num(2), sub(ll, ln))), app("interp", (spec, k), "R"),
                                              app("sqrt", (div(PI, num(2)),), "R") if half else num(1)))
        co = div(num(1), mul(cpow(num(2), add(ll, num(F(1, 2)))), app("gamma", (add(ll, num(F(3, 2))),), "R")))
        if not half:
            co = mul(co, app("sqrt", (div(PI, num(2)),), "R"))
        return eqv(ex, at(py, I0), ite(up, div(mul(q, co), mul(num(2), PI, PI)), num(0)))
    ob("y[0] = the limit r -> 0", zero)

    def small():
        i = ex.fresh("i", "I")
        ex.bounds[i] = (I1, add(m, I1))
        r = app("sep", (), "R")
        x = at(px, i)
        g = ex.read(State(), idx(var("global:min_sep"), sub(i, I1)), "R")
        bad = eqv(ex, x, g)
        if bad:
            return "x: " + bad
        ex.N.bound_below(g, 0, True)
        return eqv(ex, at(py, i), value(ex, half, n, l, spec, kmin, kmax, g))
    ob("y[i] = the integral at the i-th small separation", small)

    def grid():
        i = ex.fresh("i", "I")
        ex.bounds[i] = (I0, N)
        j = add(m, I1, i)
        sp = pointee(ex.read(st, fld(pointee(spec), "spline"), "P"))
        P = lambda f, s: ex.read(st, fld(sp, f), s)
        f = samples(ex, st, P("x", "P"), P("y", "P"), P("size", "I"), sym("cspline", "I"))
        a = (ll, ln, num(1), kmin, kmin, kmax)
        X = app("TFx", (N,) + a[2:] + (i,), "R")
        bad = eqv(ex, at(px, j), X)
        if bad:
            return "x: " + bad
        Y = app("TF", (f, N) + a + (i,), "R")
        return eqv(ex, at(py, j), ite(up, mul(Y, cpow(X, sub(ln, ll))), Y))
    ob("y[i] = r^max(n-l,0) times the transform of the spectrum", grid)
    return opened


# ---- all of them --------------------------------------------------------------------------------------

FIELDS = ("n", "l", "state_n", "state_l")


def describe(ex, st, el):
    r = fld(el, "result")
    sp = ex.read(st, fld(r, "spline"), "P")
    z = ex.read(st, fld(fld(el, "renormalization_zero_separation"), "spline"), "P")
    return [ex.simp(ex.read(st, fld(el, f), "I")) for f in FIELDS] + [
        S.content(ex, st, sp), NULL if z is NULL else S.content(ex, st, z), ex.read(st, fld(fld(el, "renormalization"), "content!"), "R")]


def run_init(tus, out, div_, fl, fn):
    tu = tus[0]
    ex = Executor(Program(tus), INIT)
    par, bg, it = [sym(k, "P") for k in ("par", "bg", "integral")]
    A = rules.Append(it, describe)
    ex.loop_rules.append(A.rule)
    st = State()
    P = lambda n: fld(pointee(par), n)
    for f, v in (("verbose", 0), ("divergent", div_), ("flatsky_local_nonlocal", fl), ("flatsky_nonlocal", fn), ("output_type", tu.enumname[out])):
        ex.write(st, P(f), num(v, "I"))
    L = ex.read(st, P("multipole_values_len"), "I")
    nz = ex.read(st, P("z_mean_len"), "I")
    ex.write(st, P("deltaz_len"), nz)
    for x in (L, nz, ex.read(st, P("zmax_len"), "I"), ex.read(st, fld(pointee(it), "size"), "I")):
        ex.unsigned_terms.add(x)
    m = sym("coffe_sep_len", "I")
    ex.unsigned_terms.add(m)
    ex.N.bound_below(m, 0, True)
    ex.write(st, var("global:coffe_sep_len"), m)
    st, v = ex.call_function(tu, tu.functions["coffe_integrals_init"], [par, bg, it], st)
    if st is None:
        raise Unsupported("never returns")
    return ex, st, tu, par, bg, it, L, m


def flatten(evs, binders=()):
    for e in evs:
        if e[0] == "append":
            yield binders, e[1], e[2]
        elif e[0] == "loop":
            K, lo, hi, sub_ = e[1]
            for x in flatten(sub_, binders + ((K, lo, hi),)):
                yield x


LINEAR = [(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)]
OUTPUTS = ("CORRFUNC", "MULTIPOLES", "AVERAGE_MULTIPOLES")


class Want(object):
    """the contents of the entries, in the parameters"""

    def __init__(self, ex, tu, par, bg, m, out):
        self.ex, self.tu, self.par, self.bg, self.m, self.out = ex, tu, par, bg, m, out
        self.st0 = State()
        self.spec = addr(fld(pointee(par), "power_spectrum_norm"))

    def P(self, f, s="R"):
        return self.ex.read(self.st0, fld(pointee(self.par), f), s)

    def linear(self, key):
        ex = self.ex
        ln = app("RENn", (self.P("bessel_bins", "I"),), "I")
        what = (self.P("bessel_bins", "I"), self.spec) + tuple(key) + (self.P("k_min_norm"), self.P("k_max_norm"))
        i = ex.fresh("i", "I")
        y = app("RENy", what + (i,), "R")
        half = num(self.tu.enumname[HALF], "I")
        if all(a is b for a, b in zip(key, (I1, num(-1, "I"), half, half))):
            y = mul(y, app("sqrt", (div(num(2), PI),), "R"), num(2), PI, PI)
        ex.bounds[i] = (I0, ln)
        try:
            return S.spline(ex, self.P("interp_method", "I"), ln, i, app("RENx", what + (i,), "R"), y)
        finally:
            del ex.bounds[i]

    def sep(self, i):
        g = self.ex.read(self.st0, idx(var("global:coffe_sep"), i), "R")
        self.ex.N.bound_below(g, 0, True)
        return g

    def k(self, f):
        t = self.ex.fresh("t", "R")
        a, b = self.P("k_min_norm"), self.P("k_max_norm")
        k = add(a, mul(sub(b, a), t))
        return div(S.quadterm(self.ex, t, a, b, mul(app("interp", (self.spec, k), "R"), f(k))), mul(num(2), PI, PI))

    def table(self, fx, fy):
        ex = self.ex
        i = ex.fresh("i", "I")
        ex.bounds[i] = (I0, self.m)
        try:
            return S.spline(ex, self.P("interp_method", "I"), self.m, i, fx(i), fy(i))
        finally:
            del ex.bounds[i]

    def divergent(self):
        j0 = lambda x: app("jl", (I0, x), "R")
        r4 = self.table(self.sep, lambda i: value(self.ex, False, num(4, "I"), I0, self.spec, self.P("k_min_norm"), self.P("k_max_norm"), self.sep(i)))
        first = lambda i, v: ite(eq(i, I0), num(0), v)
        ren0 = self.table(lambda i: first(i, self.sep(i)), lambda i: first(i, self.k(lambda k: div(sub(num(1), powi(j0(mul(k, self.sep(i))), 2)), powi(k, 2)))))
        ex = self.ex
        if self.out == "AVERAGE_MULTIPOLES":
            top = maxarr(ex, None, self.st0, [self.P("zmax", "P"), self.P("zmax_len", "I")], None)
        else:
            n = self.P("z_mean_len", "I")
            i = ex.fresh("i", "I")
            ex.bounds[i] = (I0, n)
            z, names = ex.bind([i], add(*[S.arr(ex, self.st0, self.P(f, "P"), i) for f in ("z_mean", "deltaz")]))
            del ex.bounds[i]
            top = app("maxarr", (n, names, z), "R")
        chi = app("interp", (addr(fld(pointee(self.bg), "comoving_distance")), top), "R")
        at = lambda j: div(mul(toR(j), chi), num(200))
        N = num(201, "I")
        a, b = ex.fresh("a", "I"), ex.fresh("b", "I")
        con, names = ex.bind([a, b], app("trip", (at(a), at(b), self.k(lambda k: div(mul(j0(mul(k, at(a))), j0(mul(k, at(b)))), powi(k, 2)))), "R"))
        ren = app("spline2d", (self.P("covariance_interpolation_method", "I"), N, N) + tuple(names) + con.args[1:], "R")
        return r4, ren0, ren


def eqspline(ex, g, w):
    if g.op != "app" or g.args[0] != w.args[0] or len(g.args) != len(w.args):
        return "is %s" % str(g)[:200]
    two = g.args[0] == "spline2d"
    head = 4 if two else 3
    if not all(ex.same(a, b) for a, b in zip(g.args[1:head], w.args[1:head])):
        return "method or length of the table"
    nb = 2 if two else 1
    i = [ex.fresh("i", "I") for _ in range(nb)]
    for s, n in zip(i, g.args[2:]):
        ex.bounds[s] = (I0, n)
    try:
        for k, a, b in zip("xyz", g.args[head + nb:], w.args[head + nb:]):
            a = subst(a, dict((sym(x, "I"), y) for x, y in zip(g.args[head:], i)))
            b = subst(b, dict((sym(x, "I"), y) for x, y in zip(w.args[head:], i)))
            for t in subterms(a, subterms(b)):
                if t.op == "load" and t.sort == "R" and t.args[0].op == "idx" and t.args[0].args[0] in (var("global:coffe_sep"), var("global:min_sep")):
                    ex.N.bound_below(t, 0, True)
            r = eqv(ex, a, b)
            if r:
                return "%s: %s" % (k, r)
    finally:
        for s in i:
            del ex.bounds[s]
    return None


def table(c, tus):
    opened = []
    for out, dv_, fl, fn in itertools.product(OUTPUTS, (0, 1), (0, 1), (0, 1)):
        tag = "coffe_integrals_init[%s%s%s%s]: " % (out.lower(), ", divergent" * dv_, ", flat-sky local-nonlocal" * fl, ", flat-sky nonlocal" * fn)
        try:
            ex, st, tu, par, bg, it, L, m = run_init(tus, out, dv_, fl, fn)
            W = Want(ex, tu, par, bg, m, out)
            a = ex.read(st, fld(pointee(it), "array"), "P")
            root, _ = ex.absloc(ex.canon(pointee(ex.padd(a, I0))))
            idxs = [w.idx[0] for w in st.store.get((root, "n"), ()) if w.kind == "w"]
            if not all(x.op == "num" for x in idxs):
                raise Unsupported("entries at %s" % idxs)
            found = []
            for i in sorted(set(int(val(x)) for x in idxs)):
                found.append(((), describe(ex, st, pointee(ex.padd(a, num(i, "I"))))))
            for b, d, pc in flatten(st.events):
                if ex.decide(pc, st) is not TRUE:
                    raise Unsupported("an entry appended if %s" % pc)
                found.append((b, d))
        except ERR as e:
            c.open(tag + "summary of every loop", "%s: %s" % (type(e).__name__, str(e)[:300]))
            opened.append(tag + "summary of every loop")
            continue

        def ob(nm, f):
            if not attempt(c, tag + nm, f, INV):
                opened.append(tag + nm)
        E = tu.enumname
        i_, h_ = num(E[INT], "I"), num(E[HALF], "I")
        plain = dict((tuple(int(val(x)) for x in d[:4]), d) for b, d in found if not b and all(x.op == "num" for x in d[:4]))
        want = [(n, l, E[INT], E[INT]) for n, l in LINEAR]
        if fl or fn:
            want.append((1, -1, E[HALF], E[HALF]))
        for k in want:
            def one(k=k):
                d = plain.get(k)
                if d is None:
                    return "there is no such entry"
                return eqspline(ex, d[4], W.linear([num(x, "I") for x in k]))
            ob("n = %d, l = %d%s" % (k[0], k[1], " (halves)" if k[2] else ""), one)
        if dv_:
            def four():
                d = plain.get((4, 0, E[INT], E[INT]))
                if d is None:
                    return "there is no such entry"
                r4, ren0, ren = W.divergent()
                for nm, x, y in (("result", d[4], r4), ("renormalisation at zero separation", d[5], ren0), ("renormalisation", d[6], ren)):
                    r = eqspline(ex, x, y)
                    if r:
                        return nm + ": " + r
            ob("n = 4, l = 0 and its renormalisation", four)

        def rest():
            known = set(want) | ({(4, 0, E[INT], E[INT])} if dv_ else set())
            for b, d in found:
                if not b and all(x.op == "num" for x in d[:4]) and tuple(int(val(x)) for x in d[:4]) in known:
                    continue
                save = dict(ex.bounds)
                for K, lo, hi in b:
                    ex.bounds[K] = (lo, hi)
                r = eqspline(ex, d[4], W.linear(d[:4]))
                ex.bounds = save
                if r:
                    return "entry %s: %s" % (d[:4], r)
        ob("every further entry holds the integral it is filed under", rest)

        def loops_(keyof, bound2):
            for b, d in found:
                if len(b) != (2 if bound2 else 1) or not ex.same(b[0][1], I0) or not ex.same(b[0][2], L):
                    continue
                l = S.arr(ex, W.st0, W.P("multipole_values", "P"), b[0][0], "I")
                if bound2 and not (ex.same(b[1][1], I0) and ex.same(b[1][2], add(idiv(l, num(2, "I")), I1))):
                    continue
                if all(ex.same(x, y) for x, y in zip(d[:4], keyof(l, b))):
                    return None
            return "not found"
        if fn and out == "MULTIPOLES":
            ob("n = 1 and every multipole", lambda: loops_(lambda l, b: (I1, l, i_, i_), False))
        if fl and out == "MULTIPOLES":
            ob("n = (l-2k+3)/2, l = (l-2k+1)/2 for every multipole l and k <= l/2",
               lambda: loops_(lambda l, b: (add(l, num(3, "I"), neg(mul(num(2, "I"), b[1][0]))), add(l, I1, neg(mul(num(2, "I"), b[1][0]))), h_, h_), True))
        ob("the inputs are not modified", lambda: frame_in(ex, st, (par, bg)))
    return opened


SET = ("verbose", "divergent", "flatsky_local_nonlocal", "flatsky_nonlocal", "output_type", "deltaz_len")


def frame_in(ex, st, objs):
    for k in [k for k in st.store if k[0] == (("obj", objs[0]), "*") and k[1] in SET]:
        if len(st.store[k]) > 1:
            return "writes %s" % (k,)
        del st.store[k]
    for k in [k for k in st.store if k[0] == "var" and k[1] in ("global:coffe_sep_len", "global:min_sep_len")]:
        if len(st.store[k]) > 1:
            return "writes %s" % (k,)
        del st.store[k]
    return frame(ex, st, objs)


# ---- constants and calls --------------------------------------------------------------------------------

def constants(tus, name):
    """the elements of a constant table of integrals.c, and the value of its length"""
    from dv.sym import Frame
    tu = tus[0]
    ex = Executor(Program(tus), INTG)
    fr = Frame(tu, "constants", ex)
    decl = dict((d["name"], d) for d in tu.globals.values() if d.get("inner"))
    lst = [x for x in decl[name]["inner"] if x.get("kind") == "InitListExpr"][0]
    st = State()
    el = [ex.simp(toR(ex.ev(fr, x, st))) for x in lst["inner"]]
    ln = [x for x in decl[name + "_len"]["inner"] if "kind" in x and not x["kind"].endswith("Attr")][0]
    return [val(x) for x in el], val(ex.simp(ex.ev(fr, ln, st)))


def increasing(tus, name, top):
    el, n = constants(tus, name)
    if n != len(el):
        return "%s_len is %s for %d elements" % (name, n, len(el))
    if not el[0] > 0 or any(a >= b for a, b in zip(el, el[1:])):
        return "not positive and increasing"
    if top is not None and el[-1] >= top:
        return "does not end below %s" % top
    return None


def walk(n):
    yield n
    for x in n.get("inner", ()):
        for y in walk(x):
            yield y


def keys(c, loaded):
    """every key looked up by name somewhere is one of those that coffe_integrals_init builds"""
    from dv.sym import Frame
    built = set((n, l, INT, INT) for n, l in LINEAR) | {(4, 0, INT, INT), (1, -1, HALF, HALF)}
    seen = set()
    for tu in loaded:
        ex = Executor(Program([tu]), INTG)
        fr = Frame(tu, "keys", ex)
        for fn, d in tu.functions.items():
            for x in walk(d):
                if x.get("kind") != "CallExpr":
                    continue
                ref = [y for y in walk(x["inner"][0]) if y.get("kind") == "DeclRefExpr"]
                if not ref or ref[0]["referencedDecl"].get("name") != "coffe_find_integral":
                    continue
                try:
                    v = [ex.simp(ex.ev(fr, a, State())) for a in x["inner"][2:]]
                except ERR:
                    continue
                if len(v) != 4 or any(a.op != "num" for a in v):
                    continue       # computed keys: the orders are part of P04 and P06
                st = {tu.enumname[INT]: INT, tu.enumname[HALF]: HALF}
                v = [int(val(a)) for a in v]
                k = (v[0], v[1], st.get(v[2]), st.get(v[3]))
                seen.add(k)
                if k not in built:
                    return "%s looks up %s" % (fn, k)
    if len(seen) < 8:
        return "only %d keys found" % len(seen)
    return None


def freed(tus):
    tu = tus[0]
    ex = Executor(Program(tus), INTG)
    it = sym("integral", "P")
    st = State()
    ex.unsigned_terms.add(ex.read(st, fld(pointee(it), "size"), "I"))
    st, v = ex.call_function(tu, tu.functions["coffe_integrals_free"], [it], st)
    if ex.simp(ex.read(st, fld(pointee(it), "array"), "P")) is not NULL:
        return "array: %s" % ex.read(st, fld(pointee(it), "array"), "P")
    return same(ex, ex.read(st, fld(pointee(it), "size"), "I"), I0)


def integrals(c, scratch):
    c.assume("GSL splines: an interpolant of the given points, a function of them alone (the coffe_*spline* helpers are discharged against them)",
             "gsl_integration_qag: the integral of the given integrand over [a,b] (numerical error not modelled; coffe_integrate_1d_prec_gsl is discharged against it)",
             "twofast_1bessel and its helpers are discharged as an algorithm (input, spectrum, multiplier, output); assumed: FFTW computes discrete Fourier transforms, the nine-term Lanczos series is log Gamma, complex numbers are one commutative field with opaque elementary functions, and the FFTlog sum approximates the Bessel integral (a bounded replay stands in for that analysis)",
             "gsl_sf_bessel_*: the Bessel functions (coffe_max_array_double is discharged)",
             "GSL's spherical Bessel functions j_l for l >= 0, J_n for n >= 0; multipoles are even and not negative, deltaz is as long as z_mean",
             "coffe_malloc and realloc return memory of the requested size or end the program; machine arithmetic is treated as real arithmetic")
    tus = [load("integrals.c"), load("common.c")]
    c.function("coffe_find_integral", "the first entry whose n, l, state_n, state_l all agree, NULL if there is none")
    c.function("coffe_integrals_renormalizable (integrals_prefactor, integrals_bessel_integrand, integrals_integrate_function, integrals_coefficients inlined)",
               "(r, max(r^(n-l), 1) I^n_l(r)): r = 0 with its limit, the small separations by quadrature, the logarithmic grid by the transform")
    c.function("coffe_integrals_init (with integrals_renormalization, integrals_renormalization0_integrand)",
               "one entry per needed (n, l), holding the spline of its own integral; divergent (4,0) with its two renormalisations; inputs not modified")
    c.function("coffe_integrals_free", "size = 0, array = NULL")

    def sample(runs, k):
        lib = build(scratch, shims=("shim_integrals.c",), wrap=["coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential"])
        jobs = [{"lib": lib, "seed": c.seed + i, "runs": [r], "transforms": 0} for i, r in enumerate(runs)] + [{"lib": lib, "seed": c.seed, "runs": [], "transforms": k}]
        from concurrent.futures import ThreadPoolExecutor
        n, bad = 0, []
        with ThreadPoolExecutor(4) as p:
            for a, b in p.map(lambda j: base.run("integrals", j), jobs):
                n += a
                bad += b
        return n, bad
    RUNS = [(1, 1, 0, 2), (0, 0, 1, 1), (1, 0, 1, 3), (0, 1, 1, 2), (0, 0, 0, 2), (1, 0, 0, 2), (0, 1, 0, 1)]
    c.replay = (lambda: sample(RUNS * (1 if c.tier == "quick" else 3), 20), "replayed on the compiled tables against independent sums over Bessel functions")
    opened = []

    def ob(nm, f, be=INV):
        if not attempt(c, nm, f, be):
            opened.append(nm)
    ob("coffe_find_integral: the first entry with that key, NULL without one", lambda: lookup(tus))
    ob("min_sep: positive, increasing, below the start of the logarithmic grid; min_sep_len its length", lambda: increasing(tus, "min_sep", 1), "constant evaluation")
    ob("coffe_sep: positive, increasing; coffe_sep_len its length", lambda: increasing(tus, "coffe_sep", None), "constant evaluation")
    ob("every constant key looked up is built", lambda: keys(c, [load(f) for f in ("functions.c", "corrfunc.c", "multipoles.c", "average_multipoles.c", "signal.c", "integrals.c")]), "constant evaluation")
    ob("coffe_integrals_free leaves an empty array", lambda: freed(tus))
    for half in (False, True):
        opened += renorm(c, tus, half)
    opened += table(c, tus)
    bounded_transform(c, sample)
    fallback(c, opened, *c.replay)


def bounded_transform(c, sample):
    try:
        n, bad = sample([], 16 if c.tier == "quick" else 200)
    except (BuildError, RuntimeError) as e:
        print("  bounded check of the transform unavailable: %s" % str(e)[:200])
        return
    c.bound("twofast_1bessel: contract", "%d separations of sampled spectra and orders against direct sums" % n)
    if bad:
        c.violation("twofast_1bessel: contract", {"failing_inputs": bad[:6]})
