"""P08: the covariance of the multipoles (covariance.c)."""
from dv.cast import load
from dv.sym import Program, Executor, State, Unsupported
from dv.term import *
from dv.term import mk
from dv.deriv import D, jl
from dv.prove import int_valid
from specs.covariance import *
from specs.splines import SPL, quadterm
from replay.build import build
from replay import base
from .common import *
from .tables import same, frame

OUTS = ("COVARIANCE_MULTIPOLES", "COVARIANCE_AVERAGE_MULTIPOLES")
METHODS = ("STANDARD", "FFTLOG")


def run_cov(tus, out, method, pk, win):
    tu = tus[0]
    ex = Executor(Program(tus), COV)
    par, bg, c1, c2 = [sym(x, "P") for x in ("par", "background", "cov", "avg")]
    st = State()
    P = lambda n: fld(pointee(par), n)
    N = ex.read(st, P("z_mean_len"), "I")
    for n in ("density1_len", "zmin_len"):
        ex.write(st, P(n), N)
    for n, v in (("output_type", tu.enumname[out]), ("covariance_integration_method", tu.enumname["COFFE_COVARIANCE_INTEGRATION_" + method]),
                 ("pk_type", pk), ("covariance_window", win), ("verbose", 0)):
        ex.write(st, P(n), num(v, "I"))
    st, v = ex.call_function(tu, tu.functions["coffe_covariance_init"], [par, bg, c1, c2], st)
    if st is None:
        raise Unsupported("never returns")
    avg = out != OUTS[0]
    C = Cell(ex, st, par, bg, avg, method, pk, win)
    lens = [C.P(x, "I") for x in ("density1_len", "multipole_values_len", "sep_len", "multipole_values_len", "sep_len")]
    ix = [sym(x, "I") for x in "kimjn"]
    cell = num(0, "I")
    for x, b in zip(ix, lens):
        ex.unsigned_terms.add(b)
        ex.bounds[x] = (num(0, "I"), b)
        cell = add(mul(cell, b), x)
    res = c2 if avg else c1
    el = pointee(ex.padd(ex.read(st, fld(pointee(res), "array"), "P"), cell))
    return ex, st, C, lens, ix, res, el, (par, bg)


def table(c, tus):
    opened = []
    for out in OUTS:
        for method in METHODS:
            for pk in (0, 1):
                for win in (0, 1):
                    tag = "coffe_covariance_init[%s,%s,%s,%s]: " % (
                        "averages" if out != OUTS[0] else "multipoles", method.lower(), "P(k,z)" if pk else "linear", "window" if win else "no window")
                    try:
                        r = run_cov(tus, out, method, pk, win)
                    except ERR as e:
                        c.open(tag + "summary of every loop", "%s: %s" % (type(e).__name__, str(e)[:300]))
                        opened.append(tag + "summary of every loop")
                        continue
                    ex, st, C, lens, (k, i, m, j, n), res, el, objs = r

                    def ob(nm, f):
                        if not attempt(c, tag + nm, f, INV):
                            opened.append(tag + nm)
                    ob("size", lambda: same(ex, ex.read(st, fld(pointee(res), "size"), "I"), mul(*lens)))
                    co = fld(el, "coords")
                    want = [("l1", C.at("multipole_values", i, "I")), ("l2", C.at("multipole_values", j, "I")),
                            ("separation1", C.at("sep", m)), ("separation2", C.at("sep", n))]
                    want += [("z_min", C.at("zmin", k)), ("z_max", C.at("zmax", k))] if C.averages else [("z_mean", C.at("z_mean", k))]
                    for f, v in want:
                        ob("coords.%s" % f, lambda f=f, v=v: same(ex, ex.read(st, fld(co, f), v.sort), v))

                    def samples():
                        b = C.P("covariance_integration_bins", "I")
                        ns = getattr(ex, "samples", ())
                        if not ns:
                            return "the transform is not computed"
                        for x in ns:
                            r = int_valid(implies(le(num(8, "I"), b), band(eq(imod(x, num(2, "I")), num(0, "I")), le(b, x), le(x, add(b, num(1, "I"))))))
                            if r is not None:
                                return "sample count %s: %s" % (show(x), r)
                    if method == "FFTLOG":
                        ob("the number of samples of the transform is even, and the requested one up to that", samples)

                    def value():
                        got = ex.simp(ex.read(st, fld(el, "value"), "R"))
                        spec = add(*[ite(g, v, num(0)) for g, v in C.value(k, i, m, j, n)])
                        d = ex.N.diff(got, spec)
                        if d:
                            d = ex.N.clear_inverses(d)
                        return None if not d else "residual %s" % ex.N.show_poly(d, 2)[:300]
                    ob("value of cell (k,i,m,j,n) = Poisson + mixed + cosmic variance", value)
                    ob("the inputs are not modified", lambda: frame_but(ex, st, objs))
    return opened


def frame_but(ex, st, objs):
    keep = ("density1_len", "zmin_len", "output_type", "covariance_integration_method", "pk_type", "covariance_window", "verbose")
    for k in [k for k in st.store if k[0] == (("obj", objs[0]), "*") and k[1] in keep]:
        if len(st.store[k]) > 1:
            return "writes %s" % (k,)
        del st.store[k]
    return frame(ex, st, objs)


def helpers(c, tus):
    tu, cm = tus
    opened = []

    def ob(nm, f, backend=NF):
        if not attempt(c, nm, f, backend):
            opened.append(nm)

    def without(*names):
        return dict((k, v) for k, v in COV.items() if k not in names)

    def value(ex, tu_, fn, args, st=None):
        st, v = ex.call_function(tu_, tu_.functions[fn], args, st or State())
        if v is None:
            raise Unsupported("%s never returns" % fn)
        return v, st

    def eqv(ex, a, b):
        d = ex.N.diff(ex.simp(a), ex.simp(b))
        if d:
            d = ex.N.clear_inverses(d)
        return None if not d else "residual %s" % ex.N.show_poly(d, 2)[:300]
    c.function("covariance_coefficient_pair / covariance_coefficient", "alpha_l of the redshift-space power spectrum of the two populations, l = 0, 2, 4; zero otherwise")
    for l in (0, 2, 4, 1, 3, 6):
        def coef(l=l):
            ex = Executor(Program(tus), without("covariance_coefficient_pair"))
            st = State()
            bias = sym("bias", "P")
            p1, p2, f = sym("p1", "I"), sym("p2", "I"), sym("f")
            v, _ = value(ex, tu, "covariance_coefficient_pair", [p1, p2, bias, f, num(l, "I")])
            b = lambda p: ex.read(st, pointee(ex.padd(bias, sub(p, num(1, "I")))), "R")
            return eqv(ex, v, alpha(b(p1), b(p2), f, num(l, "I")))
        ob("covariance_coefficient_pair[l=%d]" % l, coef)
    c.function("coffe_legendre_integral", "integral of four Legendre polynomials: 2 sum_l (2l+1) (n m l; 0 0 0)^2 (a b l; 0 0 0)^2 over the triangle range, zero for odd n+m+a+b")

    def leg():
        ex = Executor(Program(tus), without("coffe_legendre_integral"))
        n, m, a, b = xs = [sym(x, "I") for x in "nmab"]
        for x in xs:
            ex.unsigned_terms.add(x)
        v, _ = value(ex, cm, "coffe_legendre_integral", xs)
        I = lambda x: num(x, "I")
        ab = lambda x, y: app("iabs", (sub(x, y),), "I")
        mx = ite(lt(ab(a, b), ab(n, m)), ab(n, m), ab(a, b))
        mn = ite(lt(add(n, m), add(a, b)), add(n, m), add(a, b))
        l = ex.fresh("l", "I")
        w = lambda x, y: powi(app("w3j", (mul(I(2), x), mul(I(2), y), mul(I(2), l), I(0), I(0), I(0)), "R"), 2)
        hi = add(mn, I(1))
        s = ex.bindsum(l, mul(add(mul(num(2), toR(l)), num(1)), w(n, m), w(a, b)), mx, hi)
        want = ite(eq(imod(add(n, m, a, b), I(2)), I(0)), mul(num(2), ite(lt(mx, hi), s, num(0))), num(0))
        return eqv(ex, v, want)
    ob("coffe_legendre_integral", leg, INV)
    c.function("coffe_kronecker_delta, coffe_sign", "[i = j]; (-1)^m")

    def sgn_ob():
        ex = Executor(Program(tus), without("coffe_sign"))
        m = sym("m", "I")
        v, _ = value(ex, cm, "coffe_sign", [m])
        alt = [ite(eq(imod(u, num(2, "I")), num(0, "I")), num(1, "I"), num(-1, "I")) for u in (app("iabs", (m,), "I"), m)]
        r = [eqv(ex, v, a) for a in alt]
        return None if None in r else r[0]
    ob("coffe_sign", sgn_ob)
    c.function("integral_power_spherical_bessel1_unit", "an antiderivative of x^2 j_l(x), l = 0..6 (lemma: its derivative is x^2 j_l(x), by exact symbolic differentiation)")
    for l in range(7):
        def anti(l=l):
            ex = Executor(Program(tus), COV)
            x = sym("x")
            v, _ = value(ex, tu, "integral_power_spherical_bessel1_unit", [num(2, "I"), num(l, "I"), x])
            return eqv(ex, D(v, x), mul(powi(x, 2), jl(l, x)))
        ob("integral_power_spherical_bessel1_unit[l=%d]" % l, anti, "exact symbolic derivative + nf")
    c.function("covariance_windowed_bessel", "j_l(k s) for a bin of no width, otherwise the average of j_l(k r) over the spherical shell of the bin")

    def wind():
        con = without("covariance_windowed_bessel")
        con["integral_power_spherical_bessel1_unit"] = lambda ex, fr, st, v, n: app("Phi", (toI(v[0]), toI(v[1]), toR(v[2])), "R")
        ex = Executor(Program(tus), con)
        s, p = sym("s"), sym("p", "P")
        st = State()
        v, _ = value(ex, tu, "covariance_windowed_bessel", [s, p])
        rd = lambda f, so="R": ex.read(st, fld(pointee(p), f), so)
        l, k, sm, d = rd("ell", "I"), rd("k"), rd("s_mean"), rd("s_delta")
        h = mul(num(F(1, 2)), d)
        a, b = sub(sm, h), add(sm, h)
        phi = lambda r: app("Phi", (num(2, "I"), l, mul(k, r)), "R")
        avg = div(mul(num(3), sub(phi(b), phi(a))), mul(powi(k, 3), sub(powi(b, 3), powi(a, 3))))
        return eqv(ex, v, ite(eq(d, num(0)), app("jl", (l, mul(s, k)), "R"), avg))
    ob("covariance_windowed_bessel", wind)
    c.function("covariance_integrate_fftlog", "result[n*npix+m] = the 2D-FFTlog transform of delta(k1,k2) k^3 P^power / dlnk at (separation m, separation n)")
    for power in (1, 2):
        ob("covariance_integrate_fftlog[power=%d]" % power, lambda power=power: fftlog_ob(tus, power), INV)
    return opened


def two_bessel(ex, fr, st, v, n):
    k1, k2, fk, N1, N2, cfg, r1, r2, res = v
    N1, N2 = toI(N1), toI(N2)
    z = num(0, "I")
    a, b = ex.fresh("a", "I"), ex.fresh("b", "I")
    bnds = {a: (z, N1), b: (z, N2)}
    ex.bounds.update(bnds)
    try:
        at = lambda p, i, s="R": ex.simp(ex.read(st, pointee(ex.padd(p, i)), s))
        x, y = at(k1, a), at(k2, b)
        f = at(at(fk, a, "P"), b)
        cf = [toR(ex.read(st, fld(pointee(cfg), w), "R")) for w in ("l1", "l2", "nu1", "nu2", "c_window_width")]
        con, names = ex.bind([a, b], app("trip", (x, y, f), "R"))
        what = [N1, N2] + cf + list(names) + list(con.args[1:])
        R1, R2 = app("SBr1", tuple(what) + (a,), "R"), app("SBr2", tuple(what) + (b,), "R")
        G = app("SB", tuple(what) + (a, b), "R")
        dom = lambda v, N: band(le(z, v), lt(v, N))
        for p, i, N, val in ((r1, a, N1, R1), (r2, b, N2, R2)):
            k, ix = ex.absloc(ex.canon(pointee(ex.padd(p, i))))
            st.store[k] = st.store.get(k, ()) + (Write(tuple(ix), val, TRUE, (i,), dom(i, N), "w", {i: (z, N)}),)
        row = at(res, a, "P")
        k, ix = ex.absloc(ex.canon(pointee(ex.padd(row, b))))
        st.store[k] = st.store.get(k, ()) + (Write(tuple(ix), G, TRUE, (a, b), band(dom(a, N1), dom(b, N2)), "w", dict(bnds)),)
    finally:
        del ex.bounds[a], ex.bounds[b]
    return num(0, "I")


def init2d(ex, fr, st, v, n):
    s, x, y, zz, nx, ny, meth = v
    nx, ny = toI(nx), toI(ny)
    z = num(0, "I")
    a, b = ex.fresh("a", "I"), ex.fresh("b", "I")
    ex.bounds.update({a: (z, nx), b: (z, ny)})
    try:
        at = lambda p, i, s="R": ex.simp(ex.read(st, pointee(ex.padd(p, i)), s))
        con, names = ex.bind([a, b], app("trip", (at(x, a), at(y, b), at(zz, add(mul(b, nx), a))), "R"))
    finally:
        del ex.bounds[a], ex.bounds[b]
    ex.write(st, fld(pointee(s), "content!"), app("spline2d", (toI(meth), nx, ny) + names + con.args[1:], "R"))
    return num(0, "I")


def interp2d(ex, fr, st, v, n):
    return app("interp2d", (ex.read(st, fld(pointee(v[0]), "content!"), "R"), toR(v[1]), toR(v[2])), "R")


def fftlog_ob(tus, power):
    con = dict((k, v) for k, v in COV.items() if k != "covariance_integrate_fftlog")
    con.update({"two_sph_bessel": two_bessel, "coffe_init_spline2d": init2d, "coffe_interp_spline2d": interp2d,
                "coffe_free_spline2d": lambda *a: num(0, "I")})
    ex = Executor(Program(tus), con)
    tu = tus[0]
    sp, sep, res = [sym(x, "P") for x in ("spline", "separations", "result")]
    l1, l2, N, npix, meth = [sym(x, "I") for x in ("l1", "l2", "N", "npix", "method")]
    kmin, kmax = sym("kmin"), sym("kmax")
    z = num(0, "I")
    for x in (N, npix):
        ex.unsigned_terms.add(x)
    st = State()
    st, v = ex.call_function(tu, tu.functions["covariance_integrate_fftlog"],
                             [sp, num(power), l1, l2, N, sep, npix, kmin, kmax, meth, res], st)
    m, n = sym("m", "I"), sym("n", "I")
    ex.bounds[m] = ex.bounds[n] = (z, npix)
    got = ex.simp(ex.read(st, pointee(ex.padd(res, add(mul(npix, n), m))), "R"))
    # contract
    a, b = ex.fresh("a", "I"), ex.fresh("b", "I")
    k = lambda i: mul(kmin, cpow(div(kmax, kmin), div(toR(i), toR(N))))
    step = div(app("log", (div(kmax, kmin),), "R"), toR(N))
    f = ite(eq(a, b), div(mul(powi(k(a), 3), cpow(app("interp", (sp, k(a)), "R"), num(power))), step), num(0))
    con, names = ex.bind([a, b], app("trip", (k(a), k(b), f), "R"))
    nu = num(F("1.01"))
    what = (N, N, toR(l1), toR(l2), nu, nu, num(F("0.25"))) + tuple(names) + con.args[1:]
    con2, names2 = ex.bind([a, b], app("trip", (app("SBr1", what + (a,), "R"), app("SBr2", what + (b,), "R"), app("SB", what + (a, b), "R")), "R"))
    at = lambda i: ex.read(st, pointee(ex.padd(sep, i)), "R")
    want = app("interp2d", (app("spline2d", (meth, N, N) + tuple(names2) + con2.args[1:], "R"), at(m), at(n)), "R")
    d = ex.N.diff(got, want)
    return None if not d else "got %s" % ex.N.show_poly(d, 2)[:1500]


def covariance(c, scratch):
    c.assume("GSL splines: an interpolant of the given points, a function of them alone (coffe_init_spline and coffe_interp_spline are discharged against them)",
             "gsl_integration_qag: the integral of the given integrand over [a,b]; the numerical error of the two 1d integrators is not modelled (what they integrate, and the double exponential rule, are discharged)",
             "two_sph_bessel, g_l, lngamma_lanczos and c_window_2d are discharged as an algorithm (input, spectrum, result, memory) for even sizes; assumed: FFTW computes discrete Fourier transforms, the Lanczos series is log Gamma, and the FFTlog sum samples the double spherical-Bessel integral; gsl_sf_bessel_jl, gsl_sf_Si, gsl_sf_coupling_3j are what they are named after",
             "precondition: density1, density2, pixelsize, fsky, deltaz and the redshifts have the same length; populations are numbered 1 to 4; orders are at most 6 with a window",
             "machine arithmetic is treated as real arithmetic")
    def replay():
        lib = build(scratch, shims=("shim.c", "shim_cov.c"), wrap=["coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential", "two_sph_bessel"])
        n, bad = 0, []
        for s in range(c.seed, c.seed + (1 if c.tier == "quick" else 4)):
            a, b = base.run("cov", {"lib": lib, "seed": s})
            n += a
            bad += b
        return n, bad
    c.replay = (replay, "replayed on the compiled covariance over fixed quadrature nodes and a stand-in FFTlog")

    tus = [load("covariance.c"), load("common.c")]
    c.function("coffe_covariance_init (with covariance_integral, covariance_integrand, covariance_volume_integrand inlined)",
               "array[((((k*L+i)*S+m)*L+j)*S+n)] = coordinates and Poisson + mixed + cosmic variance of (l_i,s_m)x(l_j,s_n) in bin k; assigns only the result")
    opened = table(c, tus)
    opened += helpers(c, tus)

    fallback(c, opened, *c.replay)
