"""Replay of the numerical helpers against direct evaluation."""
import ctypes as C
import math
import random
import mpmath as mp
import numpy as np

D, S, I, P = C.c_double, C.c_size_t, C.c_int, C.c_void_p
FN = C.CFUNCTYPE(D, D, P)
MFN = C.CFUNCTYPE(D, C.POINTER(D), S, P)
PARAMS = 0x1234
ONE = {1: "linear", 2: "polynomial", 3: "cspline", 4: "cspline_periodic", 5: "akima", 6: "akima_periodic", 7: "steffen", 99: "akima"}
TWO = {1: "bilinear", 2: "bicubic", 99: "bicubic"}


class S1(C.Structure):
    _fields_ = [("spline", P), ("accel", P)]


class S2(C.Structure):
    _fields_ = [("spline", P), ("xaccel", P), ("yaccel", P)]


class Mall(C.Structure):
    _fields_ = [(n, S) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def arr(x):
    return (D * len(x))(*x)


def main(job):
    lib = C.CDLL(job["lib"])
    libc = C.CDLL(None)
    libc.mallinfo2.restype = Mall
    rng = random.Random(job["seed"])
    n, bad = 0, []

    def sig(name, res, *args):
        f = getattr(lib, name)
        f.restype, f.argtypes = res, list(args)
        return f

    def check(what, got, want, tol=1e-12, **inp):
        nonlocal n
        n += 1
        if not (abs(got - want) <= tol * max(1.0, abs(want)) or (got != got and want != want)):
            if len(bad) < 20:
                bad.append(dict(function=what, got=got, expected=want, **inp))
    for rep in range(job.get("reps", 1)):
        only = job.get("only") or ["spline", "arrays", "quadrature"]
        if "spline" in only:
            splines(lib, libc, sig, check, rng)
        if "arrays" in only or "order" in only:
            arrays(lib, sig, check, rng)
        if "quadrature" in only or "tanhsinh" in only:
            quad(lib, sig, check, rng)
    return n, bad


def splines(lib, libc, sig, check, rng):
    gsl = lambda name: P.in_dll(lib, name)
    ini, ev, fr = sig("coffe_init_spline", I, P, P, P, S, I), sig("coffe_interp_spline", D, P, D), sig("coffe_free_spline", I, P)
    alloc, init, geval = sig("gsl_spline_alloc", P, P, S), sig("gsl_spline_init", I, P, P, P, S), sig("gsl_spline_eval", D, P, D, P)
    for k, nm in ONE.items():
        for m in (5, 9, 40):
            if nm == "polynomial" and m > 9:
                continue
            x = arr(np.cumsum([rng.uniform(0.1, 1) for _ in range(m)]))
            y = [rng.uniform(-3, 3) for _ in range(m)]
            if "periodic" in nm:
                y[-1] = y[0]
            y = arr(y)
            s = S1()
            sig("coffe_new_spline", I, P)(C.byref(s))
            if s.spline or s.accel:
                check("coffe_new_spline", 1, 0)
            ini(C.byref(s), x, y, m, k)
            ref = alloc(gsl("gsl_interp_" + nm), m)
            init(ref, x, y, m)
            for _ in range(30):
                t = rng.uniform(x[0], x[m - 1])
                check("coffe_interp_spline(%s, %d points)" % (nm, m), ev(C.byref(s), t), geval(ref, t, None), x=list(x)[:6], at=t)
            fr(C.byref(s))
            fr(C.byref(s))
            check("coffe_free_spline leaves the object empty", 1 if (s.spline or s.accel) else 0, 0)
    ini2, ev2 = sig("coffe_init_spline2d", I, P, P, P, P, S, S, I), sig("coffe_interp_spline2d", D, P, D, D)
    fr2 = sig("coffe_free_spline2d", I, P)
    al2, in2, ge2 = sig("gsl_spline2d_alloc", P, P, S, S), sig("gsl_spline2d_init", I, P, P, P, P, S, S), sig("gsl_spline2d_eval", D, P, D, D, P, P)
    for k, nm in TWO.items():
        for a, b in ((5, 5), (6, 9), (12, 4)):
            x = arr(np.cumsum([rng.uniform(0.1, 1) for _ in range(a)]))
            y = arr(np.cumsum([rng.uniform(0.1, 1) for _ in range(b)]))
            z = arr([rng.uniform(-3, 3) for _ in range(a * b)])
            s = S2()
            ini2(C.byref(s), x, y, z, a, b, k)
            ref = al2(gsl("gsl_interp2d_" + nm), a, b)
            in2(ref, x, y, z, a, b)
            for _ in range(30):
                t, u = rng.uniform(x[0], x[a - 1]), rng.uniform(y[0], y[b - 1])
                check("coffe_interp_spline2d(%s, %dx%d)" % (nm, a, b), ev2(C.byref(s), t, u), ge2(ref, t, u, None, None), at=[t, u])
            fr2(C.byref(s))
            fr2(C.byref(s))
            check("coffe_free_spline2d leaves the object empty", 1 if (s.spline or s.xaccel or s.yaccel) else 0, 0)
    x, y = arr([float(i) for i in range(60)]), arr([math.sin(i) for i in range(60)])
    z = arr([math.sin(i) for i in range(3600)])
    use = []
    for _ in range(3):
        for _ in range(200):
            s, t = S1(), S2()
            ini(C.byref(s), x, y, 60, 5)
            fr(C.byref(s))
            ini2(C.byref(t), x, x, z, 60, 60, 1)
            fr2(C.byref(t))
        use.append(libc.mallinfo2().uordblks + libc.mallinfo2().hblkhd)
    check("memory kept by 200 splines that were freed", 1 if use[2] - use[1] > 16 * 200 else 0, 0, bytes=use[2] - use[1])


def arrays(lib, sig, check, rng):
    res, mul = sig("coffe_rescale_array", None, P, S, D), sig("coffe_multiply_array", None, P, P, P, S)
    pw, mx = sig("coffe_multiply_power_array", None, P, P, P, S, D), sig("coffe_max_array_double", D, P, S)
    gen = sig("coffe_generate_range", C.POINTER(D), D, D, S)
    for m in (1, 2, 3, 7, 40):
        for _ in range(20):
            x, y = [rng.uniform(0.1, 3) for _ in range(m)], [rng.uniform(0.1, 3) for _ in range(m)]
            sx = [v * rng.choice((1, -1)) for v in x]
            f = rng.uniform(-3, 3)
            a = arr(x + [7.0])
            res(a, m, f)
            for i in range(m):
                check("coffe_rescale_array", a[i], x[i] * f, i=i, n=m)
            check("coffe_rescale_array beyond the end", a[m], 7.0, n=m)
            o = arr([0.0] * m + [7.0])
            mul(o, arr(x), arr(y), m)
            for i in range(m):
                check("coffe_multiply_array", o[i], x[i] * y[i], i=i, n=m)
            pw(o, arr(x), arr(y), m, f)
            for i in range(m):
                check("coffe_multiply_power_array", o[i], x[i] * y[i] ** f, i=i, n=m, power=f)
            check("coffe_multiply_* beyond the end", o[m], 7.0, n=m)
            check("coffe_max_array_double", mx(arr(sx), m), max(sx), array=sx[:8])
            neg = [-abs(v) for v in sx]
            check("coffe_max_array_double", mx(arr(neg), m), max(neg), array=neg[:8])
            a0 = rng.uniform(-3, 3)
            g = gen(a0, a0 + x[0], m)
            for i in range(m):
                check("coffe_generate_range", g[i], a0 + x[0] * i / m, i=i, steps=m)
    libc = C.CDLL(None)
    libc.malloc_usable_size.restype, libc.malloc_usable_size.argtypes = S, [P]
    for m in (1000, 12345):
        check("coffe_generate_range: room for the array", 1 if libc.malloc_usable_size(C.cast(gen(0.0, 1.0, m), P)) < 8 * m else 0, 0, steps=m)
    ap = sig("coffe_approx_equal", I, D, D, D, D)
    cmpf = [(sig("coffe_compare_ascending", I, P, P), 1), (sig("coffe_compare_descending", I, P, P), -1)]
    for _ in range(300):
        x, y = [rng.choice((0.0, 1.0, -1.0, rng.uniform(-2, 2))) for _ in range(2)]
        r, e = rng.uniform(0, 1.5), rng.uniform(0, 1.5)
        if rng.random() < 0.3:
            y = x
        if _ < 8:
            x, y, r, e = ((1.0, 0.5, 0.5, 0.5), (0.0, 0.5, 0.5, 0.5), (0.5, 0.0, 0.25, 0.5), (2.0, 1.0, 0.5, 9.0), (0.0, 0.0, 0.0, 0.0), (1.0, 1.0, 0.0, 1.0),
                          (-1.0, -2.0, 1.0, 0.0), (1.0, 2.0, 0.6, 0.0))[_]
        want = abs(x - y) / abs(x) < r if x != 0 and y != 0 else abs(x - y) < e
        check("coffe_approx_equal", ap(x, y, r, e), 1 if want else 0, a=x, b=y, rel=r, abs=e)
        for f, s in cmpf:
            g = f(C.byref(D(x)), C.byref(D(y)))
            check("coffe_compare", (g > 0) - (g < 0), s * ((x > y) - (x < y)), a=x, b=y)
    sg, kd = sig("coffe_sign", I, I), sig("coffe_kronecker_delta", I, I, I)
    for m in range(-20, 21):
        check("coffe_sign", sg(m), (-1) ** (m % 2), m=m)
        for k in range(-5, 6):
            check("coffe_kronecker_delta", kd(m, k), 1 if m == k else 0, i=m, j=k)
    win = sig("coffe_resolution_window", D, D)
    for _ in range(20):
        x = rng.uniform(0.05, 30)
        check("coffe_resolution_window", win(x), 3 * (math.sin(x) / x - math.cos(x)) / x ** 2, 1e-9, x=x)
    lib.sh_new.restype = P
    sh = lib.sh_new()
    eos, setd = sig("coffe_dark_energy_eos", D, D, P), sig("sh_d", I, P, C.c_char_p, D)
    for _ in range(20):
        w0, wa, z = rng.uniform(-2, 0), rng.uniform(-1, 1), rng.uniform(0, 5)
        setd(sh, b"w0", w0)
        setd(sh, b"wa", wa)
        check("coffe_dark_energy_eos", eos(z, sh), w0 + wa * z / (1 + z), w0=w0, wa=wa, z=z)


def quad(lib, sig, check, rng):
    g = sig("coffe_integrate_1d_prec_gsl", D, FN, P, D, D, D)
    e = sig("coffe_integrate_1d_prec_double_exponential", D, FN, P, D, D, D)
    seen = []

    def wrap(f):
        def h(x, p):
            if p != PARAMS:
                seen.append(p)
            return f(x)
        return FN(h)
    for _ in range(40):
        a = rng.uniform(-2, 2)
        b = a + rng.uniform(0.1, 4)
        c, w = rng.uniform(a, b), rng.uniform(0.02, 1)
        cases = [(lambda x: x ** 3 - x + 2, lambda x: x ** 4 / 4 - x * x / 2 + 2 * x), (lambda x: 1 / (w * w + (x - c) ** 2), lambda x: math.atan((x - c) / w) / w),
                 (lambda x: math.exp(x / w) if w > 0.2 else math.cos(x / w), lambda x: w * (math.exp(x / w) if w > 0.2 else math.sin(x / w)))]
        for i, (f, F) in enumerate(cases):
            want = F(b) - F(a)
            scale = max(abs(want), 1e-3)
            for prec in (1e-4, 1e-9):
                check("coffe_integrate_1d_prec_gsl", g(wrap(f), PARAMS, a, b, prec) / scale, want / scale, max(prec, 1e-10), case=i, a=a, b=b, prec=prec)
            if i != 1:
                check("coffe_integrate_1d_prec_double_exponential", e(wrap(f), PARAMS, a, b, 1e-5) / scale, want / scale, 1e-6, case=i, a=a, b=b)
    # the rule itself, from the points at which it evaluates and the weight it gives to each of them
    mp.mp.dps = 40
    tab = {}
    for k in range(-192, 193):
        t = mp.mpf(k) / 64
        u = mp.pi / 2 * mp.sinh(t)
        tab[k] = (float(mp.tanh(u)), float(mp.pi / 2 * mp.cosh(t) / mp.cosh(u) ** 2 / 64))
    for a, b in ((-1.0, 1.0), (0.5, 3.0)):
        vals, pts = {}, []
        noise = [rng.uniform(-1, 1) for _ in range(2000)]

        def f(x):
            pts.append(x)
            return noise[len(pts) - 1] + (1 if len(pts) - 1 == hit else 0)
        cb = wrap(f)
        hit = -1
        base = e(cb, PARAMS, a, b, 1e-5)
        order = list(pts)
        check("tanhsinh_quad: number of points", len(order), len(tab), 0, a=a, b=b)
        xs = sorted(range(len(order)), key=lambda i: order[i])
        if len(order) == len(tab):
            for pos, k in zip(xs, sorted(tab)):
                check("tanhsinh_quad: point %d/64" % k, order[pos], (a + b) / 2 + (b - a) / 2 * tab[k][0], 1e-14, a=a, b=b)
        rank = {i: sorted(tab)[r] for r, i in enumerate(xs)} if len(order) == len(tab) else {}
        for hit in rank:
            pts.clear()
            w = e(cb, PARAMS, a, b, 1e-5) - base
            check("tanhsinh_quad: weight of point %d/64" % rank[hit], w, (b - a) / 2 * tab[rank[hit]][1], 1e-14, a=a, b=b)
        for q in (lambda x: math.exp(-30 * (x - a - 0.3) ** 2), lambda x: 1 / (1 + 25 * x * x), lambda x: abs(x - a - 0.4) ** 0.5, lambda x: math.sin(40 * x)):
            want = sum((b - a) / 2 * tw * q((a + b) / 2 + (b - a) / 2 * tx) for tx, tw in tab.values())
            check("tanhsinh_quad: last level", e(wrap(q), PARAMS, a, b, 1e-5), want, 1e-12, a=a, b=b)
    m = sig("coffe_integrate_multidimensional", D, MFN, P, I, I, I)
    for method in (0, 1, 2):
        for dims in (2, 3, 4):
            box = [[1e9, -1e9] for _ in range(dims)]

            def f(x, d, p):
                if p != PARAMS or d != dims:
                    seen.append((p, d))
                r = 1.0
                for i in range(dims):
                    box[i][0], box[i][1] = min(box[i][0], x[i]), max(box[i][1], x[i])
                    r *= 0.5 + x[i] * (1 + 0.1 * i)
                return r
            want = 1.0
            for i in range(dims):
                want *= 0.5 + (1 + 0.1 * i) / 2
            got = m(MFN(f), PARAMS, method, dims, 20000)
            check("coffe_integrate_multidimensional", got, want, 0.03, method=method, dims=dims)
            for i in range(dims):
                check("coffe_integrate_multidimensional: range of axis %d" % i, box[i][0], 0, 0.02, method=method, dims=dims)
                check("coffe_integrate_multidimensional: range of axis %d" % i, box[i][1], 1, 0.02, method=method, dims=dims)
    check("parameters handed to the integrand", len(seen), 0, 0, seen=str(seen[:3]))
