"""P20: the numerical toolbox the results are built on (common.c, tanhsinh.c)."""
import os
import time
from dv.cast import load
from dv.nf import Norm
from dv.sym import Program, Executor, State, Unsupported, Write, Frame, subterms, mentions, mk
from dv import term as T
from dv.term import *
from dv.rules import fold_rule, flags_rule
from specs.toolbox import TOOLS
from replay import base
from replay.build import build
from .common import attempt, fallback, INV, ERR

BACK = "symbolic execution against GSL contracts + nf"
ONE = {"LINEAR": "linear", "POLYNOMIAL": "polynomial", "CSPLINE": "cspline", "CSPLINE_PERIODIC": "cspline_periodic", "AKIMA": "akima",
       "AKIMA_PERIODIC": "akima_periodic", "STEFFEN": "steffen"}
TWO = {"BILINEAR": "bilinear", "BICUBIC": "bicubic"}


class Run(object):
    RULES = [fold_rule, flags_rule]

    def __init__(self, fn, args, tus=("common.c",), contracts=TOOLS, pre=None, pos=(), recursive=False):
        self.tus = [load(x) for x in tus]
        self.tu = [t for t in self.tus if fn in t.functions][0]
        d = self.tu.functions[fn]
        con = dict(contracts)
        if not recursive:       # a recursive function meets its own contract at the inner call
            con.pop(fn, None)
        self.ex = Executor(Program(self.tus), con)
        self.ex.loop_rules += list(self.RULES)
        for p in pos:
            self.ex.N.bound_below(p, 0, True)
            self.ex.unsigned_terms.add(p)
        st = State()
        if pre:
            pre(self.ex, st)
        self.st, self.v = self.ex.call_function(self.tu, d, list(args), st)
        if self.st is None:
            raise Unsupported("%s never returns" % fn)

    def events(self, *names):
        return [e for e in self.st.events if e[0] in names]

    def read(self, loc, sort):
        return self.ex.simp(self.ex.read(self.st, loc, sort))

    def same(self, a, b, what="value"):
        a, b = self.ex.simp(a), self.ex.simp(b)
        if a is b or self.ex.same(a, b):
            return None
        return "%s is %s, contract says %s" % (what, str(a)[:150], str(b)[:150])

    def one(self, name):
        e = self.events(name)
        if len(e) != 1:
            raise Unsupported("%d calls of %s" % (len(e), name))
        if e[0][2] is not TRUE and self.ex.decide(e[0][2], self.st) is not TRUE:
            raise Unsupported("%s is called only if %s" % (name, str(e[0][2])[:120]))
        return e[0][1]

    def order(self, *names):
        """the events happen in this order"""
        pos = [[i for i, e in enumerate(self.st.events) if e[0] == n] for n in names]
        for a, b in zip(pos, pos[1:]):
            if a and b and max(a) > min(b):
                return "events out of order: %s" % ", ".join(e[0] for e in self.st.events)
        return None


def first(*xs):
    for x in xs:
        if x is not None:
            return x
    return None


def interp1(tu, kind, meth):
    s, x, y, n = sym("s", "P"), sym("x", "P"), sym("y", "P"), sym("n", "I")
    code = num(tu.enumname["COFFE_INTERP_" + kind], "I") if kind else meth
    R = Run("coffe_init_spline", [s, x, y, n, code], pos=(n,))
    t = R.one("gsl_spline_alloc")
    want = R.ex.read(R.st, var("global:gsl_interp_" + (ONE[kind] if kind else "akima")), "P")
    ini = R.one("gsl_spline_init")
    acc = R.one("gsl_interp_accel_alloc")
    sp = R.read(fld(pointee(s), "spline"), "P")
    return first(
        R.same(t[0], want, "interpolation type"), R.same(toI(t[1]), n, "size"), R.same(sp, t[-1], "spline"),
        R.same(R.read(fld(pointee(s), "accel"), "P"), acc[-1], "accelerator"),
        R.same(ini[0], sp, "initialised spline"), R.same(ini[1], x, "abscissae"), R.same(ini[2], y, "ordinates"),
        R.same(toI(ini[3]), n, "length"), R.order("gsl_spline_alloc", "gsl_spline_init"))


def interp2(tu, kind, meth):
    s, x, y, z, n, m = sym("s", "P"), sym("x", "P"), sym("y", "P"), sym("z", "P"), sym("n", "I"), sym("m", "I")
    code = num(tu.enumname["COFFE_INTERP2D_" + kind], "I") if kind else meth
    R = Run("coffe_init_spline2d", [s, x, y, z, n, m, code], pos=(n, m))
    t = R.one("gsl_spline2d_alloc")
    want = R.ex.read(R.st, var("global:gsl_interp2d_" + (TWO[kind] if kind else "bicubic")), "P")
    ini = R.one("gsl_spline2d_init")
    acc = [e[1][-1] for e in R.events("gsl_interp_accel_alloc")]
    sp, xa, ya = [R.read(fld(pointee(s), f), "P") for f in ("spline", "xaccel", "yaccel")]
    if len(acc) != 2 or xa is ya or xa not in acc or ya not in acc:
        return "the two accelerators are %s and %s" % (xa, ya)
    return first(
        R.same(t[0], want, "interpolation type"), R.same(toI(t[1]), n, "first size"), R.same(toI(t[2]), m, "second size"),
        R.same(sp, t[-1], "spline"), R.same(ini[0], sp, "initialised spline"), R.same(ini[1], x, "first axis"),
        R.same(ini[2], y, "second axis"), R.same(ini[3], z, "values"), R.same(toI(ini[4]), n, "first length"),
        R.same(toI(ini[5]), m, "second length"), R.order("gsl_spline2d_alloc", "gsl_spline2d_init"))


def evaluate(two):
    s, x, y = sym("s", "P"), sym("x", "R"), sym("y", "R")
    R = Run("coffe_interp_spline2d" if two else "coffe_interp_spline", [s, x, y] if two else [s, x])
    f = lambda n: R.ex.read(R.st, fld(pointee(s), n), "P")
    want = app("gsl_spline2d_eval", (f("spline"), x, y, f("xaccel"), f("yaccel")), "R") if two else app("gsl_spline_eval", (f("spline"), x, f("accel")), "R")
    return R.same(R.v, want)


def release(two):
    """every part that is there is freed once, and the object is empty afterwards"""
    fn = "coffe_free_spline2d" if two else "coffe_free_spline"
    parts = [("spline", "gsl_spline2d_free" if two else "gsl_spline_free")] + [(a, "gsl_interp_accel_free") for a in (("xaccel", "yaccel") if two else ("accel",))]
    s = sym("s", "P")
    for mask in range(1 << len(parts)):
        have = [bool(mask >> i & 1) for i in range(len(parts))]

        def pre(ex, st):
            for (f, _), h in zip(parts, have):
                ex.write(st, fld(pointee(s), f), mk("app", ("new", "part:" + f), "P") if h else NULL)
        R = Run(fn, [s], pre=pre)
        for (f, g), h in zip(parts, have):
            p = mk("app", ("new", "part:" + f), "P")
            k = [e for e in R.events(g) if e[1][0] is p and e[2] is TRUE]
            if len(k) != (1 if h else 0):
                return "%s present: %s; freed %d times" % (f, h, len(k))
            w = R.same(R.read(fld(pointee(s), f), "P"), NULL, f + " afterwards")
            if w:
                return w
        if len(R.st.events) != sum(have):
            return "events: %s" % ", ".join(e[0] for e in R.st.events)
    return None


def empty(two):
    s = sym("s", "P")
    R = Run("coffe_new_spline2d" if two else "coffe_new_spline", [s])
    return first(*[R.same(R.read(fld(pointee(s), f), "P"), NULL, f) for f in (("spline", "xaccel", "yaccel") if two else ("spline", "accel"))])


def elementwise(fn, args, out, pos, want, p):
    """out[i] = want(i) for every i < n, nothing else changes"""
    R = Run(fn, args, pos=pos)
    i = sym("idx", "I")
    R.ex.bounds[i] = (num(0, "I"), pos[0])
    o = out if out is not None else R.v
    got = R.ex.read(R.st, pointee(R.ex.padd(o, i)), "R")
    raw = lambda q: R.ex.read(State(), pointee(R.ex.padd(q, i)), "R")
    w = R.same(got, want(R, raw, i), "element i")
    if w:
        return w
    R.ex.unsigned_terms.add(sym("past", "I"))
    R.ex.N.bound_below(sym("past", "I"), 0, False)
    if out is None:
        size = [e for e in R.events("coffe_malloc", "malloc", "calloc")]
        if len(size) != 1 or not R.ex.same(mul(*[toI(x) for x in size[0][1]]), mul(mk("sym", ("sizeof<double>",), "I"), pos[0])):
            return "the array has %s bytes" % ", ".join(str(x) for e in size for x in e[1])
    after = pointee(R.ex.padd(o, add(pos[0], sym("past", "I"))))
    w = R.same(R.ex.read(R.st, after, "R"), R.ex.read(State(), after, "R"), "element n + past")
    if w:
        return w
    k, _ = R.ex.absloc(R.ex.canon(pointee(R.ex.padd(o, i))))
    extra = [x for x in R.st.store if x != k and not local(x)]
    return "also writes %s" % (extra[0],) if extra else None


def local(k):
    while k[0] not in ("var", "obj"):
        k = k[0]
    return k[0] == "var" and "@" in str(k[1]) or str(k[1]).startswith("tmp")


def arrays(c, ob):
    a, b, o, n, f = sym("a", "P"), sym("b", "P"), sym("o", "P"), sym("n", "I"), sym("f", "R")
    nn = lambda ex, st: None
    ob("coffe_rescale_array: array[i] * factor", lambda: elementwise("coffe_rescale_array", [a, n, f], a, (n,), lambda R, raw, i: mul(raw(a), f), (a,)))
    ob("coffe_multiply_array: array1[i] array2[i]",
       lambda: elementwise("coffe_multiply_array", [o, a, b, n], o, (n,), lambda R, raw, i: mul(raw(a), raw(b)), (o, a, b)))
    ob("coffe_multiply_power_array: array1[i] array2[i]^power",
       lambda: elementwise("coffe_multiply_power_array", [o, a, b, n, f], o, (n,), lambda R, raw, i: mul(raw(a), cpow(raw(b), f)), (o, a, b)))
    x0, x1 = sym("xmin", "R"), sym("xmax", "R")
    ob("coffe_generate_range: xmin + (xmax - xmin) i / steps",
       lambda: elementwise("coffe_generate_range", [x0, x1, n], None, (n,),
                           lambda R, raw, i: add(x0, mul(sub(x1, x0), div(toR(i), toR(n)))), ()))

    def biggest():
        R = Run("coffe_max_array_double", [a, n], pos=(n,))
        i = sym("idx", "I")
        v = R.ex.simp(R.v)
        if v.op == "ite":
            v = R.ex.itev(R.ex.decide(v.args[0], R.st), v.args[1], v.args[2])
        if v.op != "app" or v.args[0] != "fold:max":
            return "is %s" % str(v)[:150]
        _, init, lo, hi, names, body = v.args
        raw = lambda j: R.ex.read(State(), pointee(R.ex.padd(a, j)), "R")
        e = subst1(body, names, i)
        w = first(R.same(e, raw(i), "element"), R.same(hi, n, "number of elements"))
        if w:
            return w
        if not (lo.op == "num" and val(lo) in (0, 1)) or not R.ex.same(init, raw(num(0, "I"))):
            return "starts from %s at %s" % (init, lo)
        return None
    ob("coffe_max_array_double: the largest of the elements", biggest)


def subst1(body, name, i):
    from dv.sym import subst
    return subst(body, {mk("sym", (name,), "I"): i})


def order(c, ob):
    a, b = sym("a", "P"), sym("b", "P")
    from dv.prove import real_valid
    for fn, s in (("coffe_compare_ascending", 1), ("coffe_compare_descending", -1)):
        def f(fn=fn, s=s):
            R = Run(fn, [a, b])
            rd = lambda p: R.ex.read(R.st, pointee(p), "R")
            x, y = rd(a), rd(b)
            big, small = (x, y) if s == 1 else (y, x)
            return real_valid(band(bor(bnot(lt(small, big)), lt(num(0, "I"), R.v)), bor(bnot(lt(big, small)), lt(R.v, num(0, "I"))),
                                   bor(bnot(eq(x, y)), eq(R.v, num(0, "I")))))
        ob("%s: the sign of the comparison" % fn, f)

    def close():
        x, y, r, e = [sym(q, "R") for q in ("x", "y", "rel", "abs")]
        R = Run("coffe_approx_equal", [x, y, r, e])
        d = app("fabs", (sub(x, y),), "R")
        both = band(bnot(eq(x, num(0))), bnot(eq(y, num(0))))
        want = ite(ite(both, lt(d, mul(r, app("fabs", (x,), "R"))), lt(d, e)), num(1, "I"), num(0, "I"))
        return real_valid(eq(R.v, want))
    ob("coffe_approx_equal: relative for non-zero values, absolute otherwise", close)

    def sgn():
        m = sym("m", "I")
        R = Run("coffe_sign", [m])
        from dv.prove import int_valid
        return int_valid(eq(R.v, ite(eq(imod(m, num(2, "I")), num(0, "I")), num(1, "I"), num(-1, "I"))))
    ob("coffe_sign: (-1)^m", sgn)

    def kron():
        i, j = sym("i", "I"), sym("j", "I")
        R = Run("coffe_kronecker_delta", [i, j])
        from dv.prove import int_valid
        return int_valid(eq(R.v, ite(eq(i, j), num(1, "I"), num(0, "I"))))
    ob("coffe_kronecker_delta", kron)

    def eos():
        z, p = sym("z", "R"), sym("par", "P")
        R = Run("coffe_dark_energy_eos", [z, p])
        w = lambda f: R.ex.read(R.st, fld(pointee(p), f), "R")
        N = R.ex.N
        N.bound_below(z, 0, False)
        return R.same(R.v, add(w("w0"), mul(w("wa"), div(z, add(num(1), z)))))
    ob("coffe_dark_energy_eos: w0 + wa z/(1+z)", eos)

    def window():
        x = sym("x", "R")
        R = Run("coffe_resolution_window", [x])
        R.ex.N.bound_below(x, 0, True)
        return R.same(R.v, div(mul(num(3), app("jl", (num(1, "I"), x), "R")), x))
    ob("coffe_resolution_window: 3 j1(x)/x", window)


def quadrature(c, ob):
    f, p, a, b, e = sym("f", "P"), sym("p", "P"), sym("a", "R"), sym("b", "R"), sym("prec", "R")
    INT = app("INT", (f, p, a, b), "R")

    def adaptive():
        R = Run("coffe_integrate_1d_prec_gsl", [f, p, a, b, e])
        q = R.one("qag")
        al, fr = R.one("gsl_integration_workspace_alloc"), R.one("gsl_integration_workspace_free")
        if q[6].op != "num" or al[0].op != "num" or val(q[6]) > val(al[0]) or val(q[6]) < 1:
            return "limit %s with a workspace of %s" % (q[6], al[0])
        return first(R.same(R.v, INT), R.same(q[4], num(0), "absolute tolerance"), R.same(q[5], e, "relative tolerance"),
                     R.same(q[7], al[-1], "workspace"), R.same(fr[0], al[-1], "freed workspace"),
                     R.order("gsl_integration_workspace_alloc", "qag", "gsl_integration_workspace_free"))
    ob("coffe_integrate_1d_prec_gsl: the integral of func(., parameters) over [a,b] to relative precision prec", adaptive)

    def exponential():
        R = Run("coffe_integrate_1d_prec_double_exponential", [f, p, a, b, e])
        q = R.one("tanhsinh")
        return first(R.same(R.v, INT), R.same(q[4], num(0), "absolute tolerance"))
    ob("coffe_integrate_1d_prec_double_exponential: the integral of func(., parameters) over [a,b]", exponential)
    dims, bins = sym("dims", "I"), sym("bins", "I")
    for m, name in enumerate(("plain", "miser", "vegas")):
        def mc(m=m, name=name):
            R = Run("coffe_integrate_multidimensional", [f, p, num(m, "I"), dims, bins], pos=(dims,))
            k, ff, pp, d, dim, calls, rng, state, lo, hi = R.one("monte")
            al, fr = R.one("gsl_monte_%s_alloc" % name), R.one("gsl_monte_%s_free" % name)
            ra, rf = R.one("gsl_rng_alloc"), R.one("gsl_rng_free")
            return first(None if k.args[0] == name else "method %s" % k.args[0], R.same(R.v, app("MC", (f, p, dims), "R")),
                         R.same(toI(d), dims, "dimension of the integrand"), R.same(dim, dims, "dimension"), R.same(toI(al[0]), dims, "dimension of the state"),
                         R.same(calls, bins, "number of points"), R.same(lo, num(0), "lower bound of axis i"), R.same(hi, num(1), "upper bound of axis i"),
                         R.same(state, al[-1], "state"), R.same(fr[0], al[-1], "freed state"), R.same(rng, ra[-1], "generator"), R.same(rf[0], ra[-1], "freed generator"),
                         R.order("gsl_monte_%s_alloc" % name, "monte", "gsl_monte_%s_free" % name), R.order("gsl_rng_alloc", "monte", "gsl_rng_free"))
        ob("coffe_integrate_multidimensional: the integral over the unit cube by method %s" % name, mc)


# ---- the double exponential rule ------------------------------------------------------------------------

def nodes(L):
    """{k: (x, w)} of level L: abscissae tanh(pi/2 sinh t) and weights dx/dt at t = k/2^L, |t| <= 3"""
    import mpmath as mp
    mp.mp.dps = 40
    out = {}
    for k in range(-3 * 2 ** L, 3 * 2 ** L + 1):
        t = mp.mpf(k) / 2 ** L
        u = mp.pi / 2 * mp.sinh(t)
        out[k] = (mp.tanh(u), mp.pi / 2 * mp.cosh(t) / mp.cosh(u) ** 2)
    return out


TOP = 6


def linear(t, fn, R):
    """t as {argument of fn: coefficient}; sums over constant ranges are written out, constant tables read"""
    from dv.sym import rebuild, subst
    out = {}

    def table(x):
        if x.op == "load":
            v = R.ex.constglobal(R.ex.canon(x.args[0]), x.sort, R.tu)
            return x if v is None else v
        if not x.args or x.op in ("num", "sym", "var", "func", "strlit", "addr"):
            return x
        return rebuild(x.op, [table(y) if isinstance(y, T.Term) else y for y in x.args], x.sort)

    def go(x, k):
        if x.op == "num":
            if val(x) != 0:
                raise Unsupported("constant term in the quadrature sum")
        elif x.op == "add":
            for y in x.args:
                go(y, k)
        elif x.op == "mul":
            rest = []
            for y in x.args:
                if y.op == "num":
                    k = k * val(y)
                else:
                    rest.append(y)
            if len(rest) != 1:
                raise Unsupported("product in the quadrature sum: %s" % str(x)[:100])
            go(rest[0], k)
        elif x.op == "app" and x.args[0] == "sumf" and x.args[2].op == "num" and x.args[3].op == "num":
            _, nm, lo, hi, body = x.args
            for i in range(int(val(lo)), int(val(hi))):
                go(table(subst1(body, nm, num(i, "I"))), k)
        elif x.op == "app" and x.args[0] == fn:
            out[x.args[1:]] = out.get(x.args[1:], 0) + k
        else:
            raise Unsupported("term of the quadrature sum: %s" % str(x)[:100])
    go(t, T.Fraction(1))
    return out


def affine(t, c, d):
    """(alpha, beta) with t = alpha c + beta d"""
    al = be = T.Fraction(0)
    todo = [(t, T.Fraction(1))]
    while todo:
        x, k = todo.pop()
        if x is c:
            al += k
        elif x is d:
            be += k
        elif x.op == "num":
            if val(x) != 0:
                raise Unsupported("abscissa %s" % t)
        elif x.op == "add":
            todo += [(y, k) for y in x.args]
        elif x.op == "mul":
            rest = []
            for y in x.args:
                if y.op == "num":
                    k = k * val(y)
                else:
                    rest.append(y)
            if len(rest) == 1:
                todo.append((rest[0], k))
            elif not rest:
                if k:
                    raise Unsupported("abscissa %s" % t)
            else:
                raise Unsupported("abscissa %s" % t)
        else:
            raise Unsupported("abscissa %s" % t)
    return al, be


def combos(lin, a, b):
    """sorted list of (x, weight) of the rule, from arguments c x + d with c = (b-a)/2, d = (a+b)/2"""
    out = []
    for (arg, ctx), k in lin.items():
        if ctx is not sym("ctx", "P"):
            raise Unsupported("integrand called with parameters %s" % ctx)
        al, be = affine(arg, a, b)         # alpha a + beta b = c x + d  <=>  x = beta - alpha and alpha + beta = 1
        if al + be != 1:
            raise Unsupported("abscissa %s" % arg)
        out.append((be - al, k))
    return sorted(out)


def level_of(rule, tables):
    """the level whose trapezoidal rule this is, or the reason it is none"""
    import mpmath as mp
    for L, tab in tables.items():
        if len(tab) == len(rule):
            for (x, w), k in zip(rule, sorted(tab)):
                X, W = tab[k]
                W = W / 2 ** L
                q = lambda r: mp.mpf(r.numerator) / r.denominator
                if abs(q(x) - X) > mp.mpf(10) ** -15 or abs(q(w) - W) > mp.mpf(10) ** -15 * max(W, mp.mpf(10) ** -6):
                    return None, "level %d, t = %d/%d: node %.17g weight %.17g, should be %s and %s" % (L, k, 2 ** L, float(q(x)), float(q(w)), mp.nstr(X, 17), mp.nstr(W, 17))
            return L, None
    return None, "a sum over %d points is no level of the rule" % len(rule)


def tanhsinh(c, ob):
    box = {}

    def setup():
        a, b = sym("a", "R"), sym("b", "R")
        R = Run("tanhsinh_quad", [mk("func", ("F!",), "P"), sym("ctx", "P"), a, b, num(0), sym("err", "P"), NULL], tus=("tanhsinh.c",))
        box["R"] = R
        v = R.ex.simp(R.v)
        half = mul(num(T.Fraction(1, 2)), sub(b, a))
        # v = half * tree
        tree = tree_of(v, half, R)
        leaves = []

        def walk(t, path):
            if t.op == "ite":
                walk(t.args[1], path + [t.args[0]])
                walk(t.args[2], path + [bnot(t.args[0])])
            else:
                leaves.append((path, t))
        walk(tree, [])
        tables = {L: nodes(L) for L in range(1, TOP + 1)}
        box["tables"] = tables
        box["leaves"] = []
        for path, t in leaves:
            rule = combos(linear(t, "F!", R), a, b)
            L, why = level_of(rule, tables)
            if why:
                return why
            box["leaves"].append((path, L))
        return None
    ok = ob("tanhsinh_quad: every value returned is (b-a)/2 times the trapezoidal sum of some level over tanh(pi/2 sinh t)", setup)

    def stops():
        from dv.prove import real_valid
        R, tables = box["R"], box["tables"]
        a, b = sym("a", "R"), sym("b", "R")
        atoms, side, seen = {}, [], set()

        def conv(t):
            """|difference of two levels| becomes a symbol d<L>"""
            if t.op == "app" and t.args[0] == "fabs":
                rule = combos({k: v for k, v in linear(t.args[1], "F!", R).items() if v != 0}, a, b)
                L = difference(rule, tables)
                s = sym("delta%d" % L, "R")
                if L not in seen:
                    seen.add(L)
                    side.append(le(num(0), s))
                return s
            if not t.args or t.op in ("num", "sym", "var", "func", "strlit"):
                return t
            from dv.sym import rebuild
            return rebuild(t.op, [conv(x) if isinstance(x, T.Term) else x for x in t.args], t.sort)
        for path, L in box["leaves"]:
            cond = conv(band(*path))
            last = L == TOP
            want = bnot(eq(sym("delta%d" % L, "R"), num(0)))
            # stopping before the last level: the last two levels agree exactly
            if not last:
                seen.add(L)
                w = real_valid(bor(bnot(band(cond, *side)), eq(sym("delta%d" % L, "R"), num(0))))
                if w:
                    return "stops at level %d although levels %d and %d differ: %s" % (L, L - 1, L, w)
        return None
    if ok:
        ob("tanhsinh_quad: with absolute tolerance 0 it refines to the last level unless two levels agree exactly", stops)


def tree_of(v, half, R):
    """v = half * tree"""
    if v.op == "ite":
        return ite(v.args[0], tree_of(v.args[1], half, R), tree_of(v.args[2], half, R))
    if v.op != "mul":
        raise Unsupported("value is %s" % str(v)[:120])
    # collect the factors that are not the tree
    body = [x for x in v.args if any(s.op == "app" and s.args[0] == "F!" for s in subterms(x))]
    if len(body) != 1:
        raise Unsupported("value is %s" % str(v)[:120])
    rest = [x for x in v.args if x is not body[0]]
    w = R.same(mul(*rest), half, "factor")
    if w:
        raise Unsupported(w)
    return body[0]


def difference(rule, tables):
    """L with rule = I_L - I_{L-1} up to sign"""
    import mpmath as mp
    for L in tables:
        tab = tables[L]
        if len(tab) != len(rule):
            continue
        for sgn in (1, -1):
            good = True
            for (x, w), k in zip(rule, sorted(tab)):
                W = tab[k][1] / 2 ** L - (tab[k][1] / 2 ** (L - 1) if k % 2 == 0 else 0)
                q = mp.mpf(w.numerator) / w.denominator
                X = mp.mpf(x.numerator) / x.denominator
                if abs(sgn * q - W) > mp.mpf(10) ** -15 * max(1, abs(W)) or abs(X - tab[k][0]) > mp.mpf(10) ** -15:
                    good = False
                    break
            if good:
                return L
    raise Unsupported("the convergence test compares something else than two levels")


def splines(c, ob):
    tu = load("common.c")
    for k in ONE:
        ob("coffe_init_spline: %s interpolation of (x[i], y[i]), i < n" % ONE[k], lambda k=k: interp1(tu, k, None))
    ob("coffe_init_spline: any other value means akima", lambda: interp1(tu, None, num(99, "I")))
    for k in TWO:
        ob("coffe_init_spline2d: %s interpolation of z over x and y" % TWO[k], lambda k=k: interp2(tu, k, None))
    ob("coffe_init_spline2d: any other value means bicubic", lambda: interp2(tu, None, num(99, "I")))
    for two in (False, True):
        d = "2d" if two else ""
        ob("coffe_interp_spline%s: the value of the spline" % d, lambda two=two: evaluate(two))
        ob("coffe_free_spline%s: frees every part once and empties the object" % d, lambda two=two: release(two))
        ob("coffe_new_spline%s: an empty object" % d, lambda two=two: empty(two))


GROUPS = {"spline": splines, "arrays": arrays, "order": order, "quadrature": quadrature, "tanhsinh": tanhsinh}


def discharge(c, groups):
    opened = []

    def ob(nm, fn):
        if attempt(c, nm, fn, BACK):
            return True
        opened.append((nm, "open"))
        return False
    for g in groups:
        GROUPS[g](c, ob)
    return opened


def toolbox(c, scratch):
    c.assume("contracts of GSL: spline construction and evaluation, adaptive quadrature (value up to the requested tolerance; its error code is not modelled), Monte Carlo integration and random numbers",
             "machine arithmetic is treated as real arithmetic; the constants of the double exponential rule are compared to 1e-15",
             "array arguments do not overlap and are not null", "the truncation error of the double exponential rule is not bounded")
    for f, w in (("coffe_init_spline", "spline of the given type through the given points, with its own accelerator"), ("coffe_init_spline2d", "the same in two dimensions"),
                 ("coffe_interp_spline", "value of the spline"), ("coffe_interp_spline2d", "value of the spline"), ("coffe_free_spline", "frees each part once, object empty"),
                 ("coffe_free_spline2d", "frees each part once, object empty"), ("coffe_new_spline", "object empty"), ("coffe_new_spline2d", "object empty"),
                 ("coffe_rescale_array", "array[i] *= factor"), ("coffe_multiply_array", "elementwise product"), ("coffe_multiply_power_array", "elementwise a b^p"),
                 ("coffe_generate_range", "xmin + (xmax-xmin) i/steps"), ("coffe_max_array_double", "largest element"), ("coffe_compare_ascending", "sign of a - b"),
                 ("coffe_compare_descending", "sign of b - a"), ("coffe_approx_equal", "relative or absolute closeness"), ("coffe_sign", "(-1)^m"),
                 ("coffe_kronecker_delta", "i == j"), ("coffe_dark_energy_eos", "w0 + wa z/(1+z)"), ("coffe_resolution_window", "3 j1(x)/x"), ("coffe_integrate_1d_prec_gsl", "integral of func(., parameters) over [a,b]"),
                 ("coffe_integrate_1d_prec_double_exponential", "integral of func(., parameters) over [a,b]"),
                 ("coffe_integrate_multidimensional", "integral over the unit cube"), ("tanhsinh_quad", "(b-a)/2 sum of the tanh-sinh rule at the last level needed"), ("integrate", "inlined in tanhsinh_quad")):
        c.function(f, w)

    def replay():
        lib = build(scratch, shims=("shim.c",))
        return base.run("toolbox", {"lib": lib, "seed": c.seed, "reps": 1 if c.tier == "quick" else 5})
    c.replay = (replay, "compiled helpers against direct evaluation")
    opened = discharge(c, list(GROUPS))
    fallback(c, opened, *c.replay)


USES = {"spline": "the spline helpers", "arrays": "the array helpers", "order": "the comparisons and signs", "quadrature": "the integrators", "tanhsinh": "the double exponential rule"}


def helpers(c, scratch, groups):
    """the contracts of the helpers a check relies on, discharged on their bodies with it"""
    from . import fftlog
    fft = [g for g in groups if g in fftlog.GROUPS]
    groups = [g for g in groups if g not in fft]
    if fft:
        fftlog.transforms(c, scratch, fft)
    opened = discharge(c, groups)
    if not opened:
        return
    d = os.path.join(scratch, "toolbox")
    os.makedirs(d, exist_ok=True)

    def replay():
        return base.run("toolbox", {"lib": build(d, shims=("shim.c",)), "seed": c.seed, "only": groups})
    fallback(c, opened, replay, "compiled helpers against direct evaluation")
