"""P19: every output of an instance is the right quantity, at the arguments asked for, under its own coordinates."""
import importlib.util
import re
import sys

import z3

from checks.budget import Reals, Z3, entail
from checks.common import *
from checks.pylayer import LABEL, PYERR, layer
from dv.pysym import C, HASH
from specs.pyclass import REPO

SYM = "symbolic paths of the class"
TOKENS = "execution of representation.py over opaque values"


def arg(n):
    return ("arg", n)


def interp(t, x):
    return ("app", "coffe_interp_spline", t, x)


def bg(f, x):
    return interp(("_background", f), x)


def app(o, *a):
    return ("app", o) + a


NUM, INT = ("int", "float"), ("int",)
Z = ("z", NUM, C(0), C(15))
#: method -> (value, ranges of the arguments)
EVALUATORS = {
    "comoving_distance": (bg("comoving_distance", arg("z")), [Z]),
    "hubble_rate": (bg("Hz", arg("z")), [Z]),
    "scale_factor": (bg("a", arg("z")), [Z]),
    "hubble_rate_conformal": (bg("conformal_Hz", arg("z")), [Z]),
    "hubble_rate_conformal_derivative": (bg("conformal_Hz_prime", arg("z")), [Z]),
    "growth_factor": (bg("D1", arg("z")), [Z]),
    "growth_rate": (bg("f", arg("z")), [Z]),
    "maximum_separation": (app("*", C(2), app("-", bg("comoving_distance", app("+", arg("z_mean"), arg("deltaz"))), bg("comoving_distance", arg("z_mean")))),
                           [("z_mean", NUM, C(0), C(15)), ("deltaz", NUM, C(0), arg("z_mean")), (app("+", arg("z_mean"), arg("deltaz")), None, C(0), C(15))]),
    "power_spectrum": (app("*", interp(("_parameters", "power_spectrum"), arg("k")), bg("D1", arg("z")), bg("D1", arg("z"))),
                       [("k", NUM, ("par", "k_min"), ("par", "k_max")), Z]),
    "cross_spectrum": (app("*", interp(("_parameters", "power_spectrum"), arg("k")), bg("D1", arg("z1")), bg("D1", arg("z2"))),
                       [("k", NUM, ("par", "k_min"), ("par", "k_max")), ("z1", NUM, C(0), C(15)), ("z2", NUM, C(0), C(15))]),
    "integral": (interp((("attr", app("coffe_find_integral", ("addr", "_integral"), arg("n"), arg("l"), C("ccoffe.COFFE_INTEGER"), C("ccoffe.COFFE_INTEGER")), "result"),), arg("r")),
                 [("r", NUM, C(0), C(25000)), ("n", INT, C(-2), C(4)), ("l", INT, C(0), C(4))]),
}
TYPES = ("NONINTEGRATED", "SINGLE_INTEGRATED", "DOUBLE_INTEGRATED")


def point(a, out):
    return app("+", *[app("coffe_integrate", *(a + (C("ccoffe." + t), C("ccoffe." + out)))) for t in TYPES])


R = ("r", NUM, C(0), C(1500))
POINTS = {
    "compute_corrfunc": (point((arg("z"), C(0), C(0), arg("r"), arg("mu"), C(0)), "CORRFUNC"), [Z, R, ("mu", NUM, C(-1), C(1))]),
    "compute_multipole": (point((arg("z"), C(0), C(0), arg("r"), C(0), arg("l")), "MULTIPOLES"), [Z, R, ("l", INT, C(0), C(10))])}
AT = {"z": "z_mean", "z_min": "z_min", "z_max": "z_max", "r": "separation", "r1": "separation1", "r2": "separation2", "mu": "mu", "l": "l", "l1": "l1", "l2": "l2"}
#: method -> (stage, object, attributes, lists that must not be empty, lists that need as many elements as the first of a group)
ONE, AVG = ["z", "r", "l"], ["z_min", "z_max", "r", "l"]
TILES = ["density1_len", "density2_len", "pixelsize_len", "fsky_len"]
BULK = {
    "compute_corrfunc_bulk": ("corrfunc", "_corrfunc", ["z", "r", "mu"]),
    "compute_multipoles_bulk": ("multipoles", "_multipoles", ["z", "r", "l"]),
    "compute_average_multipoles_bulk": ("average_multipoles", "_average_multipoles", ["z_min", "z_max", "r", "l"]),
    "compute_covariance_bulk": ("covariance", "_covariance_multipoles", ["z", "r1", "r2", "l1", "l2"]),
    "compute_average_covariance_bulk": ("average_covariance", "_average_covariance_multipoles", ["z_min", "z_max", "r1", "r2", "l1", "l2"])}
CORR, MULT, AVER = ["mu_len", "sep_len", "z_mean_len"], ["multipole_values_len", "sep_len", "z_mean_len"], ["multipole_values_len", "sep_len", "zmin_len", "zmax_len"]
FILLED = {"compute_corrfunc": CORR, "compute_corrfunc_bulk": CORR, "compute_multipole": MULT, "compute_multipoles_bulk": MULT, "compute_covariance_bulk": MULT,
          "compute_average_multipoles_bulk": AVER, "compute_average_covariance_bulk": AVER}
SAME = {"compute_average_multipoles_bulk": ["zmin_len", "zmax_len"],
        "compute_covariance_bulk": ["z_mean_len", "deltaz_len"] + TILES,
        "compute_average_covariance_bulk": ["zmin_len", "zmax_len", "deltaz_len"] + TILES}
CONTRIB = ["correlation_contrib." + x for x in ("den", "rsd", "len", "d1", "d2", "g1", "g2", "g3", "g4", "g5")]
#: C code that runs over the redshifts of these outputs reads deltaz as well when the divergent integral is tabulated
EDGES = ("compute_corrfunc", "compute_corrfunc_bulk", "compute_multipole", "compute_multipoles_bulk")


class Facts(Reals):
    """path conditions as formulas"""

    def num(self, t):
        if t[:2] == ("app", "min") and len(t) == 4:
            x, y = self.num(t[2]), self.num(t[3])
            return z3.If(y < x, y, x)
        if t[:2] == ("app", "max") and len(t) == 4:
            x, y = self.num(t[2]), self.num(t[3])
            return z3.If(y > x, y, x)
        if t[0] == "app" and t[1] in ("+", "*") and len(t) > 4:
            r = self.num(t[2])
            for x in t[3:]:
                r = r + self.num(x) if t[1] == "+" else r * self.num(x)
            return r
        if t[0] == "app" and t[1] in ("+", "-", "*", "/", "neg", "**", "pow", "float", "np.sum", "sum"):
            return Reals.num(self, t)
        if t[0] in ("app",):
            t = canon(t)
        return Reals.num(self, t)

    def truth(self, t):
        if t[0] == "c":
            return z3.BoolVal(bool(t[1]))
        if t[0] == "app":
            o, a = t[1], t[2:]
            if o == "not":
                return z3.Not(self.truth(a[0]))
            if o == "bool" and len(a) == 1:
                return self.truth(a[0])
            if o in ("any", "or", "all", "and"):
                if len(a) == 1 and a[0][0] in ("list", "tuple"):
                    a = a[0][1:]
                return (z3.Or if o in ("any", "or") else z3.And)(*[self.truth(x) for x in a])
            if o == "isinstance":
                if isfloat(a[0]):
                    return z3.BoolVal(("name", "float") in (a[1][1:] if a[1][0] in ("tuple", "list") else (a[1],)))
                ks = a[1][1:] if a[1][0] in ("tuple", "list") else (a[1],)
                return z3.Or(*[self.atom(app("isinstance", a[0], k), z3.Bool) for k in ks])
            if o == "cmp":
                p, x, y = a[0][1], self.num(a[1]), self.num(a[2])
                f = {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y, ">": x > y, ">=": x >= y, "is": x == y, "is not": x != y}
                return f[p] if p in f else self.atom(canon(t), z3.Bool)
            return self.atom(canon(t), z3.Bool)
        if t[0] in ("par", "len"):
            return self.num(t) != 0
        return self.atom(t, z3.Bool)

    def fact(self, c, b):
        return self.truth(c) if b else z3.Not(self.truth(c))


def isfloat(t):
    """an element of a list of C doubles, or arithmetic on them"""
    if t[0] == "item":
        return t[1][0] in ("par", "ptr")
    if t[0] == "app" and t[1] in ("+", "-", "*", "/", "neg"):
        return all(isfloat(x) or x[0] == "c" and isinstance(x[1], (int, float)) for x in t[2:]) and any(isfloat(x) for x in t[2:])
    return False


def canon(t):
    """sums and products within a term, in one order"""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    if t[:1] == ("app",) and len(t) > 3 and t[1] in ("+", "*"):
        return t[:2] + tuple(sorted(t[2:], key=str))
    return t


def setup(o):
    R = Facts()
    hs = [R.fact(k, b) for k, b in o.pc.items()]
    enums = [v for (k, _), v in R.atoms.items() if k[0] == "c" and isinstance(k[1], str)]
    return R, hs, enums


def common(R, hs):
    """numbers of elements are not negative; the values of an enumeration differ"""
    hs = list(hs)
    for (k, _), v in R.atoms.items():
        if k[:1] == ("par",) and str(k[1]).endswith("_len"):
            hs.append(v >= 0)
    e = [v for (k, b), v in R.atoms.items() if k[0] == "c" and isinstance(k[1], str) and not b]
    if len(e) > 1:
        hs.append(z3.Distinct(*e))
    return hs


def needs(R, name, ranges, o):
    """what has to hold for the operation to give a value: [(text, formula)]"""
    out = []
    for n, kinds, lo, hi in ranges:
        x = arg(n) if isinstance(n, str) else n
        t = n if isinstance(n, str) else " + ".join(y[1] for y in n[2:])
        if kinds:
            out.append(("%s is a number" % t if kinds == NUM else "%s is an integer" % t, z3.Or(*[R.atom(app("isinstance", x, ("name", k)), z3.Bool) for k in kinds])))
        out.append(("%s is within its range" % t, z3.And(R.num(lo) <= R.num(x), R.num(x) <= R.num(hi))))
    P = lambda f: R.num(("par", f))
    for f in FILLED.get(name, ()):
        out.append(("%s is not empty" % f[:-4], P(f) > 0))
    g = SAME.get(name, ())
    for f in g[1:]:
        out.append(("%s and %s have the same number of elements" % (g[0][:-4], f[:-4]), P(g[0]) == P(f)))
    it = lambda f: R.num(("item", ("par", f), HASH))
    if name == "compute_covariance_bulk":
        m, d = it("z_mean"), it("deltaz")
        out.append(("every bin is within the tabulated redshifts", z3.And(m - d >= 0, d >= 0, m + d <= 15)))
    if name == "compute_average_covariance_bulk":
        out.append(("every bin is within the tabulated redshifts", z3.And(it("zmin") >= 0, it("zmin") <= it("zmax"), it("zmax") <= 15)))
    if name in FILLED:
        out.append(("there is a contribution", z3.Or(*[P(f) != 0 for f in CONTRIB])))
    return out


def divergent(R, name, o):
    """only needed when the tables of integrals are built; not a condition on returning a value"""
    P = lambda f: R.num(o.par.get(f, ("par", f)))
    if name in EDGES:
        return [z3.Or(P("divergent") == 0, P("z_mean_len") <= P("deltaz_len"))]
    if name == "integral":
        t = P("output_type") == R.num(C("ccoffe.AVERAGE_MULTIPOLES"))
        null = R.atom(canon(app("isnull", EVALUATORS["integral"][0][2][0][1])), z3.Bool)
        return [z3.Or(P("divergent") == 0, z3.And(t, P("zmax_len") > 0), z3.And(z3.Not(t), P("z_mean_len") > 0, P("z_mean_len") <= P("deltaz_len"))), z3.Not(null)]
    return []


def accepted(outs, name, ranges, which):
    for o, k, v in outs:
        if k == "raise":
            continue
        R, hs, _ = setup(o)
        t, g = needs(R, name, ranges, o)[which]
        w = entail(R, common(R, hs), g)
        if w:
            return "a value is returned although not (%s): %s" % (t, w)


def refused(outs, name, ranges):
    if not any(k != "raise" for o, k, v in outs):
        return "never returns"
    for o, k, v in outs:
        if k != "raise":
            continue
        R, hs, _ = setup(o)
        pre = [g for t, g in needs(R, name, ranges, o)] + divergent(R, name, o)
        w = entail(R, common(R, hs) + pre, z3.BoolVal(False))
        if w:
            if os.environ.get("VP_DEBUG"):
                print(*o.pc.items(), sep="\n")
            return "valid arguments are refused (%s): %s" % (v[1] if len(v) > 1 else v, w)


NEED4 = ["correlation_contrib." + x for x in ("d2", "g1", "g2", "g3", "g4", "g5")]


def flag(outs):
    """the terms with the divergent integral, and its table, are switched on exactly when one of their contributions is"""
    for o, k, v in outs:
        if k == "raise":
            continue
        R, hs, _ = setup(o)
        P = lambda f: R.num(o.par.get(f, ("par", f)))
        w = entail(R, common(R, hs), (P("divergent") != 0) == z3.Or(*[P(f) != 0 for f in NEED4]))
        if w:
            return w


def value(outs, name, spec):
    for o, k, v in outs:
        if k == "raise":
            continue
        R, hs, _ = setup(o)
        if name in ("power_spectrum", "cross_spectrum"):
            hs = hs + [R.num(("par", "pk_type")) == R.num(C("ccoffe.COFFE_PK_LINEAR"))]
        w = entail(R, common(R, hs), R.num(v) == R.num(spec))
        if w:
            return "returns %s: %s" % (str(v)[:160], w)


def handler(outs):
    """the error handler of the process, followed through the calls that change it"""
    for o, k, v in outs:
        cur, saved = "the caller's", []
        for e in o.ev:
            if e[0] != "handler":
                continue
            saved.append(cur)
            if e[1] == "off":
                cur = "off"
            elif isinstance(e[1], tuple) and e[1][:1] == ("handler",) and e[1][1] < len(saved):
                cur = saved[e[1][1]]
            else:
                cur = str(e[1])
        if cur != "the caller's":
            return "leaves with the error handler %s" % cur


class Token:
    """a value nothing can be done with but hand it on"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "<%s>" % (self.t,)


class Module:
    def __init__(self):
        p = os.path.join(REPO, "python", "coffe", "representation.py")
        s = importlib.util.spec_from_file_location("vp_representation", p)
        self.m = importlib.util.module_from_spec(s)
        dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        try:
            s.loader.exec_module(self.m)
        finally:
            sys.dont_write_bytecode = dont

    def build(self, cls, kw):
        return getattr(self.m, cls)(**kw)


def element(M, v, st, obj, attrs):
    """-> an instance of the representation over tokens for the terms, or the reason there is none"""
    if v[0] == "app" and v[1] in ("np.array", "np.asarray", "list") and len(v) == 3:
        v = v[2]
    if v[0] != "seq" or v[1] != ("stageflag", st):
        return "is not one element for each of the table: %s" % str(v)[:120]
    e = v[2]
    if e[0] != "app" or not all(x[0] == "kw" for x in e[2:]):
        return "elements are %s" % str(e)[:120]
    kw = {x[1]: Token(x[2]) for x in e[2:]}
    try:
        return M.build(e[1], kw)
    except (TypeError, AttributeError) as x:
        return "%s(%s): %s" % (e[1], ", ".join(sorted(kw)), x)


def at(obj, *path):
    return ("stageval", obj, "array", ("ix", HASH)) + path


def want(obj, a):
    return at(obj, "value") if a == "value" else at(obj, "coords", AT[a])


def bulk(M, outs, st, obj, attrs, a):
    n = 0
    for o, k, v in outs:
        if k == "raise":
            continue
        n += 1
        x = element(M, v, st, obj, attrs)
        if isinstance(x, str):
            return x
        if a == "dict":
            d = x.to_dict()
            if sorted(d) != sorted(attrs + ["value"]):
                return "to_dict() has %s" % sorted(d)
            for b in d:
                if d[b] is not getattr(x, b):
                    return "to_dict()[%r] is not the attribute" % b
            names = list(d)
            if repr(x) != "<%s(%s)>" % (type(x).__name__, d) or str(x) != "%s(%s)" % (type(x).__name__, d):
                return "printed as %s" % repr(x)[:200]
            h = x._repr_html_()
            if re.findall("<th>(.*?)</th>", h) != names or re.findall("<td>(.*?)</td>", h) != [repr(d[b]) for b in names]:
                return "the table shows %s" % h[:200]
            continue
        g = getattr(x, a)
        if not isinstance(g, Token) or g.t != want(obj, a):
            return ".%s of an element is %s" % (a, g.t if isinstance(g, Token) else repr(g)[:80])
    return None if n else "never returns"


def outputs(c, scratch):
    from replay import py
    c.replay = (lambda: py.drive("outputs", scratch), "bounded replay: outputs against each other and against direct calls of C on the rebuilt module")
    opened = []
    try:
        L = layer(c)
        M = Module()
    except PYERR + (SyntaxError,) as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:300])
        c.open("coffe.pyx is within the front end", why)
        fallback(c, [("coffe.pyx is within the front end", why)], *c.replay)
        return

    def ob(n, fn, back):
        def g():
            try:
                return fn()
            except PYERR as e:
                return "%s: %s" % (type(e).__name__, str(e)[:200])
        if not attempt(c, n, g, back):
            opened.append((n, "see log"))

    def paths(name):
        """one of each; which tables were there already makes no difference here"""
        u = {}
        for e in L.entry:
            for o, k, v in L.paths("methods", name, e):
                for q in [q for q in o.pc if q[0] == "stageflag" or q == ("arg", "recompute")]:
                    del o.pc[q]
                d = o.par.get("divergent"), o.par.get("output_type")
                u.setdefault((frozenset(o.pc.items()), k, v) + d, (o, k, v))
        return list(u.values())
    specs = dict(EVALUATORS)
    specs.update(POINTS)
    for name in list(specs) + list(BULK):
        try:
            outs = paths(name)
        except PYERR as e:
            c.open("%s()" % name, str(e)[:200])
            opened.append(("%s()" % name, str(e)[:200]))
            continue
        spec, ranges = specs.get(name, (None, []))
        if spec:
            ob("%s(): %s" % (name, "the sum of its three parts at the point asked for" if name in POINTS else "the quantity of that name, at the arguments given"),
               lambda: value(outs, name, spec), Z3)
        else:
            st, obj, attrs = BULK[name]
            for a in attrs + ["value"]:
                ob("%s(): .%s of the i-th element is that of the i-th entry of the table" % (name, a), lambda: bulk(M, outs, st, obj, attrs, a), SYM + "; " + TOKENS)
            ob("%s(): elements show their attributes under the right names" % name, lambda: bulk(M, outs, st, obj, attrs, "dict"), SYM + "; " + TOKENS)
        if name in FILLED:
            ob("%s(): the divergent integral takes part exactly when a selected term needs it" % name, lambda: flag(outs), Z3)
        R0 = Facts()
        for i, (t, g) in enumerate(needs(R0, name, ranges, None)):
            ob("%s(): a value is returned only if %s" % (name, t), lambda: accepted(outs, name, ranges, i), Z3)
        ob("%s(): valid arguments are not refused" % name, lambda: refused(outs, name, ranges), Z3)
    for kind, name in L.public():
        try:
            outs = [x for e in L.entry for x in L.paths(kind, name, e)]
        except PYERR:
            continue
        if any(e[0] == "handler" for o, k, v in outs for e in o.ev):
            ob("%s: the error handler of the process is put back" % (LABEL[kind] % name), lambda: handler(outs), SYM)
    fallback(c, opened, *c.replay)
