"""P18: an instance can be saved, loaded, and rebuilt from its dictionary of parameters.

to_file, from_file, parameters, set_parameters, reset_contributions, the parser class: their real bodies, extracted from
coffe.pyx on every run (Cython parser -> Python ast), are executed symbolically: each number is an opaque token that can
only be formatted, parsed back and passed on, so one run stands for every value; a body that looks at the value of a
token has no run and the obligation stays open.  The setters and getters they use are the ones of P16's contracts.
"""
import ast
import builtins
import configparser
import re
import warnings

import numpy as np

from checks.common import *
from checks.pylayer import PYERR, layer
from checks.settings import Bad, Settings
from dv import pysym
from dv.pysym import HASH
from specs import settings as S

TRACE = "symbolic execution of the extracted body (opaque values)"
FR = "symbolic paths of the class"


class Peek(Exception):
    """the code looks at an opaque value"""


TOKENS = {}


def opaque(base, tag):
    def peek(self, *a):
        raise Peek("the value of %s matters" % self.mark)

    def show(self, *a):
        if a and a[0]:
            raise Peek("%s is written with the format %r" % (self.mark, a[0]))
        return self.mark
    d = {n: peek for n in ("__lt__ __le__ __gt__ __ge__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __neg__ __abs__ __bool__ "
                           "__int__ __float__ __round__ __pow__ __floordiv__ __mod__ __rmod__ __trunc__ __index__").split()}
    d.update(__str__=show, __repr__=show, __format__=show, __eq__=lambda s, o: s is o or peek(s), __ne__=lambda s, o: s is not o and peek(s), __hash__=lambda s: hash(s.mark))
    return type(tag, (base,), d)


F, I = opaque(float, "F"), opaque(int, "I")


def token(kind, name):
    m = "<%s:%s>" % (kind.__name__, name)
    if m not in TOKENS:
        TOKENS[m] = kind(0)
        TOKENS[m].mark = m
    return TOKENS[m]


class FloatOf(F):
    pass


def tofloat(x=0.0):
    if isinstance(x, str) and x.strip() in TOKENS:
        x = TOKENS[x.strip()]
    if isinstance(x, F):
        return x
    if isinstance(x, I):
        r = FloatOf(0)
        r.mark = x.mark
        r.of = x
        return r
    if isinstance(x, str) and "<" in x:
        raise ValueError("could not convert string to float: %r" % x)
    return builtins.float(x)


def toint(x=0, *a):
    if isinstance(x, str) and x.strip() in TOKENS:
        x = TOKENS[x.strip()]
        if isinstance(x, F):
            raise ValueError("invalid literal for int()")
    if isinstance(x, I):
        return x
    if isinstance(x, F):
        raise Peek("the integer part of %s matters" % x.mark)
    return builtins.int(x, *a)


class kind_float(type):
    def __instancecheck__(c, x):
        return isinstance(x, builtins.float)

    def __call__(c, *a):
        return tofloat(*a)


class kind_int(type):
    def __instancecheck__(c, x):
        return isinstance(x, builtins.int)

    def __call__(c, *a):
        return toint(*a)


class float_(metaclass=kind_float):
    pass


class int_(metaclass=kind_int):
    pass


class Parser(configparser.ConfigParser):
    """the parser of the standard library, reading opaque numbers"""

    def getfloat(self, section, option, **kw):
        return self._get_conv(section, option, tofloat, **{k: v for k, v in kw.items() if k in ("raw", "vars")})

    def getint(self, section, option, **kw):
        return self._get_conv(section, option, toint, **{k: v for k, v in kw.items() if k in ("raw", "vars")})


class Sets(ast.NodeTransformer):
    """the order of a set of strings is random: iterate over it in the order under test"""

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("__set__", ast.Load()), [ast.List(n.elts, ast.Load())], [])

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset"):
            n.func = ast.Name("__set__", ast.Load())
        return n

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("__set__", ast.Load()), [ast.ListComp(n.elt, n.generators)], [])


def function(fd, env, name=None):
    if getattr(fd, "unsupported", None):
        raise Bad(fd.unsupported)
    a = fd.args
    d = getattr(a, "all_defaults", [])
    while d and d[0] is None:
        d = d[1:]
    if any(x is None for x in d):
        raise Bad("keyword-only arguments of %s" % fd.name)
    args = ast.arguments([], a.args, a.vararg, [], [], a.kwarg, d)
    text = ast.unparse(ast.FunctionDef(name or fd.name, args, fd.body, [], None, lineno=1))
    tree = ast.fix_missing_locations(Sets().visit(ast.parse(text)))
    loc = {}
    exec(compile(tree, "<%s of coffe.pyx>" % fd.name, "exec"), env, loc)
    return loc[name or fd.name]


class PathOf:
    def __init__(self, W):
        self.W = W

    def read_text(self, *a, **k):
        return self.W.text

    def write_text(self, t, *a, **k):
        self.W.text = t

    def open(self, mode="r", *a, **k):
        return Handle(self.W, mode)


class World:
    """one run: the values of an instance, an order of the sets"""

    def __init__(self, L, values, flip=False, biases=()):
        self.L = L
        self.unordered = 0
        self.log = []
        self.refuse = None
        W = self

        class Ordered(list):
            def __iter__(s):
                W.unordered += 1
                xs = sorted(set(list.__iter__(s)), reverse=flip)
                try:
                    for x in xs:
                        W.current_unordered = True
                        yield x
                finally:
                    W.unordered -= 1

            def __contains__(s, x):
                return any(x == y for y in list.__iter__(s))
        self.env = dict(np=np, warnings=warnings, float=float_, int=int_, __set__=Ordered, open=self.open, Path=lambda f: PathOf(self), os=None, Optional=None)
        for n, c in L.module[2].items():
            if c is L.cls:
                continue
            bases = (Parser,) if n == "CoffeConfigParser" else ()
            self.env[n] = type(n, bases, {m: function(f, self.env) for m, f in c["methods"].items()})
        for n, f in L.module[0].items():
            if not getattr(f, "unsupported", None):
                try:
                    self.env[n] = function(f, self.env)
                except (Bad, SyntaxError):
                    pass
        self.env["Coffe"] = self.coffe = self.instance(values, biases)
        self.text = None

    def instance(W, values, biases):
        L = W.L
        d = {}
        for g in L.cls["getters"]:
            d[g] = property(lambda s, g=g: W.read(s, g), (lambda s, v, g=g: W.write(s, g, v)) if g in L.cls["setters"] else None)
        for g in L.cls["methods"]:
            d[g] = lambda s, *a, g=g, **k: W.call(s, g, a, k)
        for g in ("parameters", "set_parameters", "reset_contributions", "to_file"):
            kind = "getters" if g == "parameters" else "methods"
            f = function(L.cls[kind][g], W.env)
            d[g] = property(f) if g == "parameters" else f

        def init(s, **kw):
            s.__dict__["made"] = True
            W.log.append(("new", s))
        d["__init__"] = init
        c = type("Coffe", (), d)
        W.values, W.biases = values, dict(biases)
        W.me = c()
        return c

    def read(W, s, g):
        if g in W.values:
            v = W.values[g]
            return v() if callable(v) else v
        if g in W.L.cls["setters"]:
            raise Bad("%s has no value" % g)
        return token(F, g)

    def write(W, s, g, v):
        W.log.append(("set", s, g, v, W.unordered > 0))

    def call(W, s, g, a, k):
        if g in W.biases and not a and s is W.me:
            return W.biases[g]
        W.log.append(("call", s, g, a, k))

    # files
    def open(W, filename, mode="r", *a, **k):
        return Handle(W, mode)


class Handle:
    """a file: what was written last is what is read"""

    def __init__(self, W, mode):
        self.W, self.mode = W, mode
        if mode in ("w", "wt"):
            W.text = ""
        elif mode not in ("a", "r", "rt"):
            raise Bad("file mode %r" % mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, t):
        self.W.text += t

    def writelines(self, ts):
        for t in ts:
            self.W.text += t

    def read(self):
        return self.W.text

    def __iter__(self):
        return iter(self.W.text.splitlines(True))


def kinds(L, n, variant):
    """the value a getter of the class gives (P16): kind of the attribute, opaque content"""
    if n in S.SCALAR:
        return token(I if S.SCALAR[n][1] == S.INT else F, n)
    if n in S.PRECISION:
        return token(I if S.PRECISION[n].split(".")[1].startswith(("l_max",)) else F, n)
    if n in S.BOOL:
        return bool(variant % 2)
    if n in S.ENUM:
        v = list(S.ENUM[n][1].values())
        return v[variant % len(v)]
    if n == "covariance_populations":
        return [token(I, "%s%d" % (n, i)) for i in range(4)]
    f, l, conv, ok, cs = S.LIST[n]
    k = I if conv == "int" else F
    xs = [token(k, "%s%d" % (n, i)) for i in range((0, 1, 3, 5)[variant % 4])]

    def arr():
        r = np.empty(len(xs), dtype=object)
        r[:] = xs
        return r
    return arr


def same(got, want):
    if callable(want):
        want = list(want())
    if isinstance(want, list):
        return isinstance(got, (list, tuple, np.ndarray)) and len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    if isinstance(want, bool):
        return not isinstance(got, (float, str)) and got in (0, 1) and bool(got) == want
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    return got is want or isinstance(got, FloatOf) and got.of is want


def bias_values(b):
    r = {}
    for w in ("redshifts", "values"):
        a = np.empty(6, dtype=object)
        a[:] = [token(F, "%s_%s%d" % (b, w, i)) for i in range(6)]
        r["%s_%s" % (b, w)] = a
    return r


def world(L, variant, flip=False):
    vals = {n: kinds(L, n, variant) for n in L.cls["setters"]}
    bs = {}
    for b in S.BIAS:
        bs.update(bias_values(b))
    return World(L, vals, flip, bs)


def guarded(fn):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn()
    except (Bad, Peek):
        raise
    except PYERR:
        raise
    except Exception as e:
        raise Bad("%s: %s" % (type(e).__name__, str(e)[:200]))


def load_trace(L, variant, flip):
    """save the instance, load the file: -> (world, what was set, in order)"""
    w = world(L, variant, flip)
    n0 = len(w.log)

    def run():
        w.me.to_file("f")
        for x in w.log[n0:]:
            if x[0] != "new" and x[1] is w.me:
                raise Bad("saving changes the instance: %s" % (x[2],))
        n1 = len(w.log)
        f = function(L.cls["static"]["from_file"], w.env)
        r = f("f")
        return w, r, [x for x in w.log[n1:] if x[0] != "new"]
    return guarded(run)


def roundtrip(c, scratch):
    from replay import py
    c.replay = (lambda: py.drive("roundtrip", scratch), "bounded replay: instances saved, loaded and rebuilt on the rebuilt module")
    opened = []
    try:
        L = layer(c)
        T = Settings(L)
    except PYERR + (Bad,) as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:300])
        c.open("coffe.pyx is within the front end", why)
        fallback(c, [("coffe.pyx is within the front end", why)], *c.replay)
        return

    def ob(n, fn, back=TRACE):
        def g():
            try:
                return guarded(fn)
            except (Bad, Peek) as e:
                return str(e)
            except PYERR as e:
                return "%s: %s" % (type(e).__name__, str(e)[:200])
        if not attempt(c, n, g, back):
            opened.append((n, "see log"))

    setters = sorted(L.cls["setters"])
    traces = {}

    def trace(variant, flip):
        k = (variant, flip)
        if k not in traces:
            try:
                traces[k] = load_trace(L, variant, flip)
            except (Bad, Peek) as e:
                traces[k] = e
        if isinstance(traces[k], Exception):
            raise Bad(str(traces[k]))
        return traces[k]
    RUNS = [(v, f) for v in range(4) for f in (False, True)]

    ob("parameters: the writable attributes and their values", lambda: parameters(L))
    ob("set_parameters: sets each given attribute, in order, or refuses all of them", lambda: setparameters(L))
    ob("reset_contributions: sets every writable has_ attribute to False and nothing else", lambda: reset(L))

    def fresh():
        for v, f in RUNS:
            w, r, ev = trace(v, f)
            if r is None or not isinstance(r, w.coffe) or r is w.me or any(x[1] is not r for x in ev):
                return "the result is not one new instance"
    ob("from_file(to_file): one new instance", fresh)
    for n in setters:
        def rb(n=n):
            for v, f in RUNS:
                w, r, ev = trace(v, f)
                sets = [x[3] for x in ev if x[0] == "set" and x[2] == n]
                if not sets:
                    if n == "omega_cdm":
                        continue        # follows from the other densities (P17)
                    return "is not read"
                if not same(sets[-1], w.values[n]):
                    return "is read as %s, not %s" % (repr(sets[-1])[:80], repr(w.read(w.me, n))[:80])
        ob("from_file(to_file): %s is the same" % n, rb)
    for b in S.BIAS:
        def rb(b=b):
            for v, f in RUNS:
                w, r, ev = trace(v, f)
                calls = [x for x in ev if x[0] == "call" and x[2] == "set_" + b]
                if not calls:
                    return "is not read"
                a, k = calls[-1][3], calls[-1][4]
                x, y = (list(a) + [k.get("x_sampling"), k.get("y_sampling")][len(a):])[:2] if len(a) < 2 else a
                if not same(list(x), list(w.biases[b + "_redshifts"])) or not same(list(y), list(w.biases[b + "_values"])):
                    return "is read as %s, %s" % (repr(x)[:80], repr(y)[:80])
        ob("from_file(to_file): %s is set to its own samples" % b, rb)
        ob("%s_redshifts(), %s_values(): the nodes of the interpolation and the values there" % (b, b), lambda b=b: nodes(L, T, b), FR)

    def extra():
        for v, f in RUNS:
            w, r, ev = trace(v, f)
            for x in ev:
                if x[0] == "call" and not (x[2].startswith("set_") and x[2][4:] in S.BIAS) or x[0] == "set" and x[2] not in setters:
                    return "also does %s" % x[2]
    ob("from_file(to_file): nothing else happens to the instance", extra)
    ob("from_file(to_file): no density parameter is refused on the way", lambda: order([trace(v, f) for v, f in RUNS]), "z3 over P17's contracts of the setters")
    fallback(c, opened, *c.replay)


def parameters(L):
    for v in range(4):
        w = world(L, v)
        n0 = len(w.log)
        p = w.me.parameters
        if any(x[0] != "new" and x[1] is w.me for x in w.log[n0:]):
            return "reading it changes the instance"
        if set(p) != set(L.cls["setters"]):
            return "differs in %s" % sorted(set(p) ^ set(L.cls["setters"]))
        for n in p:
            if not same(p[n], w.values[n]):
                return "%s is %r" % (n, p[n])


def setparameters(L):
    names = sorted(L.cls["setters"])
    for v in range(4):
        for order_ in (names, names[::-1]):
            w = world(L, v)
            n0 = len(w.log)
            vals = {n: w.read(w.me, n) for n in order_}
            w.me.set_parameters(**vals)
            got = [(x[2], x[3]) for x in w.log[n0:]]
            if any(x[0] != "set" or x[1] is not w.me for x in w.log[n0:]) or [g[0] for g in got] != order_:
                return "sets %s" % str([g[0] for g in got])[:100]
            if not all(a is vals[n] for n, a in got):
                return "changes a value"
            for bad in range(0, len(order_), 9):
                kw = dict((n, vals[n]) for n in order_[:bad])
                kw["no_such_parameter"] = 1
                kw.update((n, vals[n]) for n in order_[bad:])
                n0 = len(w.log)
                try:
                    w.me.set_parameters(**kw)
                    return "accepts an unknown name"
                except AttributeError:
                    pass
                if len(w.log) != n0:
                    return "an unknown name is refused after %s was set" % w.log[n0][2]


def reset(L):
    want = {n for n in L.cls["setters"] if n.startswith("has_")}
    w = world(L, 1)
    n0 = len(w.log)
    w.me.reset_contributions()
    ev = [x for x in w.log[n0:] if x[0] != "new" and x[1] is w.me]
    if any(x[0] != "set" or isinstance(x[3], (float, str)) or x[3] not in (False, 0) for x in ev):
        return "does %s" % str(ev[0][2:4])
    got = {x[2] for x in ev}
    return None if got == want else "differs in %s" % sorted(got ^ want)


def nodes(L, T, b):
    o = [o for o, k, v in L.ex.run("methods", "set_" + b, T.entry.copy()) if k == "v"][0]
    sp = o.par[b]
    base = ("deref", ("attr", ("addr", "_parameters", b), "spline"))

    def resolve(t):
        if not isinstance(t, tuple):
            return t
        if t == ("attr", base, "size"):
            return sp[3]
        if len(t) == 3 and t[0] == "item" and t[1] == ("attr", base, "x"):
            return pysym.subst(sp[1][2], HASH, resolve(t[2])) if sp[1][0] == "seq" else ("item", sp[1], resolve(t[2]))
        return tuple(resolve(x) for x in t)
    for w, el in (("redshifts", None), ("values", ("app", "coffe_interp_spline", sp))):
        outs = L.ex.run("methods", "%s_%s" % (b, w), o.copy())
        vals = [(o2, v) for o2, k, v in outs if k == "v"]
        if len(vals) != 1:
            return "%s: %d outcomes" % (w, len(vals))
        o2, v = vals[0]
        if o2.par != o.par or o2.log != o.log:
            return "reading the %s changes the instance" % w
        want = ("app", "np.array", ("seq", sp[3], sp[1][2] if el is None else el + (sp[1][2],)))
        if resolve(v) != want:
            return "%s: %s" % (w, str(resolve(v))[:200])


def order(traces):
    """each density parameter is accepted, whatever the (physical) target; the setter contracts are P17's"""
    import z3
    for w, r, ev in traces:
        seq = [(x[2], x[3], x[4]) for x in ev if x[0] == "set" and x[2] in ("omega_m", "omega_gamma", "omega_baryon", "omega_cdm", "h", "m_ncdm")]
        if any(u for n, v, u in seq if n.startswith("omega")):
            return "a density parameter is set in the order of a set"
        z = {n: z3.Real(n) for n in ("omega_m", "omega_gamma", "omega_baryon", "omega_cdm", "omega_nu")}
        hyp = [z["omega_m"] + z["omega_gamma"] <= 1, z["omega_gamma"] >= 0, z["omega_m"] >= 0, z["omega_m"] == z["omega_baryon"] + z["omega_cdm"] + z["omega_nu"]]
        m, b, g, nu = (z3.RealVal(x) for x in ("0.3", "0.05", "0.00009", "0"))
        for n, v, u in seq:
            if n in ("h", "m_ncdm"):
                nu = z3.FreshReal("nu")
                continue
            x = z[n] if isinstance(v, F) else z3.RealVal(str(v))
            m2, b2, g2 = m, b, g
            if n == "omega_m":
                m2 = x
            elif n == "omega_gamma":
                g2 = x
            elif n == "omega_baryon":
                b2 = x
            else:
                m2 = x + b + nu
            s = z3.Solver()
            s.add(*hyp)
            s.add(z3.Not(m2 + g2 <= 1))
            if s.check() != z3.unsat:
                return "%s may be refused: %s" % (n, s.model())
            m, b, g = m2, b2, g2
        s = z3.Solver()
        s.add(*hyp)
        s.add(z3.Not(z3.And(m == z["omega_m"], b == z["omega_baryon"], g == z["omega_gamma"])))
        if s.check() != z3.unsat:
            return "ends at other density parameters"
