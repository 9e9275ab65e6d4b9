"""P16: what setting an attribute does to the instance."""
import z3

from checks.common import *
from checks.pylayer import LABEL, PYERR, Layer, composite, layer
from dv.pysym import C, HASH, NONE
from dv import pysym
from specs import settings as S
from specs import pyclass as K

BACK = "symbolic paths of the class + witness regions"
FR = "symbolic paths of the class"
ENTRY = "own spectrum computed"


class Bad(Exception):
    pass


class Settings:
    def __init__(self, L):
        self.L = L
        self.entry = L.start(ENTRY)
        self.g0 = {}
        for g in L.cls["getters"]:
            if g == "parameters":
                continue
            self.g0[g] = self.get(self.entry, g)

    def get(self, st, name):
        """value of the attribute in a state: one path, no effect"""
        st = st.copy()
        st.log = ()
        outs = self.L.ex.run("getters", name, st)
        vals = [(o, v) for o, k, v in outs if k == "v"]
        if len(vals) != 1 or len(outs) != 1:
            raise Bad("reading %s has %d outcomes" % (name, len(outs)))
        o, v = vals[0]
        if o.par != st.par or o.cont != st.cont or o.stage != st.stage or o.log != st.log or o.slf != st.slf:
            raise Bad("reading %s changes the instance" % name)
        return self.seqs(o, v)

    def seqs(self, st, v):
        """contents of the arrays an element refers to"""
        if isinstance(v, tuple):
            if v[:1] == ("item",) and len(v) == 3 and v[1] in st.cont:
                c = st.cont[v[1]]
                if c[0] == "seq":
                    return pysym.subst(c[2], HASH, self.seqs(st, v[2]))
                return ("item", c, v[2])
            return tuple(self.seqs(st, x) for x in v)
        return v

    def paths(self, name, kind="setters"):
        self.L.k.reset()
        outs = self.L.ex.run(kind, name, self.entry.copy())
        return [o for o, k, v in outs if k != "raise"], [o for o, k, v in outs if k == "raise"]

    # -- the clauses
    def refused(self, outs):
        for o in outs:
            if {k: v for k, v in o.par.items() if v != self.entry.par.get(k, ("par", k))} or \
                    any(k in self.entry.cont or k[0] == "par" for k in o.cont if o.cont[k] != self.entry.cont.get(k)):
                return "an exception after a change of %s" % sorted(k for k in o.par if o.par[k] != self.entry.par.get(k, ("par", k)))
            if any(x[0] == "arr" for x in o.log):
                return "an exception after a change of the contents of an array"
        return None

    def vocabulary(self, pc):
        def simple(t):
            return t[0] in ("c", "arg") or t[0] == "item" and simple(t[1]) or t[0] == "#" or \
                t[0] == "app" and t[1] in ("float", ".__index__", "len") and simple(t[2])

        def walk(t):
            if not isinstance(t, tuple):
                return
            if t[:2] == ("app", "cmp") and pysym.user(t):
                x, y = t[3], t[4]
                if not (simple(x) and simple(y) and ("c" in (x[0], y[0]))) and not self.foreign(t):
                    raise Bad("comparison outside the vocabulary: %s" % str(t)[:120])
            for x in t:
                walk(x)
        for t in pc:
            walk(t)

    def foreign(self, t):
        return pysym.mentions(t, lambda x: x[:1] in (("par",), ("ptr",)) or x[:2] in (("app", "np.sum"), ("app", "np.array"), ("app", "set"), ("app", "np.diff"), ("app", "np.allclose")))

    def accepts(self, name, good, bad, normal, raised, mayrefuse=False):
        for o in normal + raised:
            self.vocabulary(o.pc)
        for w in bad:
            for o in normal:
                h = S.holds(o.pc, {"value": w})
                if h in (True, None):
                    raise Bad("%r is accepted" % (w,))
        for w in good:
            if not any(S.holds(o.pc, {"value": w}) in (True, None) for o in normal):
                raise Bad("%r is refused" % (w,))
            for o in raised:
                if any(c[:2] == ("app", "raised") for c in o.pc):
                    continue
                h = S.holds(o.pc, {"value": w})
                if h is True or h is None and not mayrefuse:
                    raise Bad("%r may be refused" % (w,))
        return None

    def frame(self, name, normal):
        own = {name} | S.DERIVED.get(name, set())
        shown = set()
        for o in normal:
            for g in self.g0:
                if g in own or g in ("_coeff",) or g.startswith("big_omega_") and g[4:] in own:
                    continue
                v = self.get(o, g)
                if v != self.g0[g] and not self.sameterm(o, v, self.g0[g]):
                    return "changes %s" % g
            changed = {f for f in o.par if o.par[f] != self.entry.par.get(f, ("par", f))} - {"@pk"}
            for f in changed:
                if any(f == b or b.startswith(f + ".") for b in S.BIAS):
                    return "changes %s" % f
                if f in S.HIDDEN.get(name, ()):
                    continue
                if not any(pysym.mentions(self.g0[g], lambda x, f=f: x == ("par", f)) for g in self.g0 if g in own or g.startswith("big_omega_") and g[4:] in own):
                    return "changes par->%s" % f
        return None

    def sameterm(self, o, a, b):
        return o.pc.get(("app", "cmp", C("=="), a, b)) is True

    def field(self, name, f):
        """the attribute is carried by par->f"""
        g = self.g0[name]
        reads = set()
        pysym.mentions(g, lambda x: x[:1] == ("par",) and reads.add(x[1]) and False)
        want = set(f) if isinstance(f, (list, tuple, set)) else {f}
        return None if reads == want else "reads %s" % sorted(reads)

    def scalar(self, name, v, tolerant, types, o):
        x = ("arg", "value")
        if v == x or v == ("app", "float", x) or v == ("app", "int", x) and types == S.INT:
            return
        if tolerant and v == self.g0[name]:
            for c, b in o.pc.items():
                if b and c[:2] == ("app", "np.allclose") and len(c) == 4 and set(c[2:]) == {x, self.g0[name]}:
                    return
        raise Bad("the value reported after setting it is %s" % str(v)[:160])


CLASSES = [None, "abc", [], [1.0], 2j]


def numbers(types, lo, hi, consts):
    """witness scalars -> (accepted, refused)"""
    good, bad = [], list(CLASSES)
    for w in S.regions(set(consts) | {lo, hi}):
        cand = [float(w)]
        if float(w).is_integer():
            cand.append(int(w))
        else:
            f = int(w // 1) + (1 if w < lo else 0)
            # an integer in the same open interval, when there is one
            cs = sorted(set(consts) | {lo, hi})
            if not any(min(f, w) <= c <= max(f, w) for c in cs):
                cand.append(f)
        for x in cand:
            (good if type(x).__name__ in types and lo <= x <= hi else bad).append(x)
    bad += [float("nan"), float("inf"), -float("inf")]
    if "int" in types:
        for b in (False, True):
            (good if lo <= b <= hi else bad).append(b)
    else:
        bad += [True]
    return good, bad


def settings(c, scratch):
    from replay import py
    c.replay = (lambda: py.drive("settings", scratch), "bounded replay: every attribute on the rebuilt module")
    opened = []
    try:
        L = layer(c)
        T = Settings(L)
    except PYERR + (Bad,) as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:300])
        c.open("coffe.pyx is within the front end", why)
        fallback(c, [("coffe.pyx is within the front end", why)], *c.replay)
        return

    def ob(n, fn, back=BACK):
        def g():
            try:
                return fn()
            except Bad as e:
                return str(e)
            except PYERR as e:
                return "%s: %s" % (type(e).__name__, str(e)[:200])
        if not attempt(c, n, g, back):
            opened.append((n, "see log"))

    setters = set(L.cls["setters"])
    known = set(S.SCALAR) | set(S.PRECISION) | set(S.BOOL) | set(S.ENUM) | set(S.LIST) | {"covariance_populations"}
    ob("every writable attribute is specified", lambda: None if setters == known else "differ: %s" % sorted(setters ^ known), FR)
    for name in sorted(setters & known):
        one(L, T, name, ob)
    for b in S.BIAS:
        bias(L, T, b, ob)
    spectrum(L, T, ob)
    fallback(c, opened, *c.replay)


def one(L, T, name, ob):
    lab = "%s = value" % name
    cache = []

    def P():
        if not cache:
            cache.append(T.paths(name))
        return cache[0]
    ob("%s: a refused value changes no setting" % lab, lambda: T.refused(P()[1]), FR)
    ob("%s: changes nothing else" % lab, lambda: T.frame(name, P()[0]), FR)
    x = ("arg", "value")
    if name in S.SCALAR:
        f, types, lo, hi = S.SCALAR[name]
        ob("%s is carried by par->%s" % (name, f), lambda: T.field(name, f), FR)

        def rng():
            n, r = P()
            cs = set()
            for o in n + r:
                S.constants(tuple(k for k in o.pc if k[:2] == ("app", "cmp") and not T.foreign(k)), cs)
            good, bad = numbers(types, lo, hi, cs)
            return T.accepts(name, good, bad, n, r, name in S.BUDGET)
        ob("%s: accepts %s in [%g, %g] and nothing else" % (lab, "/".join(types), lo, hi), rng)

        def val():
            for o in P()[0]:
                T.scalar(name, T.get(o, name), name in S.TOLERANT, types, o)
        ob("%s: the value is reported back" % lab, val, FR)
    elif name in S.PRECISION:
        f = S.PRECISION[name]
        ob("%s is carried by par->%s" % (name, f), lambda: T.field(name, f), FR)

        def val():
            for o in P()[0]:
                T.scalar(name, T.get(o, name), False, S.INT, o)
        ob("%s: the value is reported back" % lab, val, FR)
    elif name in S.BOOL:
        f = S.BOOL[name]
        ob("%s is carried by par->%s" % (name, f), lambda: T.field(name, f), FR)

        def val():
            n, r = P()
            if r:
                return "may be refused"
            for o in n:
                v = T.get(o, name)
                want = ("app", "bool", x)
                if v != want and not all(S.ev(v, {"value": w}) is bool(w) for w in (True, False, 0, 1, 2, "", "a", None, [])):
                    return "the value reported is %s" % str(v)[:120]
                cv = o.parval(f)
                if [S.ev(cv, {"value": w}) for w in (True, False, 2, "")] != [1, 0, 1, 0]:
                    return "the C value is %s" % str(cv)[:120]
        ob("%s: bool(value) is reported back and is 0 or 1 in C" % lab, val, FR)
    elif name in S.ENUM:
        f, names = S.ENUM[name]
        ob("%s is carried by par->%s" % (name, f), lambda: T.field(name, f), FR)

        def val():
            n, r = P()
            good = list(names.values()) + [S.Sym("ccoffe." + k) for k in names]
            bad = ["abc", "", None, 1.5, "GSL"]
            T.accepts(name, good, bad, n, r)
            for w in good:
                for o in n:
                    if S.holds(o.pc, {"value": w}) is not False:
                        want = names[w.n[7:]] if isinstance(w, S.Sym) else w
                        got = S.ev(T.get(o, name), {"value": w})
                        cv = S.ev(o.parval(f), {"value": w})
                        wc = w if isinstance(w, S.Sym) else S.Sym("ccoffe." + [k for k in names if names[k] == w][0])
                        if got != want or cv != wc:
                            return "after %r it is %r (C: %r)" % (w, got, cv)
        ob("%s: exactly the named methods, reported back by name" % lab, val)
    elif name in S.LIST:
        f, n_, conv, ok, cs = S.LIST[name]
        ob("%s is carried by par->%s, par->%s" % (name, f, n_), lambda: T.field(name, (f, n_)), FR)

        def rng():
            n, r = P()
            ks = set(cs)
            for o in n + r:
                S.constants(tuple(o.pc), ks)
            good, bad = [[]], [5, None, 1.5, ["x"], [None], [2j]]
            for w in S.regions(ks):
                w = float(w)
                for e in ([w] if conv == "float" else []) + ([int(w)] if w.is_integer() else []):
                    (good if ok(e) else bad).append([e])
                if conv == "int" and not w.is_integer():
                    bad.append([w])
            bad += [[float("nan")]]
            g0 = good[-1]
            bad += [g0 + b for b in bad if isinstance(b, list)] + [b + g0 for b in bad if isinstance(b, list)]
            good.append([e for g in good for e in g])
            return T.accepts(name, good, bad, n, r)
        ob("%s: accepts exactly the lists of elements in the range" % lab, rng)

        def val():
            for o in P()[0]:
                v = T.get(o, name)
                it = ("item", x, HASH)
                els = [it] + [("app", k, it) for k in (("float",) if conv == "float" else ("int", ".__index__"))]
                if v not in [("app", "np.array", ("seq", ("app", "len", x), e)) for e in els]:
                    return "the value reported is %s" % str(v)[:160]
        ob("%s: the values are reported back, in order" % lab, val, FR)
    else:
        ob("covariance_populations is carried by its fields", lambda: T.field(name, S.POPULATIONS), FR)

        def val():
            n, r = P()
            good = [[1, 2, 3, 4], [1, 1, 1, 1], [4, 3, 2, 1], [2, 2, 1, 1]]
            bad = [[], [1], [1, 2, 3], [1, 2, 3, 4, 1], [0, 1, 1, 1], [1, 5, 1, 1], [1, 1, 1.5, 1], [1, 1, 1, "x"], [1, 1, -1, 1], 3, None, "abcd"]
            T.accepts(name, good, bad, n, r)
            for w in good:
                for o in n:
                    if S.holds(o.pc, {"value": w}) is not False:
                        if [S.ev(o.parval(p), {"value": w}) for p in S.POPULATIONS] != w or list(S.ev(T.get(o, name), {"value": w})) != w:
                            return "after %r it is different" % (w,)
        ob("%s: four of 1, 2, 3, 4, reported back in order" % lab, val)


def lengths(o, v):
    """v with lengths that are equal on this path identified"""
    for c, b in o.pc.items():
        if b and c[:3] == ("app", "cmp", C("==")) and all(z[:2] == ("app", "len") for z in c[3:]):
            v = pysym.subst(v, max(c[3:]), min(c[3:]))
    def red(t):
        if isinstance(t, tuple):
            t = tuple(red(x) for x in t)
            if t[:2] == ("app", "min") and len(set(t[2:])) == 1:
                return t[2]
        return t
    return red(v)


def at_zero(o, seq, Y):
    """the samples, given at redshift z, brought to redshift zero: y D1(z)^2 is the sample given, where D1(0) = 1 (P10)"""
    from checks.budget import Reals, entail
    if not seq or seq[0] != "seq" or seq[1] != lengths(o, ("app", "len", Y)):
        return False
    R = Reals()
    z = ("arg", "z")
    d, given = R.atom(("app", "coffe_interp_spline", ("_background", "D1"), z)), R.atom(("item", Y, HASH))
    hs = [R.fact(k, b) for k, b in o.pc.items()]
    hs = [h for h in hs if h is not None] + [d > 0, R.atom(z) >= 0, z3.Implies(R.atom(z) == 0, d == 1)]
    return not entail(R, hs, R.num(seq[2]) * d * d == given)


def spline(o, v, X, Y, y=None):
    def nodes(a):
        it = ("item", a, HASH)
        return [lengths(o, ("seq", ("app", "len", a), e)) for e in (it, ("app", "float", it))]
    if not v or v[0] != "spline":
        return False
    v = lengths(o, v)
    return v[1] in nodes(X) and (y(o, v[2], Y) if y else v[2] in nodes(Y)) and v[3] == lengths(o, ("app", "len", X)) and v[4] == ("par", "interp_method")


def bias(L, T, b, ob):
    X, Y = ("arg", "x_sampling"), ("arg", "y_sampling")
    lab = "set_%s(x, y)" % b
    cache = []

    def P():
        if not cache:
            cache.append(T.paths("set_" + b, "methods"))
        return cache[0]

    def nodes(a):
        it = ("item", a, HASH)
        return [("seq", ("app", "len", a), e) for e in (it, ("app", "float", it))]
    ob("%s: a refused sampling changes nothing" % lab, lambda: T.refused(P()[1]), FR)

    def val():
        n, r = P()
        if not n:
            return "never succeeds"
        for o in n:
            v = o.par.get(b)
            if not spline(o, v, X, Y):
                return "par->%s is %s" % (b, str(v)[:160])
            ch = {f for f in o.par if o.par[f] != T.entry.par.get(f, ("par", f))}
            if ch != {b}:
                return "changes %s" % sorted(ch - {b})
    ob("%s: the interpolation of the samples becomes par->%s and nothing else changes" % (lab, b), val, FR)

    def pre():
        for o in P()[0]:
            lens = [c for c, v in o.pc.items() if v and c[:3] == ("app", "cmp", C("==")) and set(c[3:]) == {("app", "len", X), ("app", "len", Y)}]
            few = [c for c, v in o.pc.items() if c[:2] == ("app", "cmp") and ("app", "len", X) in c and any(isinstance(z, tuple) and z[0] == "c" and z[1] in (4, 5) for z in c[3:])]
            inc = [c for c, v in o.pc.items() if v and c[:2] == ("app", "np.all") and c[2][:4] == ("app", "cmp", C("<"), C(0)) and c[2][4][:2] == ("app", "np.diff") and c[2][4][2] in nodes(X)]
            if not lens:
                return "accepts samples of different lengths"
            if not few:
                return "accepts samples from which no spline can be built"
            if not inc:
                return "accepts redshifts that do not increase"
    ob("%s: only strictly increasing redshifts, as many values as redshifts, enough of them" % lab, pre, FR)

    def ev():
        o0 = P()[0][0]
        outs = L.ex.run("methods", b, o0.copy())
        ok = 0
        for o, k, v in outs:
            if o.par != o0.par or o.log != o0.log:
                return "reading it changes the instance"
            if k == "v":
                ok += 1
                if v != ("app", "coffe_interp_spline", o0.par[b], ("arg", "z")):
                    return "evaluates to %s" % str(v)[:120]
        return None if ok else "never succeeds"
    ob("%s(z): the interpolation of its own samples" % b, ev, FR)


def spectrum(L, T, ob):
    X, Y = ("arg", "k"), ("arg", "pk")
    cache = []

    def P():
        if not cache:
            cache.append(T.paths("set_power_spectrum_linear", "methods"))
        return cache[0]
    lab = "set_power_spectrum_linear(k, pk)"
    ob("%s: a refused spectrum changes nothing" % lab, lambda: T.refused(P()[1]), FR)

    def val():
        n, r = P()
        if not n:
            return "never succeeds"
        for o in n:
            for f in ("power_spectrum", "power_spectrum_norm"):
                v = o.par.get(f)
                if not spline(o, v, X, Y, at_zero):
                    return "par->%s is %s" % (f, str(v)[:160])
            for f, i in (("k_min", 0), ("k_min_norm", 0), ("k_max", -1), ("k_max_norm", -1)):
                e = ("item", X, C(i))
                if o.par.get(f) not in (e, ("app", "float", e)):
                    return "par->%s is %s" % (f, str(o.par.get(f))[:100])
            ch = {f for f in o.par if o.par[f] != T.entry.par.get(f, ("par", f))} - {"@pk", "power_spectrum2d", "power_spectrum2d_norm"}
            if ch != {"power_spectrum", "power_spectrum_norm", "k_min", "k_min_norm", "k_max", "k_max_norm"}:
                return "changes %s" % sorted(ch)
    ob("%s: the interpolation of the samples, brought from redshift z to 0 by the growth factor, over their own range becomes the spectrum" % lab, val, FR)
