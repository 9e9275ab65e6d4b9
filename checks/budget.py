"""P17: the density parameters of an instance always form one consistent cosmology."""
from fractions import Fraction

import z3

from checks.common import *
from checks.pylayer import LABEL, PYERR, composite, layer
from checks.settings import ENTRY, Bad, Settings

M, B, N, G, D, CD, H, MN = ("Omega0_m", "Omega0_baryon", "Omega0_nu", "Omega0_gamma", "Omega0_de", "Omega0_cdm", "h", "m_ncdm")
FIELDS = (M, B, N, G, D, CD, H, MN)
Z3 = "z3 (nonlinear real arithmetic)"
EVOLT = Fraction("93.14")
#: what the attributes of the class report
SHOWN = {"m": M, "baryon": B, "nu": N, "gamma": G, "de": D, "cdm": CD}
INVARIANT = {
    "matter is cold dark matter, baryons and massive neutrinos": lambda f: f(M) == f(CD) + f(B) + f(N),
    "matter, radiation and dark energy add up to 1": lambda f: f(M) + f(G) + f(D) == 1,
    "massive neutrinos: Omega_nu h^2 = m_ncdm / 93.14 eV": lambda f: f(N) * f(H) * f(H) * z3.Q(EVOLT.numerator, EVOLT.denominator) == f(MN),
    "dark energy is not negative": lambda f: f(D) >= 0}


class Reals:
    """translation of the executor's terms to real arithmetic; anything else is an uninterpreted constant"""

    def __init__(self):
        self.atoms = {}

    def atom(self, t, sort=z3.Real):
        k = (t, sort is z3.Bool)
        if k not in self.atoms:
            self.atoms[k] = sort("v%d" % len(self.atoms))
        return self.atoms[k]

    def par(self, f):
        return self.atom(("par", f))

    def num(self, t):
        if t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool) and t[1] == t[1] and abs(t[1]) != float("inf"):
            q = Fraction(str(t[1]))
            return z3.Q(q.numerator, q.denominator)
        if t[0] == "app":
            o, a = t[1], t[2:]
            if o in ("+", "-", "*", "/") and len(a) == 2:
                x, y = self.num(a[0]), self.num(a[1])
                return x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x / y
            if o == "neg":
                return -self.num(a[0])
            if o in ("**", "pow") and len(a) == 2 and a[1] in (("c", 2), ("c", 2.0)):
                return self.num(a[0]) * self.num(a[0])
            if o in ("float", "np.array", "list", "tuple") and len(a) == 1 and o == "float":
                return self.num(a[0])
            if o in ("np.sum", "sum") and len(a) == 1:
                l = self.items(a[0])
                if l is not None:
                    return z3.Sum([self.num(x) for x in l]) if l else z3.RealVal(0)
        return self.atom(t)

    def items(self, t):
        if t[0] in ("list", "tuple"):
            return list(t[1:])
        if t[0] == "app" and t[1] in ("np.array", "list", "tuple", "np.asarray") and len(t) == 3:
            return self.items(t[2])
        return None

    def fact(self, c, b):
        if c[:2] == ("app", "cmp") and c[2][0] == "c" and c[2][1] in ("<", "<=", "=="):
            x, y = self.num(c[3]), self.num(c[4])
            e = x < y if c[2][1] == "<" else x <= y if c[2][1] == "<=" else x == y
        elif c[:2] == ("app", "not"):
            return self.fact(c[2], not b)
        elif c[:2] == ("app", "np.allclose") and len(c) == 4:
            x, y = self.num(c[2]), self.num(c[3])
            e = close(x, y)
        else:
            return None
        return e if b else z3.Not(e)


def zabs(x):
    return z3.If(x >= 0, x, -x)


def close(x, y):
    """np.allclose(x, y) with its default tolerances"""
    return zabs(x - y) <= z3.Q(1, 10**8) + z3.Q(1, 10**5) * zabs(y)


def entail(R, hyps, goal):
    s = z3.Solver()
    s.set("timeout", 20000)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return None
    if r == z3.sat:
        m = s.model()
        return "fails, e.g. for %s" % ", ".join("%s = %s" % (k[0][1] if k[0][0] in ("par", "arg") else str(k[0])[:60], m.eval(v)) for k, v in sorted(R.atoms.items(), key=str)
                                              if k[0][0] in ("par", "arg"))[:300]
    return "not decided by z3"


def budget(c, scratch):
    from replay import py
    c.replay = (lambda: py.drive("budget", scratch), "bounded replay: histories of cosmology setters on the rebuilt module")
    opened = []
    try:
        L = layer(c)
        T = Settings(L)
    except PYERR + (Bad,) as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:300])
        c.open("coffe.pyx is within the front end", why)
        fallback(c, [("coffe.pyx is within the front end", why)], *c.replay)
        return

    def ob(n, fn, back):
        def g():
            try:
                return fn()
            except Bad as e:
                return str(e)
            except PYERR as e:
                return "%s: %s" % (type(e).__name__, str(e)[:200])
        if not attempt(c, n, g, back):
            opened.append((n, "see log"))

    SYM = "symbolic paths of the class"
    ob("a new instance: values of the parser's defaults", lambda: defaults(L), "clang AST + exact rational evaluation")
    ob("a new instance keeps the parser's defaults", lambda: made(L), SYM)
    for a, f in SHOWN.items():
        ob("omega_%s and big_omega_%s report par->%s" % (a, a, f), lambda a=a, f=f: None if T.g0["omega_" + a] == ("par", f) and T.g0["big_omega_" + a] == ("par", f) else
           "report %s, %s" % (str(T.g0["omega_" + a])[:80], str(T.g0["big_omega_" + a])[:80]), SYM)
    for kind, name in L.public():
        lab = LABEL[kind] % name
        try:
            outs = [x for e in L.entry for x in L.paths(kind, name, e)]
        except PYERR as e:
            w = composite(L, kind, name)
            if w is None:
                c.ok("%s: only public operations" % lab, "composition", 0)
            else:
                n = "%s keeps the budget" % lab
                c.open(n, "%s; %s" % (str(e)[:150], w))
                opened.append((n, str(e)[:150]))
            continue
        touched = {f for o, k, v in outs for f in FIELDS if o.par.get(f, ("par", f)) != ("par", f)}
        if not touched:
            ob("%s leaves the density parameters as they are" % lab, lambda: None, SYM)
            continue
        for n, inv in INVARIANT.items():
            ob("%s: %s" % (lab, n), lambda: keeps(outs, inv), Z3)
        if kind == "setters":
            ob("%s: takes the value" % lab, lambda: takes(outs, name), Z3)
            ob("%s: a valid number is refused only when dark energy would be negative" % lab, lambda: refuses(outs, name), Z3)
    fallback(c, opened, *c.replay)


def hyps(R, o):
    hs = [inv(R.par) for inv in INVARIANT.values()]
    hs += [R.par(H) != 0]
    for k, b in o.pc.items():
        e = R.fact(k, b)
        if e is not None:
            hs.append(e)
    return hs


def nonzero(R, o, hs):
    """a division by zero raises, so on a path that returns the divisors are not zero"""
    def walk(t):
        if isinstance(t, tuple):
            if t[:2] == ("app", "/") and len(t) == 4:
                hs.append(R.num(t[3]) != 0)
            for x in t:
                walk(x)
    for f in FIELDS:
        walk(o.par.get(f, ("par", f)))


def keeps(outs, inv):
    for o, k, v in outs:
        if all(o.par.get(f, ("par", f)) == ("par", f) for f in FIELDS):
            continue
        R = Reals()
        hs = hyps(R, o)
        nonzero(R, o, hs)
        w = entail(R, hs, inv(lambda f: R.num(o.par.get(f, ("par", f)))))
        if w:
            return w


def takes(outs, name):
    f = {"omega_m": M, "omega_cdm": CD, "omega_baryon": B, "omega_gamma": G, "h": H, "m_ncdm": MN}.get(name)
    if f is None:
        return "changes the density parameters"
    others = {M: (B, G, H, MN), CD: (B, G, H, MN), B: (M, G, H, MN), G: (M, B, H, MN), H: (M, B, G, MN), MN: (M, B, G, H)}[f]
    for o, k, v in outs:
        if k == "raise":
            continue
        R = Reals()
        hs = hyps(R, o)
        nonzero(R, o, hs)
        if all(o.par.get(x, ("par", x)) == ("par", x) for x in FIELDS):
            v, p = R.atom(("arg", "value")), R.par(f)
            w = entail(R, hs, z3.Or(close(v, p), close(p, v)))
            if w:
                return "a value is accepted and ignored: " + w
            continue
        w = entail(R, hs, z3.And(R.num(o.par.get(f, ("par", f))) == R.atom(("arg", "value")), *[R.num(o.par.get(x, ("par", x))) == R.par(x) for x in others]))
        if w:
            return w


def refuses(outs, name):
    """a path that raises although the value has the right type and is in the range"""
    v = ("arg", "value")
    for o, k, _ in outs:
        if k != "raise" or any(c[:2] == ("app", "raised") for c in o.pc):
            continue
        typed = ranged = 0
        for c, b in o.pc.items():
            if c[:2] == ("app", "isinstance"):
                typed += 1 if b else -10
            elif c[:2] == ("app", "cmp") and v in c[3:] and any(x[0] == "c" for x in c[3:]):
                ranged += 1 if b else -10
        if typed < 0 or ranged < 0:
            continue
        R = Reals()
        hs = hyps(R, o)
        x = R.atom(v)
        de = {"omega_m": 1 - x - R.par(G), "omega_cdm": 1 - x - R.par(B) - R.par(N) - R.par(G), "omega_gamma": 1 - x - R.par(M)}.get(name, R.par(D))
        w = entail(R, hs, de < 0)
        if w:
            return w


def made(L):
    o = L.cinit
    for f in FIELDS:
        if o.par.get(f, ("par", f)) != ("par", f):
            return "the constructor changes par->%s" % f


def defaults(L):
    """coffe_parse_default_parameters establishes the invariant"""
    from dv.cast import load
    fn = load("parser.c").functions["coffe_parse_default_parameters"]
    body = [x for x in fn["inner"] if x["kind"] == "CompoundStmt"][0]
    S = L.foot.strip
    vals = {}

    def field(n):
        n = S(n)
        return n["name"] if n.get("kind") == "MemberExpr" and L.foot.parmember(n) else None

    def ev(n):
        n = S(n)
        k = n["kind"]
        if k in ("FloatingLiteral", "IntegerLiteral"):
            return Fraction(n["value"])
        if k == "MemberExpr" and field(n) in vals:
            return vals[field(n)]
        if k == "UnaryOperator" and n["opcode"] == "-":
            return -ev(n["inner"][0])
        if k == "BinaryOperator" and n["opcode"] in "+-*/":
            a, b = (ev(x) for x in n["inner"])
            return a + b if n["opcode"] == "+" else a - b if n["opcode"] == "-" else a * b if n["opcode"] == "*" else a / b
        raise Bad("default outside the subset: %s" % k)
    top = set()
    for s in body["inner"]:
        if s.get("kind") == "BinaryOperator" and s["opcode"] == "=" and field(s["inner"][0]) in FIELDS:
            vals[field(s["inner"][0])] = ev(s["inner"][1])
            top.add(id(s))
        if s.get("kind") == "ReturnStmt" and s is not body["inner"][-1]:
            raise Bad("returns early")
    for y in L.foot.rawwalk(body):
        if y.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and y.get("opcode", "").endswith("=") and field(y["inner"][0]) in FIELDS and id(y) not in top \
                and y["opcode"] not in ("==", "!=", "<=", ">="):
            raise Bad("assigned under a condition: %s" % field(y["inner"][0]))
    miss = set(FIELDS) - set(vals)
    if miss:
        return "not initialised: %s" % sorted(miss)
    m, b, n, g, d, cd, h, mn = (vals[f] for f in FIELDS)
    ok = abs(m - cd - b - n) < Fraction(1, 10**14) and m + g + d == 1 and n * h * h * EVOLT == mn and d >= 0
    return None if ok else "the defaults are inconsistent: %s" % {k: float(v) for k, v in vals.items()}
