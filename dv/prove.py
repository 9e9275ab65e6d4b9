"""Equality obligations."""
from fractions import Fraction
from .nf import Norm, TooBig, NFError
from . import term as T

FLAGS = ["correlation_contrib.%s" % s for s in
         ("den", "rsd", "len", "d1", "d2", "g1", "g2", "g3", "g4", "g5")] + ["only_cross_correlations"]


def equal(N, code, spec, expand=(), flags=FLAGS, collect=None):
    """[(label, residual polynomial)] for every group of the difference that does not vanish.
    `expand`: list of lists of (atom, polynomial), substituted in sequence"""
    d = N.padd(N.nf(code), N.nf(spec), Fraction(-1))
    d, lab = N.flags_positive(d, flags)
    bad = []
    for g, p in sorted(N.groups(d).items(), key=lambda t: len(t[0])):
        q = p
        if collect is not None:
            collect.append(label(N, g, lab))
        try:
            for stage in expand:
                q = N.clear_inverses(N.subst_atoms(q, dict(stage)))
                if not q:
                    break
            else:
                for stage in expand:        # clearing may have reintroduced defined atoms
                    q = N.clear_inverses(N.subst_atoms(q, dict(stage)))
        except TooBig as e:
            bad.append((label(N, g, lab), p, "too big: %s" % e))
            continue
        if q:
            bad.append((label(N, g, lab), p, "residual of %d monomials" % len(q)))
    return bad


def label(N, g, lab):
    return " & ".join(lab.get(a) or N.show_atom(a) for a, e in g) or "always"


def real_valid(c):
    """None when the condition holds for all real values of its atoms, otherwise a counterexample"""
    return valid(c, False)


def int_valid(c):
    return valid(c, True)


def valid(c, ints):
    import z3
    atoms = {}
    side = []

    def const(t):
        if t not in atoms:
            nm = "a%d" % len(atoms)
            atoms[t] = z3.Int(nm) if t.sort == "I" else z3.Bool(nm) if t.sort == "B" else z3.Real(nm)
        return atoms[t]

    def num_(t):
        v = T.val(t)
        return z3.IntVal(int(v)) if t.sort == "I" else z3.RealVal(str(v))
    memo = {}

    def tr(t):
        if t not in memo:
            memo[t] = go(t)
        return memo[t]

    def same(a, b):
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        if z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        if z3.is_bool(a) and not z3.is_bool(b):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            return same(a, b)
        if z3.is_bool(b) and not z3.is_bool(a):
            return same(b, a)[::-1]
        return a, b

    def go(t):
        op, A = t.op, t.args
        if op == "num":
            return num_(t)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op in ("add", "mul"):
            r = tr(A[0])
            for x in A[1:]:
                a, b = same(r, tr(x))
                r = a + b if op == "add" else a * b
            return r
        if op == "inv":
            q = const(t)
            x = tr(A[0])
            side.append(z3.Implies(x != 0, q * x == 1))
            return q
        if op == "toR":
            x = tr(A[0])
            return z3.ToReal(x) if z3.is_int(x) else x
        if op == "ite":
            a, b = same(tr(A[1]), tr(A[2]))
            return z3.If(truth(tr(A[0])), a, b)
        if op == "not":
            return z3.Not(truth(tr(A[0])))
        if op in ("and", "or"):
            return (z3.And if op == "and" else z3.Or)(*[truth(tr(x)) for x in A])
        if op in ("eq", "lt", "le"):
            a, b = same(tr(A[0]), tr(A[1]))
            return a == b if op == "eq" else a < b if op == "lt" else a <= b
        if op == "nz":
            return truth(tr(A[0]))
        if op == "app" and A[0] == "idiv" and A[2].op == "num":
            x, y = tr(A[1]), tr(A[2])
            return z3.If(x >= 0, x / y, -((-x) / y))
        if op == "app" and A[0] == "imod" and A[2].op == "num":
            x, y = tr(A[1]), tr(A[2])
            return z3.If(x >= 0, x % y, -((-x) % y))
        if op == "app" and A[0] in ("fabs", "iabs"):
            x = tr(A[1])
            return z3.If(x < 0, -x, x)
        if op == "app" and A[0] in ("fmax", "fmin"):
            x, y = same(tr(A[1]), tr(A[2]))
            return z3.If(x < y, y, x) if A[0] == "fmax" else z3.If(x < y, x, y)
        return const(t)

    def truth(x):
        return x if z3.is_bool(x) else x != 0
    s = z3.Solver()
    s.set("timeout", 20000)
    g = truth(tr(c))
    s.add(z3.Not(g), *side)
    r = s.check()
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        return "z3 gives up"
    m = s.model()
    return "fails for " + ", ".join("%s = %s" % (str(t)[:40], m.eval(v)) for t, v in list(atoms.items())[:6])
