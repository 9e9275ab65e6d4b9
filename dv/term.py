"""Hash-consed terms: the language of verification conditions.

Sorts: 'R' mathematical real, 'I' mathematical integer, 'B' boolean, 'P' pointer,
'L' memory location, 'S' struct/opaque value.
"""
from fractions import Fraction


class Term:
    __slots__ = ("op", "args", "sort", "id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # identity equality (hash-consing makes it structural)
    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_table = {}
_count = [0]


def mk(op, args, sort):
    args = tuple(args)
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        _count[0] += 1
        t.id = _count[0]
        t._h = hash(key)
        _table[key] = t
    return t


def num(x, sort="R"):
    return mk("num", (Fraction(x),), sort)


def sym(name, sort="R"):
    return mk("sym", (name,), sort)


PI = sym("pi", "R")
IMAG = sym("iunit", "R")     # the imaginary unit: complex numbers are elements of the same commutative field
TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
NULL = mk("null", (), "P")


def isnum(t):
    return t.op == "num"


def val(t):
    return t.args[0]


def toR(t):
    if t.sort == "R":
        return t
    if t.op == "num":
        return num(val(t), "R")
    if t.sort == "B":
        return ite(t, num(1), num(0))
    if t.sort == "I":
        return mk("toR", (t,), "R")
    raise TypeError("toR of %s sort %s" % (t, t.sort))


def toI(t):
    if t.sort == "I":
        return t
    if t.sort == "B":
        return ite(t, num(1, "I"), num(0, "I"))
    if t.sort == "R":
        if t.op == "num":
            f = val(t)
            n = abs(f.numerator) // f.denominator
            return num(n if f >= 0 else -n, "I")
        if t.op == "toR":
            return t.args[0]
        return mk("app", ("trunc", t), "I")
    raise TypeError("toI of %s sort %s" % (t, t.sort))


def toB(t):
    if t.sort == "B":
        return t
    if t.sort == "P":
        return bnot(eq(t, NULL))
    if t.op == "num":
        return TRUE if val(t) != 0 else FALSE
    if t.op == "ite":
        return ite(t.args[0], toB(t.args[1]), toB(t.args[2]))
    return bnot(eq(t, num(0, t.sort)))


def _join(a, b):
    if a.sort == b.sort:
        return a, b
    if a.sort == "B":
        a = toI(a)
    if b.sort == "B":
        b = toI(b)
    if a.sort == b.sort:
        return a, b
    if "R" in (a.sort, b.sort) and set((a.sort, b.sort)) <= {"R", "I"}:
        return toR(a), toR(b)
    return a, b


def add(*ts):
    if not ts:
        return num(0)
    r = ts[0]
    for t in ts[1:]:
        a, b = _join(r, t)
        if a.op == "num" and b.op == "num":
            r = num(val(a) + val(b), a.sort)
        elif a.op == "num" and val(a) == 0:
            r = b
        elif b.op == "num" and val(b) == 0:
            r = a
        else:
            r = mk("add", (a, b), a.sort)
    if r.sort == "B":
        r = toI(r)
    return r


def mul(*ts):
    if not ts:
        return num(1)
    r = ts[0]
    for t in ts[1:]:
        a, b = _join(r, t)
        if a.sort == "B":
            a, b = toI(a), toI(b)
        if a.op == "num" and b.op == "num":
            r = num(val(a) * val(b), a.sort)
        elif (a.op == "num" and val(a) == 0) or (b.op == "num" and val(b) == 0):
            r = num(0, a.sort)
        elif a.op == "num" and val(a) == 1:
            r = b
        elif b.op == "num" and val(b) == 1:
            r = a
        else:
            r = mk("mul", (a, b), a.sort)
    return r


def neg(a):
    if a.sort == "B":
        a = toI(a)
    return mul(num(-1, a.sort), a)


def sub(a, b):
    a, b = _join(a, b)
    return add(a, neg(b))


def div(a, b):
    """real division"""
    a, b = toR(a), toR(b)
    if b.op == "num" and val(b) != 0:
        return mul(num(1 / val(b)), a)
    return mul(a, mk("inv", (b,), "R"))


def idiv(a, b):
    a, b = toI(a), toI(b)
    if a.op == "num" and b.op == "num" and val(b) != 0:
        q = abs(val(a)) // abs(val(b))
        if (val(a) < 0) != (val(b) < 0):
            q = -q
        return num(q, "I")
    if b.op == "num" and val(b) == 1:
        return a
    return mk("app", ("idiv", a, b), "I")


def imod(a, b):
    a, b = toI(a), toI(b)
    if a.op == "num" and b.op == "num" and val(b) != 0:
        q = abs(val(a)) // abs(val(b))
        if (val(a) < 0) != (val(b) < 0):
            q = -q
        return num(val(a) - q * val(b), "I")
    return mk("app", ("imod", a, b), "I")


def powi(a, n):
    """integer power"""
    a = toR(a) if a.sort != "R" else a
    if n == 0:
        return num(1)
    if a.op == "num" and (val(a) != 0 or n > 0):
        return num(val(a) ** n)
    if n == 1:
        return a
    return mk("powi", (a, n), "R")


def cpow(a, b):
    """C pow()"""
    a, b = toR(a), toR(b)
    if b.op == "num" and val(b).denominator == 1 and abs(val(b)) <= 64:
        return powi(a, int(val(b)))
    if b.op == "num" and val(b).denominator == 2:
        k = (val(b) - Fraction(1, 2))
        if k < 0:
            return div(powi(a, int(k) + 1), app("sqrt", (a,), "R"))
        return mul(powi(a, int(k)), app("sqrt", (a,), "R"))
    return app("pow", (a, b), "R")


def app(f, args, sort):
    return mk("app", (f,) + tuple(args), sort)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    a, b = _join(a, b)
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        if b is FALSE:
            return band(c, a)
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
    if c.op == "not":
        return mk("ite", (c.args[0], b, a), a.sort)
    return mk("ite", (c, a, b), a.sort)


def bnot(c):
    c = toB(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", (c,), "B")


def band(*cs):
    out = []
    for c in cs:
        c = toB(c)
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        if c.op == "and":
            for d in c.args:
                if d not in out:
                    out.append(d)
        else:
            out.append(c)
    for c in out:
        if bnot(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def bor(*cs):
    return bnot(band(*[bnot(c) for c in cs]))


def implies(a, b):
    return bor(bnot(a), b)


def eq(a, b):
    a, b = _join(a, b)
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return TRUE if val(a) == val(b) else FALSE
    if a.op == "strlit" and b.op == "strlit":
        return FALSE
    if a.sort == "P":
        if a.op == "addr" and b.op == "null" or b.op == "addr" and a.op == "null":
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == "null" and y.op == "app" and y.args[0] == "new":
                return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op in ("num", "null"):
            if x.args[1].op in ("num", "null", "addr") or x.args[2].op in ("num", "null", "addr"):
                return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def lt(a, b):
    a, b = _join(a, b)
    if a.sort == "B":
        a, b = toI(a), toI(b)
    if a is b:
        return FALSE
    if a.op == "num" and b.op == "num":
        return TRUE if val(a) < val(b) else FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    return bnot(lt(b, a))


# ---- locations and pointers -------------------------------------------------

def var(name):
    return mk("var", (name,), "L")


def fld(loc, name):
    return mk("fld", (loc, name), "L")


def idx(loc, i):
    return mk("idx", (loc, i), "L")


def obj(p):
    """the array object a pointer value designates element 0 of"""
    return mk("obj", (p,), "L")


def addr(loc):
    # &obj(p)[0] is p itself
    if loc.op == "idx" and loc.args[0].op == "obj" and loc.args[1].op == "num" and val(loc.args[1]) == 0:
        return loc.args[0].args[0]
    return mk("addr", (loc,), "P")


def pointee(p):
    if p.op == "addr":
        return p.args[0]
    return idx(obj(p), num(0, "I"))


def ptradd(p, i, normi):
    l = pointee(p)
    if l.op == "idx":
        return addr(idx(l.args[0], normi(add(l.args[1], i))))
    if i.op == "num" and val(i) == 0:
        return p
    # pointer to a lone object: treat it as element 0 of itself
    return addr(idx(l, normi(i)))


_budget = [0]


def show(t, depth=12):
    if depth == 12:
        _budget[0] = 400
    _budget[0] -= 1
    if depth <= 0 or _budget[0] < 0:
        return "..."
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1) if isinstance(x, Term) else str(x)
    if op == "num":
        return str(a[0]) if a[0].denominator == 1 else "(%s)" % a[0]
    if op in ("sym", "var"):
        return str(a[0])
    if op == "add":
        return "(%s + %s)" % (s(a[0]), s(a[1]))
    if op == "mul":
        return "%s*%s" % (s(a[0]), s(a[1]))
    if op == "inv":
        return "1/(%s)" % s(a[0])
    if op == "powi":
        return "(%s)^%d" % (s(a[0]), a[1])
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "toR":
        return s(a[0])
    if op == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "idx":
        if a[1].op == "num" and val(a[1]) == 0 and a[0].op == "obj":
            return "(*%s)" % s(a[0].args[0])
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "obj":
        return s(a[0])
    if op == "addr":
        return "&" + s(a[0])
    if op == "load":
        return s(a[0])
    if op in ("true", "false", "null"):
        return op
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))
