"""Normal forms for real/integer terms.

A term is normalised to a polynomial with rational coefficients over *atoms*:
symbols, uninterpreted applications, inverses of non-monomial polynomials and
boolean indicator atoms [p<0], [p==0], [b] (idempotent).  Every rewriting step is
an identity of the ordered field of reals with uninterpreted functions, so equal
normal forms prove equality for every input.
"""
from fractions import Fraction
import itertools
import random
from . import term as T
from .limit import tick


class NFError(Exception):
    pass


class TooBig(NFError):
    pass


ONE = Fraction(1)
ZERO = Fraction(0)


class Norm(object):
    """Normaliser. `defs`: list of (name, term) whose values become opaque atoms;
    `nonneg`: iterable of terms assumed >= 0; `pos`: assumed > 0."""

    LIMIT = 400000

    def __init__(self, defs=(), facts=()):
        self.atoms = []          # id -> key
        self.atom_id = {}
        self.idem = []
        self.apoly = {}
        self.memo = {}
        self.bmemo = {}
        self.defs = {}
        self.facts = list(facts)  # boolean terms known to hold (used by residual check)
        self.lower = {}          # base-poly key -> (bound, strict): base > / >= bound
        self.upper = {}
        for name, t in defs:
            self.define(name, t)
        self._eq0 = {}
        self._ment = {}

    # -- atoms -----------------------------------------------------------------
    def atom(self, key, idem=False, poly=None):
        i = self.atom_id.get(key)
        if i is None:
            i = len(self.atoms)
            self.atom_id[key] = i
            self.atoms.append(key)
            self.idem.append(idem)
            if poly is not None:
                self.apoly[i] = poly
        return i

    def define(self, name, t):
        p = self.nf(t)
        k = self.pkey(p)
        if k not in self.defs and len(p) >= 1:
            # only worthwhile when the definition is not already an atom/number
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return
                if not m:
                    return
            self.defs[k] = {((self.atom(("def", name)), 1),): ONE}
            self.memo.clear()

    def define_as(self, t, repl):
        """from now on the value of `t` is written as `repl` (an equation assumed as a fact)"""
        p = self.nf(t)
        q = self.nf(repl)
        if self.pkey(p) != self.pkey(q):
            if not p:
                raise NFError("cannot redefine 0")
            self.defs[self.pkey(p)] = q
            self.memo.clear()
            self.bmemo.clear()

    def opaque(self, t, name, sort="R"):
        """make t an opaque atom; returns (atom id, its polynomial)"""
        p = self.nf(t)
        a = self.atom(("sym", name))
        self.defs[self.pkey(p)] = {((a, 1),): ONE}
        self.memo.clear()
        self.bmemo.clear()
        return a, p

    def bound_below(self, t, lo=0, strict=True):
        p = self.nf(t)
        lead, _, prim = self.content_sign(p)
        base = dict(prim)
        c0 = base.pop((), ZERO)
        # lead*(base+c0) > lo
        v = Fraction(lo) / lead - c0
        (self.lower if lead > 0 else self.upper)[self.pkey(base)] = (v, strict)
        self.memo.clear()
        self.bmemo.clear()

    def subst_atoms(self, d, m, limit=200000):
        """replace atoms by polynomials in d (keys of opaque applications are left alone);
        negative powers are inverted"""
        cache = {}
        r = {}
        for mono, c in d.items():
            rest = []
            fs = []
            for a, e in mono:
                if a in m:
                    fs.append((a, e))
                else:
                    rest.append((a, e))
            p = {tuple(rest): c}
            for a, e in fs:
                q = cache.get((a, e))
                if q is None:
                    q = cache[(a, e)] = self.ppow(m[a], e)
                p = self.pmul(p, q)
            r = self.padd(r, p)
            if len(r) > limit:
                raise TooBig("substitution")
        return r

    @staticmethod
    def pkey(p):
        return frozenset(p.items())

    # -- polynomial arithmetic ---------------------------------------------------
    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def padd(self, a, b, cb=ONE):
        tick()
        if not a and cb == 1:
            return b
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, ZERO) + cb * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pscale(self, a, c):
        if not c:
            return {}
        if c == 1:
            return a
        return {m: c * v for m, v in a.items()}

    def mmul(self, m1, m2):
        """product of monomials -> (mono, extra polynomial list) or None for zero"""
        if not m1:
            return m2, None
        if not m2:
            return m1, None
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        extra = None
        out = []
        for a, e in d.items():
            if e == 0:
                continue
            if self.idem[a]:
                out.append((a, 1))
                continue
            key = self.atoms[a]
            if key[0] == "sqrt" and (e >= 2 or e <= -2):
                h = int(e / 2)
                q = self.ppow(self.apoly[a], h)
                extra = q if extra is None else self.pmul(extra, q)
                e -= 2 * h
                if e == 0:
                    continue
            if key[0] == "inv" and e < 0:
                q = self.ppow(self.apoly[a], -e)
                extra = q if extra is None else self.pmul(extra, q)
                continue
            out.append((a, e))
        out.sort()
        # contradictions between sign atoms
        neg = set()
        zer = {}
        for a, e in out:
            k = self.atoms[a]
            if k[0] == "neg":
                neg.add(k[1])
            elif k[0] == "zero":
                if k[1] in neg:
                    return None, None
                base, c = k[2], k[3]
                if base in zer and zer[base] != c:
                    return None, None
                zer[base] = c
        if zer:
            # [v == c] v^e = c^e [v == c]
            sub = {}
            for base, c in zer.items():
                if len(base) == 1:
                    (m, co), = base
                    if len(m) == 1 and m[0][1] == 1 and not self.idem[m[0][0]]:
                        sub[m[0][0]] = -c / co
            if sub and any(a in sub and (e > 0 or sub[a]) and e == int(e) for a, e in out):
                keep = []
                for a, e in out:
                    if a in sub and (e > 0 or sub[a]) and e == int(e):
                        if not sub[a]:
                            return None, None
                        q = self.const(sub[a] ** int(e))
                        extra = q if extra is None else self.pmul(extra, q)
                    else:
                        keep.append((a, e))
                out = keep
        for a, e in out:
            k = self.atoms[a]
            if k[0] == "neg" and any(self.atoms[b][0] == "zero" and self.atoms[b][1] == k[1] for b, _ in out):
                return None, None
        return tuple(out), extra

    def pmul(self, a, b):
        tick()
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > self.LIMIT * 4:
            raise TooBig("product of %d x %d monomials" % (len(a), len(b)))
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, extra = self.mmul(m1, m2)
                if m is None:
                    continue
                if extra is None:
                    v = r.get(m, ZERO) + c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
                else:
                    for m3, c3 in self.pmul({m: c1 * c2}, extra).items():
                        v = r.get(m3, ZERO) + c3
                        if v:
                            r[m3] = v
                        else:
                            r.pop(m3, None)
        if len(r) > self.LIMIT:
            raise TooBig("%d monomials" % len(r))
        return r

    def ppow(self, p, n):
        if n < 0:
            return self.ppow(self.pinv(p), -n)
        r = {(): ONE}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def indicators(self, p):
        s = set()
        for m in p:
            for a, e in m:
                if self.idem[a]:
                    s.add(a)
        return s

    def subst_ind(self, p, a, v):
        """set indicator atom a to v (0/1), and drop contradictory monomials"""
        r = {}
        for m, c in p.items():
            has = False
            for x, e in m:
                if x == a:
                    has = True
            if has:
                if not v:
                    continue
                m2 = tuple(t for t in m if t[0] != a)
            else:
                m2 = m
            w = r.get(m2, ZERO) + c
            if w:
                r[m2] = w
            else:
                r.pop(m2, None)
        return r

    def shannon(self, p, f):
        tick()
        """apply f (on indicator-free polynomials) by case split on indicators"""
        inds = self.indicators(p)
        if not inds:
            return f(p)
        a = min(inds)
        A = {((a, 1),): ONE}
        hi = self.shannon(self.subst_ind(p, a, 1), f)
        lo = self.shannon(self.subst_ind(p, a, 0), f)
        nA = self.padd({(): ONE}, A, -ONE)
        return self.padd(self.pmul(A, hi), self.pmul(nA, lo))

    def shannon_many(self, ps, f, bound=()):
        """as shannon; indicators that mention a variable bound by the application stay inside"""
        inds = set()
        for p in ps:
            inds |= self.indicators(p)
        if bound:
            inds = set(a for a in inds if not self.atom_mentions(a, bound))
        if not inds:
            return f(ps)
        a = min(inds)
        A = {((a, 1),): ONE}
        hi = self.shannon_many([self.subst_ind(p, a, 1) for p in ps], f, bound)
        lo = self.shannon_many([self.subst_ind(p, a, 0) for p in ps], f, bound)
        if isinstance(hi, tuple):  # not expected
            raise NFError("bad shannon")
        if self.pkey(hi) == self.pkey(lo):
            return hi
        nA = self.padd({(): ONE}, A, -ONE)
        return self.padd(self.pmul(A, hi), self.pmul(nA, lo))

    def content(self, p):
        """p = c * mono * prim with prim canonical; p indicator-free and nonzero"""
        # monomial gcd over all atoms
        g = None
        for m in p:
            d = dict(m)
            if g is None:
                g = d
            else:
                g2 = {}
                for a in set(g) | set(d):
                    e = min(g.get(a, 0), d.get(a, 0))
                    if e:
                        g2[a] = e
                g = g2
        gm = tuple(sorted(g.items()))
        ginv = tuple((a, -e) for a, e in gm)
        # rational content with a canonical sign
        items = []
        for m, c in p.items():
            d = dict(m)
            for a, e in ginv:
                d[a] = d.get(a, 0) + e
            items.append((tuple(sorted((a, e) for a, e in d.items() if e)), c))
        items.sort(key=lambda t: t[0])
        lead = items[0][1]
        prim = {m: c / lead for m, c in items}
        return lead, gm, prim

    def pinv(self, p):
        tick()
        if not p:
            return {((self.atom(("inv0",)), 1),): ONE}

        def f(q):
            if not q:
                return {((self.atom(("inv0",)), 1),): ONE}
            c, gm, prim = self.content(q)
            r = {(): 1 / c}
            for a, e in gm:
                k = self.atoms[a]
                if k[0] == "inv":
                    r = self.pmul(r, self.ppow(self.apoly[a], e))
                else:
                    r = self.pmul(r, {((a, -e),): ONE})
            if len(prim) == 1:
                return r
            ka = self.atom(("inv", self.pkey(prim)), poly=prim)
            return self.pmul(r, {((ka, 1),): ONE})

        return self.shannon(p, f)

    # -- booleans -> indicator polynomials --------------------------------------
    def ind(self, key, poly=None):
        a = self.atom(key, True, poly)
        return {((a, 1),): ONE}

    def sign_atoms(self, p):
        """p indicator-free -> (poly for [p<0], poly for [p==0])"""
        if not p:
            return {}, {(): ONE}
        if len(p) == 1 and () in p:
            return ({(): ONE} if p[()] < 0 else {}), {}
        lead, gm, prim = self.content_sign(p)
        # p = lead * prim
        k = self.pkey(prim)
        base = dict(prim)
        c0 = base.pop((), ZERO)
        bk = self.pkey(base)
        lo, up = self.lower.get(bk), self.upper.get(bk)
        sgn = None           # sign of prim = base + c0
        maybe0 = True
        if lo is not None:
            v = lo[0] + c0
            if v > 0 or (v == 0 and lo[1]):
                sgn = 1
            elif v == 0:
                sgn, maybe0 = 1, None
        if up is not None and sgn is None:
            v = up[0] + c0
            if v < 0 or (v == 0 and up[1]):
                sgn = -1
            elif v == 0:
                sgn, maybe0 = -1, None
        if sgn is not None:
            s_ = sgn if lead > 0 else -sgn
            if maybe0:
                return ({(): ONE} if s_ < 0 else {}), {}
            z = self.ind(("zero", k, bk, c0), prim)
            if s_ > 0:
                return {}, z
            return self.padd({(): ONE}, z, -ONE), z
        z = self.ind(("zero", k, bk, c0), prim)
        n = self.ind(("neg", k, bk, c0), prim)
        if lead > 0:
            return n, z
        pos = self.padd(self.padd({(): ONE}, n, -ONE), z, -ONE)
        return pos, z

    def content_sign(self, p):
        items = sorted(((m, c) for m, c in p.items()), key=lambda t: (t[0] == (), t[0]))
        lead = items[0][1]
        return lead, (), {m: c / lead for m, c in items}

    def nfb(self, t):
        r = self.bmemo.get(t)
        if r is None:
            r = self._nfb(t)
            self.bmemo[t] = r
        return r

    def _nfb(self, t):
        tick()
        op = t.op
        if op == "true":
            return {(): ONE}
        if op == "false":
            return {}
        if op == "not":
            return self.padd({(): ONE}, self.nfb(t.args[0]), -ONE)
        if op == "and":
            r = {(): ONE}
            for a in t.args:
                r = self.pmul(r, self.nfb(a))
                if not r:
                    break
            return r
        if op == "ite":
            c = self.nfb(t.args[0])
            a = self.nfb(T.toB(t.args[1]))
            b = self.nfb(T.toB(t.args[2]))
            return self.padd(self.pmul(c, self.padd(a, b, -ONE)), b)
        if op == "lt":
            p = self.padd(self.nf(t.args[0]), self.nf(t.args[1]), -ONE)
            return self.shannon(p, lambda q: self.sign_atoms(q)[0])
        if op == "eq":
            if t.args[0].sort in ("R", "I"):
                p = self.padd(self.nf(t.args[0]), self.nf(t.args[1]), -ONE)
                return self.shannon(p, lambda q: self.sign_atoms(q)[1])
            a, b = self.key(t.args[0]), self.key(t.args[1])
            if a == b:
                return {(): ONE}
            return self.ind(("peq", frozenset([a, b])))
        if op == "app":
            return self._app(t, True)
        if op == "sym":
            return self.ind(("bsym", t.args[0]))
        if op == "load":
            return self.ind(("bload", self.key(t.args[0])))
        raise NFError("boolean op %s" % op)

    # -- terms -------------------------------------------------------------------
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            if self.defs and len(r) >= 1:
                a = self.defs.get(self.pkey(r))
                if a is not None:
                    r = a
            self.memo[t] = r
        return r

    def inverse(self, t):
        if t.op == "powi":
            return self.ppow(self.nf(t.args[0]), -t.args[1])
        if t.op == "mul":
            return self.pmul(self.inverse(t.args[0]), self.inverse(t.args[1]))
        return self.pinv(self.nf(t))

    def _nf(self, t):
        tick()
        op = t.op
        if t.sort == "B":
            return self.nfb(t)
        if op == "num":
            return self.const(t.args[0])
        if op == "add":
            # iterative flatten to avoid deep recursion
            r = {}
            stack = [t]
            while stack:
                u = stack.pop()
                if u.op == "add" and u not in self.memo and (u is t or not self.defs):
                    stack.extend(u.args)
                else:
                    r = self.padd(r, self.nf(u))
            return r
        if op == "mul":
            return self.pmul(self.nf(t.args[0]), self.nf(t.args[1]))
        if op == "powi":
            return self.ppow(self.nf(t.args[0]), t.args[1])
        if op == "inv":
            return self.inverse(t.args[0])
        if op == "toR":
            return self.nf(t.args[0])
        if op == "ite":
            c = self.nfb(t.args[0])
            a = self.nf(t.args[1])
            b = self.nf(t.args[2])
            return self.padd(self.pmul(c, self.padd(a, b, -ONE)), b)
        if op == "sym":
            return {((self.atom(("sym", t.args[0])), 1),): ONE}
        if op == "load":
            return {((self.atom(("load", self.key(t.args[0]))), 1),): ONE}
        if op == "app":
            return self._app(t, False)
        if op in ("sum", "select", "lam"):
            return {((self.atom((op,) + tuple(self.key(x) for x in t.args)), 1),): ONE}
        raise NFError("op %s in arithmetic" % op)

    def mentions_sym(self, key, names, memo=None):
        """does an atom key (or polynomial key) mention one of the named symbols"""
        if isinstance(key, tuple):
            if len(key) == 2 and key[0] == "sym":
                return key[1] in names
            if key and key[0] == "n" and len(key) == 2:
                return self.poly_mentions(dict(key[1]), names)
            if key and key[0] in ("inv", "sqrt", "neg", "zero") and len(key) == 2 and isinstance(key[1], (tuple, frozenset)):
                try:
                    return self.poly_mentions(dict(key[1]), names)
                except (TypeError, ValueError):
                    pass
            return any(self.mentions_sym(k, names) for k in key)
        if isinstance(key, frozenset):
            return any(self.mentions_sym(k, names) for k in key)
        return False

    def atom_mentions(self, a, names):
        k = (a, names)
        r = self._ment.get(k)
        if r is None:
            key = self.atoms[a]
            r = self.mentions_sym(key, names)
            if not r and a in self.apoly and self.apoly[a] is not None:
                r = self.poly_mentions(self.apoly[a], names)
            self._ment[k] = r
        return r

    def poly_mentions(self, p, names):
        return any(self.atom_mentions(a, names) for m in p for a, e in m)

    def integral(self, kind, names, body):
        """a linear functional of the bound symbols `names` applied to a polynomial"""
        names = tuple(names)
        inner = {}
        for m, c in body.items():
            ins = tuple(x for x in m if self.atom_mentions(x[0], names))
            out = tuple(x for x in m if not self.atom_mentions(x[0], names))
            inner.setdefault(ins, {})[out] = c
        r = {}
        for ins, coef in inner.items():
            a = self.atom(("lin", kind, names, self.pkey({ins: ONE})))
            r = self.padd(r, self.pmul(coef, {((a, 1),): ONE}))
        return r

    def _app(self, t, boolean):
        f = t.args[0]
        if f == "quad":
            return self.integral(t.args[1], t.args[2], self.nf(t.args[3]))
        if f == "sumf":
            nm, lo, hi, body = t.args[1:]
            p = self.nf(body)
            if not self.poly_mentions(p, (nm,)):
                return self.pmul(p, self.padd(self.nf(hi), self.nf(lo), -ONE))
            return self.integral(("sum", self.pkey(self.nf(lo)), self.pkey(self.nf(hi))), (nm,), p)
        argts = t.args[1:]
        nums = [self.nf(x) if isinstance(x, T.Term) and x.sort in ("R", "I") else None for x in argts]
        keys = [None if n is not None else (self.key(x) if isinstance(x, T.Term) else x)
                for x, n in zip(argts, nums)]

        def build(ps):
            it = iter(ps)
            ks = []
            for n, k in zip(nums, keys):
                ks.append(("n", self.pkey(next(it))) if n is not None else k)
            if f == "sqrt":
                p = ps[0]
                if not p:
                    return {}
                if len(p) == 1 and () in p:
                    c = p[()]
                    import math
                    if c > 0:
                        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                        if a * a == c.numerator and b * b == c.denominator:
                            return self.const(Fraction(a, b))
                return {((self.atom(("sqrt", self.pkey(p)), poly=p), 1),): ONE}
            if f == "pow" and len(ps) == 2 and not boolean:
                r = self.power(ps[0], ps[1])
                if r is not None:
                    return r
            if f == "fabs" and len(ps[0]) <= 1:
                p = ps[0]
                if not p:
                    return {}
                (m, c), = p.items()
                if not m:
                    return self.const(abs(c))
            if f == "legendre" and not boolean:
                l = ps[0]
                if len(l) == 1 and () in l or not l:
                    n = int(l.get((), ZERO))
                    if 0 <= n <= 8:
                        return self.legendre(n, ps[1])
            if f == "fact" and (not ps[0] or (len(ps[0]) == 1 and () in ps[0])):
                import math
                return self.const(math.factorial(int(ps[0].get((), ZERO))))
            if f == "choose" and len(ps) == 2 and all(not q or (len(q) == 1 and () in q) for q in ps):
                import math
                a, b = [int(q.get((), ZERO)) for q in ps]
                if 0 <= b <= a:
                    return self.const(math.comb(a, b))
            key = ("app", f) + tuple(ks)
            if boolean:
                return self.ind(key)
            return {((self.atom(key), 1),): ONE}

        ps = [n for n in nums if n is not None]
        bound = tuple(y for x in argts for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, str) and y.startswith("b#"))
        return self.shannon_many(ps, build, bound)

    def power(self, x, e):
        """x^e as x^c sqrt(x)^h pow(x, e0)^(+-1): c integer, h 0 or 1, e0 without a constant part and of canonical sign
        (laws of powers of a positive x); None when it is already in that form"""
        if not x:
            return None
        c = e.get((), ZERO)
        h = c - (c.numerator // c.denominator)
        i = int(c - h)
        if h and h != Fraction(1, 2):
            h = i = 0
            if len(e) == 1:
                return None
            e0 = dict(e)
        else:
            e0 = dict((m, q) for m, q in e.items() if m)
        if abs(i) > 64:
            return None
        flip = bool(e0) and e0[min(e0, key=lambda m: (len(m) == 0, m))] < 0
        if not i and not h and not flip:
            return None if e0 else self.const(1)
        r = self.const(1)
        if e0:
            if flip:
                e0 = self.pscale(e0, -ONE)
            key = ("app", "pow", ("n", self.pkey(x)), ("n", self.pkey(e0)))
            r = {((self.atom(key), -1 if flip else 1),): ONE}
        if h:
            if len(x) == 1 and () in x:
                import math
                a, b = x[()].numerator, x[()].denominator
                if x[()] > 0 and math.isqrt(a) ** 2 == a and math.isqrt(b) ** 2 == b:
                    r = self.pscale(r, Fraction(math.isqrt(a), math.isqrt(b)))
                else:
                    r = self.pmul(r, {((self.atom(("sqrt", self.pkey(x)), poly=x), 1),): ONE})
            else:
                r = self.pmul(r, {((self.atom(("sqrt", self.pkey(x)), poly=x), 1),): ONE})
        if h and i < 0:
            i += 1
            r = self.pmul(r, {((self.atom(("sqrt", self.pkey(x)), poly=x), -2),): ONE})
        if i:
            r = self.pmul(r, self.ppow(x, i))
        return r

    def legendre(self, n, p):
        a, b = {(): ONE}, p
        if n == 0:
            return a
        for k in range(1, n):
            c = self.padd(self.pscale(self.pmul(p, b), Fraction(2 * k + 1, k + 1)), a, -Fraction(k, k + 1))
            a, b = b, c
        return b

    def key(self, t):
        """canonical hashable for non-arithmetic terms (pointers, locations) and arithmetic ones"""
        if not isinstance(t, T.Term):
            return t
        if t.sort in ("R", "I", "B"):
            return ("n", self.pkey(self.nf(t)))
        return (t.op,) + tuple(self.key(a) for a in t.args)

    # -- decision -----------------------------------------------------------------
    def diff(self, a, b):
        return self.padd(self.nf(a), self.nf(b), -ONE)

    def clear_inverses(self, d, limit=60000):
        """multiply out inv atoms; d==0 iff result==0 (where all denominators are nonzero)"""
        guard = 0
        while True:
            inv = {}
            for m in d:
                for a, e in m:
                    if self.atoms[a][0] == "inv":
                        inv[a] = max(inv.get(a, 0), e)
            if not inv:
                break
            guard += 1
            if guard > 60:
                raise TooBig("inverse clearing")
            # highest atom id first: inner inverses are created earlier
            a = max(inv)
            n = inv[a]
            P = self.apoly[a]
            pw = [{(): ONE}]
            for _ in range(n):
                pw.append(self.pmul(pw[-1], P))
            r = {}
            for m, c in d.items():
                e = 0
                rest = []
                for x, k in m:
                    if x == a:
                        e = k
                    else:
                        rest.append((x, k))
                r = self.padd(r, self.pmul({tuple(rest): c}, pw[n - e]))
                if len(r) > limit:
                    raise TooBig("inverse clearing %d" % len(r))
            d = r
        return d

    def flags_positive(self, d, names):
        """rewrite indicators [load == 0] of the named flags as 1 - flag; returns d and
        {atom: name}"""
        m = {}
        lab = {}
        for mono in d:
            for a, e in mono:
                k = self.atoms[a]
                if k[0] == "zero" and a not in m:
                    nm = self.show_poly(dict(k[1]), 2)
                    for n in names:
                        if nm.endswith(n):
                            f = self.atom(("flag", n), True)
                            lab[f] = n.split(".")[-1]
                            m[a] = {(): ONE, ((f, 1),): -ONE}
        return self.subst_atoms(d, m) if m else d, lab

    def groups(self, d):
        g = {}
        for m, c in d.items():
            k = tuple(x for x in m if self.idem[x[0]])
            g.setdefault(k, {})[m] = c
        return g

    def show_poly(self, p, limit=6):
        out = []
        for m, c in list(sorted(p.items()))[:limit]:
            out.append("%s*%s" % (c, "*".join("%s^%d" % (self.show_atom(a), e) if e != 1 else self.show_atom(a)
                                               for a, e in m)))
        if len(p) > limit:
            out.append("... (%d monomials)" % len(p))
        return " + ".join(out) if out else "0"

    def show_atom(self, a):
        return self.show_key(self.atoms[a])

    def show_key(self, k, depth=6):
        if depth == 0:
            return ".."
        if isinstance(k, tuple):
            if k and k[0] == "n":
                return self.show_poly(dict(k[1]), 4)
            if k and k[0] in ("sym", "bsym"):
                return str(k[1])
            if k and k[0] == "def":
                return str(k[1])
            if k and k[0] in ("inv", "sqrt"):
                return "%s(%s)" % (k[0], self.show_poly(dict(k[1]), 4))
            if k and k[0] in ("neg", "zero"):
                return "[%s%s]" % (self.show_poly(dict(k[1]), 4), "<0" if k[0] == "neg" else "==0")
            if k and k[0] in ("load", "bload"):
                return self.show_key(k[1], depth)
            if k and k[0] == "fld":
                return "%s.%s" % (self.show_key(k[1], depth), k[2])
            if k and k[0] == "idx":
                i = self.show_key(k[2], depth)
                b = self.show_key(k[1], depth)
                return b if i == "0" else "%s[%s]" % (b, i)
            if k and k[0] in ("obj", "var"):
                return self.show_key(k[1], depth)
            if k and k[0] == "addr":
                return "&" + self.show_key(k[1], depth)
            if k and k[0] == "app":
                return "%s(%s)" % (k[1], ", ".join(self.show_key(x, depth - 1) for x in k[2:]))
            return "(%s)" % " ".join(self.show_key(x, depth - 1) for x in k)
        return str(k)
