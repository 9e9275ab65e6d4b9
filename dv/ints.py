"""Integer reasoning about indices: ranges of loop variables, mixed-radix decoding."""
from .term import *
from . import term as T
from .limit import tick
from .nf import NFError


def _subst(t, m):
    from .sym import subst
    return subst(t, m)


_hasdiv = {}


def hasdiv(t):
    r = _hasdiv.get(t)
    if r is None:
        r = (t.op == "app" and t.args[0] in ("idiv", "imod")) or any(hasdiv(a) for a in t.args if isinstance(a, Term))
        _hasdiv[t] = r
    return r


def subterm_of(v, t):
    return t is v or any(subterm_of(v, x) for x in t.args if isinstance(x, Term))


class Ints(object):
    def ints_init(self):
        self._ge0memo = {}
        self.bounds = {}          # loop variable -> (lo, hi): lo <= v < hi
        self.hyps = []            # (a, b): a < b
        self.bfacts = set()       # boolean facts
        self._reg = {}            # atom id -> term
        self._regseen = set()
        self._nonneg = set()      # atom ids known >= 0
        self._deep = 0

    # -- polynomials ------------------------------------------------------------
    def reg(self, t):
        stack = [t]
        while stack:
            u = stack.pop()
            if u in self._regseen:
                continue
            self._regseen.add(u)
            if u.op in ("sym", "load", "app") and u.sort in ("I", "R"):
                p = self.N.nf(u)
                if len(p) == 1:
                    (m, c), = p.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1:
                        self._reg.setdefault(m[0][0], u)
            elif u.op in ("lt", "eq", "load", "sym", "app") and u.sort == "B":
                p = self.N.nfb(u)
                if len(p) == 1:
                    (m, c), = p.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1:
                        self._reg.setdefault(m[0][0], u)
            for a in u.args:
                if isinstance(a, Term):
                    stack.append(a)

    def nfi(self, t):
        self.reg(t)
        return self.N.nf(t)

    def poly2term(self, p, sort="I"):
        out = num(0, sort)
        for m, c in sorted(p.items(), key=lambda x: x[0]):
            f = num(c, sort)
            for a, e in m:
                u = self._reg.get(a)
                if u is None or (sort == "I" and e < 0):
                    raise NFError("cannot rebuild a term")
                if u.sort == "B":
                    u = ite(u, num(1, sort), num(0, sort))
                if sort == "R":
                    f = mul(f, powi(toR(u), e))
                else:
                    if u.sort == "R":
                        raise NFError("real atom in an index")
                    for _ in range(e):
                        f = mul(f, u)
            out = add(out, f)
        return out

    def norm_term(self, t):
        try:
            return self.poly2term(self.nfi(t), t.sort)
        except NFError:
            return t

    def atom_nonneg(self, a):
        if a in self._nonneg or self.N.idem[a]:
            return True
        u = self._reg.get(a)
        if u is None:
            return False
        if u in self.unsigned_terms:
            self._nonneg.add(a)
            return True
        if u in self.bounds:
            lo = self.bounds[u][0]
            return lo is not u and self.ge0(lo)
        if u.op == "app" and u.args[0] in ("idiv", "imod"):
            return self.ge0(u.args[1]) and self.ge0(u.args[2])
        if u.op == "app" and u.args[0] == "trunc":
            return False
        return False

    def poly_sign(self, p):
        """+1: certainly >= 0, -1: certainly <= 0, 0 unknown"""
        if not p:
            return 1
        pos = all(c > 0 for c in p.values())
        neg_ = all(c < 0 for c in p.values())
        if not (pos or neg_):
            return 0
        for m in p:
            for a, e in m:
                if e % 2 and not self.atom_nonneg(a):
                    return 0
        return 1 if pos else -1

    def split(self, p, a):
        """p = A*a + B with A, B free of a; None when not linear"""
        A, B = {}, {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            if e == 0:
                B[m] = c
            elif e == 1:
                A[tuple(x for x in m if x[0] != a)] = c
            else:
                return None
        return A, B

    def mentions_atom(self, p, a):
        return any(x == a for m in p for x, e in m)

    def eliminate(self, p):
        N = self.N
        for v in reversed(list(self.bounds)):
            a = N.atom(("sym", v.args[0]))
            if not self.mentions_atom(p, a):
                continue
            self._reg.setdefault(a, v)
            s = self.split(p, a)
            if s is None:
                continue
            A, B = s
            sg = self.poly_sign(A)
            lo, hi = self.bounds[v]
            if sg > 0:
                q = self.nfi(lo)
            elif sg < 0:
                q = N.padd(self.nfi(hi), N.const(1), -1)
            else:
                continue
            p = N.padd(N.pmul(A, q), B)
        return p

    def known(self):
        out = [self.N.padd(self.N.padd(self.nfi(b), self.nfi(a), -1), self.N.const(1), -1) for a, b in self.hyps]
        for v, (lo, hi) in self.bounds.items():
            out.append(self.N.padd(self.N.padd(self.nfi(hi), self.nfi(lo), -1), self.N.const(1), -1))
        return out

    def ge0p(self, p, depth=2, hs=None, seen=None):
        tick()
        if not p:
            return True
        q = self.eliminate(p)
        if self.poly_sign(q) > 0:
            return True
        if depth > 0:
            if hs is None:
                hs = [h for h in self.known() if self.poly_sign(h) <= 0]
                seen = set()
            k = (frozenset(q.items()), depth)
            if k in seen:
                return False
            seen.add(k)
            # a term that pulls the value down and shares no atom with any hypothesis stays
            hatoms = set(a for h in hs for m in h for a, e in m)
            for m, c in q.items():
                if m and (c < 0 or any(e % 2 and not self.atom_nonneg(a) for a, e in m)) and not any(a in hatoms for a, e in m):
                    return False
            for h in hs:
                mults = [self.N.const(1)]
                # multiples that match a monomial of the target
                for m in q:
                    for a, e in m:
                        if e == 1 and self.atom_nonneg(a):
                            t = {((a, 1),): T.Fraction(1)}
                            if t not in mults:
                                mults.append(t)
                for m in mults[:4]:
                    if self.ge0p(self.N.padd(q, self.N.pmul(m, h), -1), depth - 1, hs, seen):
                        return True
        return False

    def ge0(self, t):
        if t.op == "num":
            return val(t) >= 0
        if self._deep > 12:
            return False
        key = (t, tuple(self.bounds.items()), tuple(self.hyps), len(self.unsigned_terms), self._deep > 6)
        r = self._ge0memo.get(key)
        if r is not None:
            return r
        self._deep += 1
        try:
            r = self._ge0(t)
            self._ge0memo[key] = r
            return r
        except NFError:
            return False
        finally:
            self._deep -= 1

    def _ge0(self, t):
        if t.op == "ite":
            return self.ge0(t.args[1]) and self.ge0(t.args[2])
        if t.op == "app" and t.args[0] in ("idiv", "imod"):
            return self.ge0(t.args[1]) and self.ge0(t.args[2])
        return self.ge0p(self.nfi(t))

    def prove_lt(self, a, b):
        if a.op == "app" and a.args[0] == "imod":
            if self.same(a.args[2], b) and self.ge0(b):
                return True
        if a.op == "app" and a.args[0] == "idiv" and self.ge0(a.args[1]) and self.ge0(a.args[2]):
            return self.prove_lt(a.args[1], mul(b, a.args[2]))
        if self._deep > 12:
            return False
        return self.ge0(sub(sub(b, a), num(1, "I")))

    def prove_true(self, c, deep=0):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.bfacts:
            return True
        if c.op == "lt" and c.args[0].sort == "I" and c.args[1].sort == "I":
            return self.prove_lt(c.args[0], c.args[1])
        if c.op == "eq" and c.args[0].sort == "I":
            return self.same(c.args[0], c.args[1])
        if c.op == "and":
            return all(self.prove_true(x) for x in c.args)
        if c.op == "not":
            d = c.args[0]
            if d.op == "lt" and d.args[0].sort == "I" and d.args[1].sort == "I":
                a, b = d.args
                # b <= a
                if b.op == "app" and b.args[0] == "idiv" and False:
                    pass
                return self.prove_lt(b, add(a, num(1, "I")))
            if d.op == "eq" and d.args[0].sort == "I":
                a, b = d.args
                return self.distinct(a, b) or self.prove_lt(a, b) or self.prove_lt(b, a)
            if d.op == "and":
                return any(self.prove_true(bnot(x)) for x in d.args)
        return False

    def simpb(self, c):
        if c is TRUE or c is FALSE:
            return c
        c = self.simp(c)
        if c.op == "and":
            return band(*[self.simpb1(x) for x in c.args])
        return self.simpb1(c)

    def simpb1(self, c):
        if self.prove_true(c):
            return TRUE
        if self.prove_true(bnot(c)):
            return FALSE
        return c

    # -- division -----------------------------------------------------------------
    def pdiv_mono(self, p, mb, cb, exact):
        """divide by the monomial cb*mb: (quotient, remainder)"""
        Q, R = {}, {}
        need = dict(mb)
        for m, c in p.items():
            d = dict(m)
            ok = all(d.get(a, 0) >= e for a, e in need.items())
            if ok:
                q = c / cb
                qi = q.numerator // q.denominator if not exact else q
                if not exact and q.denominator == 1:
                    qi = q
                mm = tuple(sorted((a, d[a] - need.get(a, 0)) for a in d if d[a] - need.get(a, 0)))
                if qi:
                    Q[mm] = Q.get(mm, 0) + T.Fraction(qi)
                r = c - qi * cb
                if r:
                    R[m] = r
            else:
                R[m] = c
        return Q, R

    def divmod_poly(self, p, q, b, floor=False):
        """the same for a divisor of several terms: divide by its leading term, then move a multiple of b between the two parts"""
        N = self.N
        mb = max(q, key=lambda m: (sum(e for _, e in m), m))
        cb = q[mb]
        if cb != 1 or not mb or self.poly_sign(q) <= 0:
            return None
        Q, _ = self.pdiv_mono(p, mb, cb, True)
        if any(c.denominator != 1 for c in Q.values()):
            return None
        for k in (0, -1, 1):
            Qk = N.padd(Q, N.const(k))
            Rk = N.padd(p, N.pmul(Qk, q), -1)
            try:
                Qt, Rt = self.poly2term(Qk), self.poly2term(Rk)
            except NFError:
                return None
            if self.ge0(Rt) and self.prove_lt(Rt, b) and (floor or not Rk or self.ge0(Qt)):
                return Qt, Rt
        return None

    def divmod_(self, t, b, floor=False):
        """(quotient, remainder) terms of t by b, rounding towards zero as C does, or down; None when it cannot be split"""
        if b.op == "num" and val(b) == 1:
            return t, num(0, "I")
        try:
            q = self.nfi(b)
            if len(q) != 1:
                return self.divmod_poly(self.nfi(t), q, b, floor)
            (mb, cb), = q.items()
            if cb <= 0:
                return None
            Q, R = self.pdiv_mono(self.nfi(t), mb, cb, False)
            Qt, Rt = self.poly2term(Q), self.poly2term(R)
        except NFError:
            return None
        if self.ge0(Rt) and self.prove_lt(Rt, b) and (floor or not R or self.ge0(Qt)):
            return Qt, Rt
        return None

    def simp(self, t, memo=None):
        """simplify divisions and conditions on indices"""
        if not isinstance(t, Term) or not t.args or not hasdiv(t):
            return t
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        from .sym import rebuild
        na = [self.simp(a, memo) if isinstance(a, Term) else a for a in t.args]
        if t.op == "idx":
            r = idx(na[0], self.normi(na[1]))
        elif t.op == "app" and na[0] in ("idiv", "imod"):
            dm = self.divmod_(na[1], na[2])
            if dm is not None:
                r = dm[0] if na[0] == "idiv" else dm[1]
            else:
                r = rebuild(t.op, na, t.sort)
        elif t.op == "ite":
            c = na[0]
            if c is not TRUE and c is not FALSE:
                c = self.simpb(c) if not hasdiv(c) or True else c
            r = ite(c, na[1], na[2])
        else:
            r = rebuild(t.op, na, t.sort) if any(x is not y for x, y in zip(na, t.args)) else t
        memo[t] = r
        return r

    # -- solving index equations ---------------------------------------------------
    def solve(self, e, target, vs, extra):
        """solutions of e(vs) = target for vs in their ranges: (mapping, condition) or None"""
        N = self.N
        try:
            p = self.nfi(e)
        except NFError:
            return None
        coef = {}
        rest = p
        for v in vs:
            a = N.atom(("sym", v.args[0]))
            self._reg.setdefault(a, v)
            s = self.split(rest, a)
            if s is None or not s[0]:
                return None
            coef[v], rest = s
        for v in vs:
            a = N.atom(("sym", v.args[0]))
            if any(self.mentions_atom(coef[u], a) for u in vs):
                return None
        try:
            c0 = self.poly2term(rest)
            rem = self.norm_term(sub(target, c0))
        except NFError:
            return None
        if len(vs) == 1:
            v = vs[0]
            A = coef[v]
            if A == {(): 1}:
                return {v: self.normi(rem)}, TRUE
            if A == {(): -1}:
                return {v: self.normi(neg(rem))}, TRUE
        order = sorted(vs, key=lambda v: (max((sum(e_ for _, e_ in m) for m in coef[v]), default=0), max(abs(c) for c in coef[v].values())))
        # a digit with a negative coefficient counts down from the top of its place: v = (H - 1) - v'; the leading one is negated
        flip = {}
        for i, v in enumerate(order):
            if not all(c < 0 for c in coef[v].values()) or self.poly_sign(coef[v]) >= 0:
                continue
            lo, hi = extra.get(v, (None, None))
            if lo is None or any(subterm_of(u, x) for u in vs for x in (lo, hi)):
                continue
            coef[v] = {k: -c for k, c in coef[v].items()}
            off = num(0, "I")
            try:
                if i + 1 < len(order):
                    up = coef[order[i + 1]]
                    up = up if self.poly_sign(up) > 0 else {k: -c for k, c in up.items()}
                    if len(coef[v]) != 1:
                        return None
                    (mb, cb), = coef[v].items()
                    H, R = self.pdiv_mono(up, mb, cb, True)
                    if R:
                        return None
                    off = self.poly2term(N.padd(H, N.const(-1)))
                rem = self.norm_term(add(rem, mul(self.poly2term(coef[v]), off)))
                flip[v] = off
                extra = dict(extra)
                extra[v] = (self.norm_term(add(sub(off, hi), num(1, "I"))), self.norm_term(add(sub(off, lo), num(1, "I"))))
            except NFError:
                return None
        m = {}
        conds = []
        save = dict(self.bounds)
        try:
            cur = N.const(1)
            if coef[order[0]] != cur:
                # all coefficients share a factor: the target must be a multiple
                A = coef[order[0]]
                if len(A) != 1 and (len(order) > 1 or self.poly_sign(A) <= 0):
                    return None
                bt = self.poly2term(A)
                dm = self.divmod_(rem, bt, True)
                if dm is None:
                    conds += [eq(imod(rem, bt), num(0, "I"))]
                    rem = idiv(rem, bt)
                else:
                    if dm[1] is not num(0, "I"):
                        conds += [eq(dm[1], num(0, "I"))]
                    rem = dm[0]
                cur = A
            for i, v in enumerate(order):
                if coef[v] != cur:
                    return None
                if i == len(order) - 1:
                    m[v] = self.normi(rem)
                    break
                nxt = coef[order[i + 1]]
                if len(cur) != 1:
                    return None
                (mb, cb), = cur.items()
                H, R = self.pdiv_mono(nxt, mb, cb, True)
                if R:
                    return None
                Ht = self.poly2term(H)
                # range of v must lie in [0, H)
                lo, hi = extra.get(v, (None, None))
                if lo is None:
                    return None
                self.bounds = dict(save)
                for u in extra:
                    if u in vs or True:
                        self.bounds[u] = extra[u]
                if not (self.ge0(lo) and self.ge0(sub(Ht, hi))):
                    return None
                self.bounds = dict(save)
                dm = self.divmod_(rem, Ht, True)
                if dm is None:
                    if not self.ge0(rem):
                        conds.append(le(num(0, "I"), rem))
                    m[v] = imod(rem, Ht)
                    rem = idiv(rem, Ht)
                else:
                    rem, m[v] = dm
                cur = nxt
        except NFError:
            return None
        finally:
            self.bounds = save
        for v, off in flip.items():
            m[v] = self.normi(sub(off, m[v]))
        return m, band(*conds)

    def bindsum(self, K, body, lo, hi):
        b, (nm,) = self.bind([K], body)
        return app("sumf", (nm, lo, hi, b), "R" if body.sort == "R" else "I")

    # -- canonical binders ----------------------------------------------------------
    def bind(self, syms, body):
        """rename bound symbols to canonical names (by binder height)"""
        h = height(body)
        names = tuple("b#%d" % (h + 1 + i) for i in range(len(syms)))
        return _subst(body, dict((s, sym(n, s.sort)) for s, n in zip(syms, names))), names


_height = {}


def height(t):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return max([height(x) for x in t] + [0])
        if isinstance(t, str) and t.startswith("b#"):
            return int(t[2:])
        return 0
    r = _height.get(t)
    if r is None:
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("b#"):
            r = int(t.args[0][2:])
        else:
            r = max([height(a) for a in t.args] + [0])
        _height[t] = r
    return r
