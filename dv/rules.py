"""Invariant rules for particular kinds of loop; each is tried before a loop is unrolled or summarised."""
from .term import *
from .sym import Unsupported, Write, Exit, State, subst, mentions, subterms
from .loops import walk, changed, trip, summarise, flat


def induction(ex, fr, cond, inc, body, st):
    """(location key, K, lo, hi, head state): the loop counts K = lo, ..., hi-1; None when that is not evident"""
    if not inc.get("kind") or not cond.get("kind"):
        return None
    s0 = st.copy()
    ex.ev(fr, inc, s0)
    ks = changed(st.store, s0.store)
    if len(ks) != 1:
        return None
    k = ks[0]
    w = st.store.get(k)
    if not w or w[-1].vars or w[-1].val.sort != "I":
        return None
    init = w[-1].val
    if not ex.same(s0.store[k][-1].val, add(init, num(1, "I"))):
        return None
    h = ex.fresh("it", "I")
    s = st.copy()
    s.store[k] = (Write((), h),)
    c = ex.decide(toB(ex.ev(fr, cond, s)), s)
    if s.store is not None and [x for x in changed(st.store, s.store) if x != k]:
        return None
    r = trip(ex, c, h, init, 1, set())
    if r is None:
        return None
    lo, hi, form = r
    s = st.copy()
    s.store[k] = (Write((), h),)
    return k, h, lo, hi, s


def search_rule(ex, fr, cond, inc, body, st, exits):
    """for (i = lo; i < hi; ++i) if (C(i)) return V(i);   with no other effect: returns V(first i with C(i)), if there is one.
    Invariant: no j < i satisfies C(j)."""
    if not any(x.get("kind") == "ReturnStmt" for x in walk(body)):
        return None
    try:
        r = induction(ex, fr, cond, inc, body, st)
    except Unsupported:
        return None
    if r is None or (r[2].op == "num" and r[3].op == "num"):
        return None
    k, h, lo, hi, s = r
    bsave = dict(ex.bounds)
    ex.bounds[h] = (lo, hi)
    try:
        before = dict(s.store)
        pc = s.pc
        s.pc = TRUE
        my = []
        out = ex.ex(fr, body, s, my)
        outs = ([out] if out is not None else []) + [e.state for e in my]
        decl = set(x.get("id") for x in walk(body) if x.get("kind") == "VarDecl")
        privl = set(l.args[0] for i, l in fr.locs.items() if i in decl)
        for o in outs:
            if [x for x in changed(before, o.store) if flat(x)[0] not in privl] or len(o.events) != len(st.events):
                return None
        rets = [e for e in my if e.kind == "return"]
        if not rets or any(e.kind not in ("return", "continue") for e in my):
            return None
        C = bor(*[e.state.pc for e in rets])
        v = rets[-1].value
        for e in reversed(rets[:-1]):
            v = ite(e.state.pc, e.value, v)
    finally:
        ex.bounds = bsave
    C = ex.decide(C, st)
    found, first = exists_first(ex, h, lo, hi, C)
    s1, s2 = st.copy(), st.copy()
    s1.pc = band(pc, found)
    s2.pc = band(pc, bnot(found))
    s2.store.pop(k, None)
    exits.append(Exit("return", s1, subst(v, {h: first})))
    return s2


def exists_first(ex, h, lo, hi, C):
    b, names = ex.bind([h], C)
    return app("exists", (names, lo, hi, b), "B"), app("first", (names, lo, hi, b), "I")


class Append(object):
    """A list that only grows: obj.size entries at obj.array.  Loops that append are executed once from an arbitrary size s:
    the body may append one entry, at index s, or run a nested loop that appends; it may not touch the entries below s.
    What was appended is recorded as an event, describe(entry location, state)."""

    def __init__(self, obj, describe):
        self.obj, self.describe = obj, describe
        self.depth = 0

    def size(self, ex, st):
        return ex.read(st, fld(pointee(self.obj), "size"), "I")

    def array(self, ex, st):
        return ex.read(st, fld(pointee(self.obj), "array"), "P")

    def keys(self, ex, st):
        """store keys of the entries"""
        a = self.array(ex, st)
        ks, _ = ex.absloc(ex.canon(pointee(ex.padd(a, num(0, "I")))))
        root = ks
        out = []
        for k in st.store:
            r = k
            while r != ks and r[0] not in ("var", "obj"):
                r = r[0]
            if r == ks:
                out.append(k)
        return ks, out

    def rule(self, ex, fr, cond, inc, body, st, exits):
        if getattr(self, "active", None) is body:
            return None
        S0 = self.size(ex, st)
        if not self.appends(ex, fr, cond, inc, body, st):
            return None
        if not ex.prove_true(le(num(1, "I"), S0)):
            raise Unsupported("a loop appends to a list that may be empty")
        s = ex.fresh("entries", "I")
        big = ex.fresh("capacity", "I")
        st = st.copy()
        sizekey, sizeix = ex.absloc(ex.canon(fld(pointee(self.obj), "size")))
        sizeix = tuple(sizeix)
        st.store[sizekey] = (Write(sizeix, s),)
        wrapped = {"kind": "CompoundStmt", "id": body.get("id"), "inner": [
            {"kind": "GhostMark", "ghost": (self, s, sizekey, "begin")}, body, {"kind": "GhostMark", "ghost": (self, s, sizekey, "end")}]}
        save = dict(ex.bounds)
        ex.bounds[s] = (num(1, "I"), big)
        act = getattr(self, "active", None)
        self.active = wrapped
        try:
            out = summarise(ex, fr, cond, inc, wrapped, st, exits)
        finally:
            self.active = act
            ex.bounds = save
        m = ex.fresh("appended", "I")
        ex.unsigned_terms.add(m)
        out.store[sizekey] = (Write(sizeix, add(S0, m)),)
        return out

    def appends(self, ex, fr, cond, inc, body, st):
        r = None
        try:
            r = induction(ex, fr, cond, inc, body, st)
        except Unsupported:
            return False
        if r is None or (r[2].op == "num" and r[3].op == "num"):
            return False
        k, h, lo, hi, s = r
        save, guess, shape = dict(ex.bounds), dict(ex.loop_guess), dict(ex.loop_shape)
        info = list(ex.loop_info)
        ex.bounds[h] = (lo, hi)
        ex.discover += 1
        try:
            before = self.size(ex, s)
            out = ex.ex(fr, body, s, [])
            return out is not None and not ex.same(self.size(ex, out), before)
        except Unsupported:
            return False
        finally:
            ex.discover -= 1
            ex.bounds, ex.loop_guess, ex.loop_shape, ex.loop_info = save, guess, shape, info

    def mark(self, ex, fr, st, s, sizekey, what):
        if what == "begin":
            ks, keys = self.keys(ex, st)
            self.snap = getattr(self, "snap", {})
            ak = ex.absloc(ex.canon(fld(pointee(self.obj), "array")))[0]
            self.snap[s] = (self.array(ex, st), ks, dict((k, st.store[k]) for k in keys), st.store[sizekey], ak, st.store.get(ak))
            return st
        arr, ks, old, oldsize, ak, oldarr = self.snap[s]
        if self.array(ex, st) is not arr:
            raise Unsupported("the list moves to another object")
        size = self.size(ex, st)
        _, keys = self.keys(ex, st)
        new = []
        for k in keys:
            ws = st.store[k]
            o = old.get(k, ())
            if ws[:len(o)] != o:
                raise Unsupported("the entries of the list are rewritten")
            new += [(k, w) for w in ws[len(o):]]
        if ex.same(size, add(s, num(1, "I"))):
            for k, w in new:
                if w.vars or w.kind not in ("w", "loophead") or (w.kind == "w" and not ex.same(w.idx[0], s)):
                    raise Unsupported("an iteration writes an entry that it does not append")
            entry = pointee(ex.padd(arr, s))
            st.events = st.events + (("append", tuple(self.describe(ex, st, entry)), st.pc),)
        elif any(x.op == "sym" and x.args[0].startswith("appended!") and ex.same(size, add(s, x)) for x in subterms(size)):
            if [1 for k, w in new if w.kind == "w"]:
                raise Unsupported("an iteration writes entries outside its nested loop")
        elif not ex.same(size, s):
            raise Unsupported("an iteration appends more than one entry: %s" % size)
        st = st.copy()
        for k in keys:
            if k in old:
                st.store[k] = old[k]
            else:
                del st.store[k]
        st.store[sizekey] = oldsize
        if oldarr is None:
            st.store.pop(ak, None)
        else:
            st.store[ak] = oldarr
        return st


def ghost(ex, fr, n, st, exits):
    a, s, sizekey, what = n["ghost"]
    return a.mark(ex, fr, st, s, sizekey, what)


def fold_rule(ex, fr, cond, inc, body, st, exits):
    """for (i = lo; i < hi; ++i) the real scalar m becomes max(m, e(i)) (or min), nothing else changes:
    afterwards m is the largest of its old value and the e(i).  That one iteration computes max(m, e(i)) is proved for every m and e(i)."""
    from .prove import real_valid
    if any(x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "ReturnStmt", "BreakStmt") for x in walk(body)):
        return None
    if not any(x.get("kind") in ("IfStmt", "ConditionalOperator", "CallExpr") for x in walk(body)):
        return None
    try:
        r = induction(ex, fr, cond, inc, body, st)
    except Unsupported:
        return None
    if r is None or (r[2].op == "num" and r[3].op == "num"):
        return None
    k, h, lo, hi, s = r
    save = dict(ex.bounds)
    ex.bounds[h] = (lo, hi)
    ex.discover += 1
    off = False
    try:
        before = dict(s.store)
        my = []
        out = ex.ex(fr, body, s.copy(), my)
        outs = ([out] if out is not None else []) + [e.state for e in my]
        if not outs or any(e.kind != "continue" for e in my):
            return None
        o = ex.join([x.copy() for x in outs])
        decl = set(x.get("id") for x in walk(body) if x.get("kind") == "VarDecl")
        priv = set(l.args[0] for i, l in fr.locs.items() if i in decl)
        ch = [x for x in changed(before, o.store) if flat(x)[0] not in priv]
        if len(ch) != 1 or ch[0] == k or ch[0][0] != "var" or len(o.events) != len(st.events):
            return None
        m = ch[0]
        w = st.store.get(m)
        if not w or w[-1].vars or w[-1].val.sort != "R":
            return None
        init = w[-1].val
        ex.discover -= 1
        off = True
        acc = ex.fresh("acc", "R")
        s = s.copy()
        s.store[m] = (Write((), acc),)
        my = []
        out = ex.ex(fr, body, s, my)
        o = ex.join(([out] if out is not None else []) + [e.state for e in my])
        new = ex.simp(ex.read(o, ex.loc_of(m), "R"))
        cands = [t for t in subterms(new) if t.sort == "R" and t.op in ("load", "app") and mentions(t, {h}) and not mentions(t, {acc})]
        for e in sorted(cands, key=lambda t: -len(subterms(t))):
            for nm, v in (("max", ite(lt(acc, e), e, acc)), ("min", ite(lt(e, acc), e, acc))):
                if real_valid(eq(new, v)) is None:
                    bd, names = ex.bind([h], e)
                    res = st.copy()
                    res.store[m] = (Write((), app("fold:" + nm, (init, lo, hi, names[0], bd), "R")),)
                    res.store.pop(k, None)
                    return res
        return None
    except Unsupported:
        return None
    finally:
        if not off:
            ex.discover -= 1
        ex.bounds = save


def flags_rule(ex, fr, cond, inc, body, st, exits):
    """for (i = lo; i < hi; ++i) every integer scalar m that changes at all is set to its own constant K where a condition C(i) holds, and kept where it does not:
    afterwards m is K if C(j) holds for some j, otherwise what it was.  That one iteration does that is proved for every m and i."""
    from .prove import int_valid
    if any(x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "ReturnStmt", "BreakStmt") for x in walk(body)):
        return None
    if not any(x.get("kind") in ("IfStmt", "ConditionalOperator") for x in walk(body)):
        return None
    try:
        r = induction(ex, fr, cond, inc, body, st)
    except Unsupported:
        return None
    if r is None or (r[2].op == "num" and r[3].op == "num"):
        return None
    k, h, lo, hi, s = r
    save = dict(ex.bounds)
    ex.bounds[h] = (lo, hi)
    ex.discover += 1

    def once(s):
        my = []
        out = ex.ex(fr, body, s, my)
        outs = ([out] if out is not None else []) + [e.state for e in my]
        if not outs or any(e.kind != "continue" for e in my):
            return None
        return ex.join([x.copy() for x in outs])
    try:
        before = dict(s.store)
        s.pc = TRUE
        o = once(s.copy())
        if o is None or len(o.events) != len(st.events):
            return None
        decl = set(x.get("id") for x in walk(body) if x.get("kind") == "VarDecl")
        priv = set(l.args[0] for i, l in fr.locs.items() if i in decl)
        ch = [x for x in changed(before, o.store) if flat(x)[0] not in priv and x != k]
        if not ch:
            return None
        init, acc = {}, {}
        for m in ch:
            w = st.store.get(m)
            # one cell, known before the loop
            if not w or any(x.vars or x.idx != w[-1].idx or any(y.op != "num" for y in x.idx) for x in tuple(w) + tuple(o.store[m])) or w[-1].val.sort != "I":
                return None
            init[m], acc[m] = w[-1].val, ex.fresh("acc", "I")
        s = s.copy()
        for m in ch:
            s.store[m] = (Write(st.store[m][-1].idx, acc[m]),)
        o = once(s)
        if o is None or [x for x in changed(before, o.store) if flat(x)[0] not in priv and x != k and x not in acc]:
            return None
        res = st.copy()
        for m in ch:
            if any(x.vars or x.idx != st.store[m][-1].idx for x in o.store[m]):
                return None
            new = o.store[m][-1].val
            if any(mentions(new, {a}) for x, a in acc.items() if x != m):
                return None
            for K in sorted({t for t in subterms(new) if t.op == "num" and t.sort == "I"}, key=str):
                C = ex.decide(eq(subst(new, {acc[m]: add(K, num(1, "I"))}), K), st)
                if int_valid(eq(new, ite(C, K, acc[m]))) is None:
                    break
            else:
                return None
            found, _ = exists_first(ex, h, lo, hi, C)
            res.store[m] = (Write(st.store[m][-1].idx, ite(found, K, init[m])),)
        res.store.pop(k, None)
        return res
    except Unsupported:
        return None
    finally:
        ex.discover -= 1
        ex.bounds = save
