"""Loop summarisation.

A loop that cannot be unrolled is replaced by an inferred invariant: every scalar it
modifies gets a closed form in the loop variable, every array cell it writes becomes a
comprehension over the iterations.  The invariant is then checked on the real body: the
body is executed once from an arbitrary iteration in which the closed forms hold, and
consecution of each closed form, disjointness of the writes of different iterations and
absence of reads of what another iteration wrote are verified.  Anything that cannot be
verified raises Unsupported."""
from .term import *
from .sym import Unsupported, Write, Exit, State, subst, mentions, subterms
from .cast import sort_of
from .nf import NFError


class Head(object):
    """what is known about a scalar at the head of an arbitrary iteration"""
    __slots__ = ("sym", "form", "kind", "init")

    def __init__(self, sym_, init):
        self.sym, self.init = sym_, init
        self.form = None
        self.kind = None


def scalar(ws):
    return bool(ws) and all(not w.idx and not w.vars and w.kind == "w" for w in ws)


def changed(a, b):
    """keys whose content differs between two stores"""
    out = []
    for k in b:
        x, y = a.get(k, ()), b[k]
        if len(x) != len(y) or any(p is not q for p, q in zip(x, y)):
            out.append(k)
    return out


def walk(n):
    yield n
    for c in n.get("inner", ()):
        for x in walk(c):
            yield x


TRACE = False


def summarise(ex, fr, cond, inc, body, st, exits):
    for rule in ex.loop_rules:
        r = rule(ex, fr, cond, inc, body, st, exits)
        if r is not None:
            return r
    if not cond.get("kind"):
        raise Unsupported("loop without condition")
    ck = (id(body), fr.name, len(ex.bounds))
    heads = {}
    arrays = set()
    _guess, _shape = ex.loop_guess, ex.loop_shape
    known, karr = _guess.get(ck, ((), ()))
    private = set()
    tag = "%s" % (body.get("id") or id(body))
    K = ex.fresh("it", "I")
    lo = hi = None
    primary = None

    def add_head(k, sort):
        loc = ex.loc_of(k)
        if loc is None:
            raise Unsupported("loop modifies a scalar it cannot name")
        ws = st.store.get(k)
        if ws:
            init = ws[-1].val
        else:
            init = ex.base_of(k, sort)
        s = ex.fresh("head", init.sort)
        heads[k] = Head(s, init)

    for k, sort in known:
        add_head(k, sort)
    arrays |= set(karr)
    guessed = set()
    # ---- the induction variable, from the condition and the increment alone
    if inc.get("kind"):
        s = st.copy()
        try:
            ex.discover += 1
            bsave = dict(ex.bounds)
            s0 = st.copy()
            ex.ev(fr, inc, s0)
            for k in changed(st.store, s0.store):
                if k not in heads and scalar(s0.store[k]) and "*" not in flat(k):
                    add_head(k, s0.store[k][-1].val.sort)
            for k, h in heads.items():
                s.store[k] = (Write((), h.sym),)
            s1 = s.copy()
            ex.ev(fr, inc, s1)
            c0 = ex.decide(toB(ex.ev(fr, cond, s)), s)
            allh = allheads(heads)
            for k, h in heads.items():
                if h.init.sort != "I" or not s1.store.get(k) or not mentions(c0, {h.sym}):
                    continue
                d = ex.N.diff(s1.store[k][-1].val, h.sym)
                if len(d) == 1 and () in d and d[()].denominator == 1:
                    rng = trip(ex, c0, h.sym, h.init, int(d[()]), allh)
                    if rng is not None:
                        primary = k
                        lo, hi, form = rng
                        lo, hi = ex.simp(lo), ex.simp(hi)
                        h.form, h.kind = form(K), ("primary", int(d[()]), form)
                        break
        except (Unsupported, NFError):
            pass
        finally:
            ex.discover -= 1
            ex.bounds = bsave
    if primary is not None:
        for k, d in _shape.get(ck, {}).items():
            h = heads.get(k)
            if h is not None and h.form is None:
                h.form, h.kind = ex.coerce(add(h.init, mul(d, sub(K, lo))), h.init.sort), ("lin", d)
                guessed.add(k)
    nsyms = set()
    decl = set(x.get("id") for x in walk(body) if x.get("kind") == "VarDecl" and x.get("storageClass") != "static")
    result = outs = None
    retry = final = False
    outer = [(m, len(m.extra)) for m in ex.live_markers]
    for attempt in range(24):
        for m, ln in outer:
            del m.extra[ln:]            # reads seen by an attempt that was not the last one
        s = st.copy()
        for k, h in heads.items():
            s.store[k] = (Write((), h.form if h.form is not None else h.sym),)
        markers = {}
        for k in arrays:
            m = Write((), None, kind="loophead")
            markers[k] = m
            s.store[k] = s.store.get(k, ()) + (m,)
            m.extra = []
        headstore = dict(s.store)
        ex.live_markers = [m for m, _ in outer] + list(markers.values())
        bsave = dict(ex.bounds)
        ex.loopstack.append(K)
        frames_live = set(f.uid for f in ex.frames)
        if primary is not None:
            ex.bounds[K] = (lo, hi)
        lax = primary is None or (retry and not final)
        ex.discover += lax
        try:
            c = ex.decide(toB(ex.ev(fr, cond, s)), s)
            condstore = dict(s.store)
            my = []
            r = ex.ex(fr, body, s, my) if c is not FALSE else None
            conts = [r] if r is not None else []
            other = []
            for e in my:
                if e.kind == "continue":
                    conts.append(e.state)
                else:
                    other.append(e)
            out = ex.join(conts)
            if out is not None and inc.get("kind"):
                ex.ev(fr, inc, out)
        except Unsupported:
            if lax or final or all(h.form is not None for h in heads.values()):
                raise
            if TRACE: print('retry', len(ex.loopstack))
            retry = True
            continue
        finally:
            ex.discover -= lax
            ex.loopstack.pop()
            ex.bounds = bsave
            ex.live_markers = [m for m, _ in outer]
        if other:
            raise Unsupported("loop left by %s" % other[0].kind)
        if out is None:
            raise Unsupported("loop body never completes")
        # what does the body modify
        new = False
        for k in changed(headstore, out.store):
            if k in heads:
                continue
            ws = out.store[k]
            if k in arrays:
                continue
            r = k
            while r[0] not in ("var", "obj"):
                r = r[0]
            if isinstance(r[1], Term) and any(x.op == "sym" and x.args[0].split("!")[0] in ("it", "head", "unknown") for x in subterms(r[1])):
                if ex.discover or lax:
                    continue            # an object not yet identified
                raise Unsupported("a loop writes through the unidentified pointer %s" % r[1])
            if scalar(ws) and "*" not in flat(k):
                add_head(k, ws[-1].val.sort)
                new = True
            elif any(w.kind == "havoc" and w not in headstore.get(k, ()) for w in ws):
                raise Unsupported("havoc in a loop")
            else:
                arrays.add(k)
                new = True
        if new:
            if TRACE: print('new', [flat(k) for k in heads], [flat(k) for k in arrays])
            continue
        _guess[ck] = (tuple((k, h.init.sort) for k, h in heads.items()), tuple(arrays))
        outs = dict((k, out.store[k][-1].val if out.store.get(k) else None) for k in heads)
        allsyms = set(h.sym for h in heads.values() if h.form is None)
        # ---- resolve scalars
        progress = False
        for k in list(guessed):
            h = heads[k]
            if not ex.same(outs[k], subst(h.form, {K: add(K, num(1, "I"))})):
                h.form = h.kind = None
                _shape[ck].pop(k, None)
                guessed.discard(k)
                progress = True
        if progress:
            continue
        if primary is None:
            for k, h in heads.items():
                if h.init.sort != "I" or outs[k] is None:
                    continue
                try:
                    d = ex.N.diff(outs[k], h.sym)
                except NFError:
                    continue
                if len(d) == 1 and () in d and d[()].denominator == 1 and mentions(c, {h.sym}):
                    step = int(d[()])
                    rng = trip(ex, c, h.sym, h.init, step, allsyms)
                    if rng is None:
                        continue
                    primary = k
                    lo, hi, form = rng
                    h.form, h.kind = form(K), ("primary", step, form)
                    break
            if primary is None:
                raise Unsupported("no induction variable bounds the loop at %s (condition %s)" % (fr.name, c))
            continue
        for k, h in heads.items():
            if h.form is not None:
                continue
            o = outs[k]
            if o is h.sym:
                h.form, h.kind = h.init, ("const",)
                progress = True
                continue
            if not mentions(o, allsyms):
                h.kind = ("over", o)
                continue
            h.kind = None
            if flat(k)[0] in set(l.args[0] for i, l in fr.locs.items() if i in decl):
                h.kind = ("over", o)        # declared in the body: dead at the head of an iteration
                continue
            if o.sort in ("I", "R"):
                d = sub(o, h.sym)
                if mentions(d, {h.sym}):
                    try:
                        d = ex.poly2term(ex.nfi(d), o.sort)
                    except (NFError, Unsupported):
                        pass
                if not mentions(d, allsyms):
                    n = sub(K, lo)
                    if not mentions(d, {K}):
                        h.form = ex.coerce(add(h.init, mul(d, n)), h.init.sort)
                        h.kind = ("lin", d)
                        if not any(x.op == "sym" and "!" in x.args[0] for x in subterms(d)):
                            _shape.setdefault(ck, {})[k] = d
                    else:
                        h.form = add(h.init, ex.bindsum(K, d, lo, K))
                        h.kind = ("acc", d)
                    progress = True
        if progress:
            continue
        pend = [h for h in heads.values() if h.form is None]
        bad = [k for k, h in heads.items() if h.form is None and (h.kind is None or h.kind[0] != "over")]
        if bad:
            raise Unsupported("no closed form for %s in a loop of %s: %s" % (flat(bad[0]), fr.name, outs[bad[0]]))
        # lagged variables: overwritten every iteration but the head value is read somewhere
        lag = False
        memo = {}
        privl = set(l.args[0] for i, l in fr.locs.items() if i in decl)
        for k, h in heads.items():
            if h.form is None:
                if flat(k)[0] in privl:
                    others = [q for q in heads if flat(q)[0] not in privl]
                    if any(outs[q] is not None and mentions(outs[q], {h.sym}) for q in others) or mentions(c, {h.sym}) or \
                            any(mentions_w(w, h.sym, memo) for a in arrays for w in out.store.get(a, ())) or \
                            any(mentions_ev(e, h.sym, memo) for e in out.events[len(st.events):]):
                        raise Unsupported("%s is read before it is assigned" % flat(k))
                    h.kind = ("dead",)
                    continue
                read = any(outs[q] is not None and mentions(outs[q], {h.sym}) for q in heads) or \
                    any(mentions_w(w, h.sym, memo) for a in arrays for w in out.store.get(a, ())) or mentions(c, {h.sym}) \
                    or any(mentions_ev(e, h.sym, memo) for e in out.events[len(st.events):])
                if read:
                    prev = subst(h.kind[1], {K: sub(K, num(1, "I"))})
                    h.form = ite(eq(K, lo), h.init, prev)
                    h.kind = ("lag", h.kind[1])
                    lag = True
        if lag:
            continue
        if lax:
            final = True        # once more, with every side condition checked
            continue
        result = out
        break
    if result is None:
        raise Unsupported("no loop invariant found in %s (%s; %s)" % (fr.name, [(flat(k), h.form, h.kind, (outs or {}).get(k)) for k, h in heads.items()], (retry, final, lax, primary)))
    out = result
    # ---- consecution of the closed forms (the loop condition holds at K in [lo, hi))
    K1 = add(K, num(1, "I"))
    for k, h in heads.items():
        o = outs[k]
        if h.kind[0] in ("lin", "primary", "const"):
            nxt = subst(h.form, {K: K1})
            if not ex.same(o, nxt):
                raise Unsupported("closed form of %s not preserved" % flat(k))
        elif h.kind[0] == "acc":
            if not ex.same(sub(o, h.form), h.kind[1]):
                raise Unsupported("accumulated form of %s not preserved" % flat(k))
        elif h.kind[0] == "lag":
            if not ex.same(o, h.kind[1]):
                raise Unsupported("lagged form of %s not preserved" % flat(k))
        elif h.kind[0] == "over":
            if mentions(o, {h.sym}):
                raise Unsupported("overwritten form of %s" % flat(k))
    ex.bounds[K] = (lo, hi)
    info = {"function": fr.name, "node": body.get("id"), "omp": ex.omp_next is body or getattr(fr, "omp_body", None) is body,
            "shared_scalars": [], "lo": lo, "hi": hi}
    try:
        if not (ex.prove_true(ex.decide(c, st)) if c is not TRUE else True):
            # the condition with the closed form must be exactly lo <= K < hi
            raise Unsupported("loop condition is not the assumed range: %s" % c)
        # ---- array writes
        final = st.copy()
        newwrites = {}
        for k in arrays:
            ws = out.store[k]
            pos = [i for i, w in enumerate(ws) if w is markers[k]]
            if not pos:
                raise Unsupported("loop marker lost")
            newwrites[k] = ws[pos[0] + 1:]
            if any(mentions(i, allheads(heads)) for w in newwrites[k] for i in w.idx):
                raise Unsupported("index depends on an unresolved scalar")
        privl = set(l.args[0] for i, l in fr.locs.items() if i in decl)
        for k in arrays if not ex.discover else ():
            if flat(k)[0] in privl:
                continue            # a new object in every iteration
            check_reads(ex, K, lo, hi, markers[k].extra, newwrites[k], k)
            check_writes(ex, K, lo, hi, newwrites[k], k)
    finally:
        del ex.bounds[K]
    nonempty = lt(lo, hi)
    if ex.prove_true(nonempty):
        nonempty = TRUE
    last = sub(hi, num(1, "I"))
    wholelen = (lambda e: e)
    for k in arrays:
        if flat(k)[0] in privl:
            final.store.pop(k, None)
            continue
        tail = []
        for w in newwrites[k]:
            if any(mentions(i, {K}) for i in w.idx):
                e = dict(w.extra or {})
                e[K] = (lo, hi)
                dom = band(w.dom, le(lo, K), lt(K, hi))
                tail.append(Write(w.idx, w.val, w.guard, (K,) + tuple(w.vars), dom, w.kind, e))
            else:
                m = {K: last}
                if mentions(w.guard, {K}) or mentions(w.dom, {K}):
                    if w.guard is not TRUE and mentions(w.guard, {K}):
                        raise Unsupported("conditional overwrite of one cell in a loop")
                tail.append(Write(w.idx, subst(w.val, m), band(w.guard, nonempty), w.vars, subst(w.dom, m), w.kind, w.extra))
        final.store[k] = final.store.get(k, ()) + tuple(tail)
    for k, h in heads.items():
        if h.kind[0] == "dead":
            final.store.pop(k, None)
            continue
        if h.kind[0] == "primary":
            f = h.kind[2]
            v = f(hi) if nonempty is TRUE or ex.prove_true(le(lo, hi)) else ite(nonempty, f(hi), h.init)
        elif h.kind[0] == "const":
            v = h.init
        elif h.kind[0] in ("lin", "acc"):
            v = ex.simp(subst(h.form, {K: hi}) if h.kind[0] == "lin" else add(h.init, ex.bindsum(K, h.kind[1], lo, hi)))
            if not (nonempty is TRUE or ex.prove_true(le(lo, hi))):
                v = ite(nonempty, v, h.init)
        else:
            v = subst(h.kind[1], {K: last})
            v = v if nonempty is TRUE else ite(nonempty, v, h.init)
        if mentions(v, {K}):
            raise Unsupported("loop variable escapes")
        final.store[k] = (Write((), v),)
    evs = out.events[len(st.events):]
    if evs:
        final.events = final.events + (("loop", (K, lo, hi, evs), final.pc),)
    # ---- data sharing facts for parallel loops
    privlocs = set(l.args[0] for i, l in fr.locs.items() if i in decl)
    for k, h in heads.items():
        root = flat(k)[0]
        if root in privlocs or k == primary or not ex.is_live(root):
            continue
        info["shared_scalars"].append((".".join(flat(k)), h.kind[0]))
    info["arrays"] = [".".join(map(str, flat(k))) for k in arrays if flat(k)[0] not in privlocs and ex.is_live(flat(k)[0])]
    ex.loop_info.append(info)
    return final


def allheads(heads):
    return set(h.sym for h in heads.values())


def flat(k):
    """path key -> list of strings"""
    if k[0] == "var":
        return [k[1]]
    if k[0] == "obj":
        return ["obj:%s" % (k[1],)]
    return flat(k[0]) + [k[1]]


def mentions_w(w, s, memo):
    return mentions(w.val, {s}, memo) if w.val is not None and any([True]) and mentions(w.val, {s}) else \
        any(mentions(i, {s}) for i in w.idx) or mentions(w.guard, {s}) or mentions(w.dom, {s})


def mentions_ev(e, s, memo):
    return any(isinstance(x, Term) and mentions(x, {s}) for x in (tuple(e[1]) + (e[2],)))


def trip(ex, c, h, init, step, heads):
    """range [lo, hi) of the loop variable (a new variable equal to it when step is 1)
    such that the condition is lo <= K < hi; returns (lo, hi, value of the program variable at K)"""
    neg = False
    t = c
    if t.op == "not":
        neg, t = True, t.args[0]
    if t.op == "eq" and neg:
        a, b = t.args
        if step != 1:
            return None
        if b is h:
            a, b = b, a
        if a is not h or mentions(b, heads):
            return None
        if not ex.prove_true(le(init, b)):
            return None
        return init, b, lambda K: K
    if t.op != "lt":
        return None
    a, b = t.args                       # a < b, or not(a<b) = b <= a
    if step == 1 and a is h and not neg and not mentions(b, heads):
        return init, b, lambda K: K
    if step == 1 and b is h and neg and not mentions(a, heads):
        return init, add(a, num(1, "I")), lambda K: K
    d = sub(a, b) if not neg else sub(b, a)     # < 0  /  <= 0
    try:
        e = ex.poly2term(ex.nfi(sub(d, mul(num(1, "I"), h))), "I")
        e2 = ex.poly2term(ex.nfi(add(d, h)), "I")
    except NFError:
        return None
    slack = num(1, "I") if neg else num(0, "I")
    if step >= 1 and not mentions(e, heads):
        # h + e < 0 (or <= 0):  h < -e + slack
        bound = ex.norm_term(add(neg_(e), slack))
        if step == 1:
            return init, bound, lambda K: K
        n = ex.simp(idiv(ex.norm_term(add(sub(bound, init), num(step - 1, "I"))), num(step, "I")))
        return num(0, "I"), n, lambda K: add(init, mul(num(step, "I"), K))
    if step == -1 and not mentions(e2, heads):
        # -h + e2 < 0 (or <= 0): h > e2 (- slack)
        n = ex.norm_term(add(sub(init, e2), slack))
        return num(0, "I"), n, lambda K: sub(init, K)
    return None


def neg_(e):
    return neg(e)


def check_reads(ex, K, lo, hi, reads, writes, k):
    """no read of the body sees a cell written by another (earlier) iteration"""
    if not reads:
        return
    for ix, bnds in reads:
        save = dict(ex.bounds)
        ex.bounds.update(bnds)
        try:
            for w in writes:
                K2 = ex.fresh("prev", "I")
                ren = dict((v, ex.fresh("pv", "I")) for v in w.vars)
                ren[K] = K2
                ext = {}
                for v, (a, b) in (w.extra or {}).items():
                    if v in ren:
                        ext[ren[v]] = (subst(a, ren), subst(b, ren))
                ext[K2] = (lo, hi)
                w2 = Write([subst(i, ren) for i in w.idx], num(0), subst(w.guard, ren),
                           tuple(ren[v] for v in w.vars) + (K2,),
                           band(subst(w.dom, ren), le(lo, K2), lt(K2, K)), extra=ext)
                mentioned = any(mentions(i, {K2}) for i in w2.idx)
                if not mentioned:
                    w2 = Write(w2.idx, w2.val, w2.guard, tuple(v for v in w2.vars if v is not K2), w2.dom, extra=ext)
                m = ex.match(w2, list(ix))
                if m is None:
                    raise Unsupported("loop reads %s, which may be written by another iteration" % (flat(k),))
                if m is False:
                    continue
                if m[0] is not FALSE:
                    raise Unsupported("loop-carried dependence on %s: reads %s, written %s if %s" % (flat(k), list(ix), w2.idx, m[0]))
        finally:
            ex.bounds = save


def check_writes(ex, K, lo, hi, writes, k):
    """writes of different iterations to the same cell must not change which write wins"""
    act = [w for w in writes if any(mentions(i, {K}) for i in w.idx)]
    rest = [w for w in writes if w not in act]
    for w in rest:
        if mentions(w.guard, {K}):
            raise Unsupported("conditional overwrite of one cell in a loop")
    if act and rest:
        for a in act:
            for b in rest:
                if not disjoint(ex, K, lo, hi, a, b, True):
                    raise Unsupported("mixed writes to %s in a loop" % (flat(k),))
    for i, a in enumerate(act):
        for b in act[i:]:
            if b is a and len(act) == 1 and injective(ex, a, K):
                continue
            if not disjoint(ex, K, lo, hi, a, b, False):
                raise Unsupported("iterations of a loop write overlapping cells of %s" % (flat(k),))


def injective(ex, w, K):
    return False


def disjoint(ex, K, lo, hi, a, b, anyiter):
    """cells written by a in iteration K and by b in a different iteration K2 differ"""
    K2 = ex.fresh("oth", "I")
    ren = dict((v, ex.fresh("pv", "I")) for v in b.vars)
    ren[K] = K2
    ext = {}
    for v, (x, y) in (b.extra or {}).items():
        if v in ren:
            ext[ren[v]] = (subst(x, ren), subst(y, ren))
    ext[K2] = (lo, hi)
    w2 = Write([subst(i, ren) for i in b.idx], num(0), subst(b.guard, ren),
               tuple(ren[v] for v in b.vars) + ((K2,) if any(mentions(subst(i, ren), {K2}) for i in b.idx) else ()),
               band(subst(b.dom, ren), le(lo, K2), lt(K2, hi), TRUE if anyiter else bnot(eq(K2, K))), extra=ext)
    save = dict(ex.bounds)
    ex.bounds.update(a.extra or {})
    try:
        m = ex.match(w2, list(a.idx))
    finally:
        ex.bounds = save
    if m is None:
        return False
    if m is False:
        return True
    return m[0] is FALSE
