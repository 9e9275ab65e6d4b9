"""read_2col under contract, for files with any number of lines.

A file is a ghost sequence of lines: line i has the first character ch0(i) and, cut at the separators, the tokens 0, 1, ...;
fgets gives the line at the ghost position and moves it, NULL at the end.  rank(i) is the number of lines before line i which are
not comments: rank(0) = 0, rank(i+1) = rank(i) + [ch0(i) != '#'].
"""
from dv.term import *
from dv.loops import changed
from dv.prove import int_valid
from dv.sym import Unsupported, Write, State, subst, mk
from specs.toolbox import ev
from specs.cli import OUTPUT, text, lit
from checks.toolbox import Run

BACK = "loop invariants (reading a file) + z3"
FAR = mk("app", ("new", "argument"), "P")
FILE = mk("app", ("new", "file"), "P")
POS, TOK, CUR = (fld(pointee(FILE), x) for x in ("#pos", "#tok", "#cur"))
N = app("nlines", (FILE,), "I")
Z, ONE = num(0, "I"), num(1, "I")


def keep(i):
    return bnot(eq(app("ch0", (i,), "I"), num(35, "I")))


def rank(i):
    return app("rank", (i,), "I")


def key_of(ex, loc):
    t = State()
    ex.write(t, loc, Z)
    return list(t.store)[0]


def fgets(ex, fr, st, v, n):
    if v[2] is not FILE:
        raise Unsupported("fgets from %s" % str(v[2])[:60])
    p = ex.read(st, POS, "I")
    more = ex.decide(lt(p, N), st)
    ex.write(st, pointee(v[0]), ite(more, app("ch0", (p,), "I"), ex.read(st, pointee(v[0]), "I")))
    ex.write(st, fld(pointee(v[0]), "#text"), app("line", (p,), "P"))
    ex.write(st, POS, ite(more, add(p, ONE), p))
    return ite(more, v[0], NULL)


def back(ex, fr, st, v, n):
    """fseek(data, 0, SEEK_SET), rewind(data)"""
    if v[0] is not FILE or any(ex.simp(toI(x)) is not Z for x in v[1:]):
        raise Unsupported("fseek elsewhere")
    ex.write(st, POS, Z)
    return Z


def strtok(ex, fr, st, v, n):
    if set(lit(v[1]) or "") != set(",\t: "):
        raise Unsupported("separators %r" % lit(v[1]))
    more = v[0] is NULL
    ln, k = (ex.read(st, CUR, "P"), ex.read(st, TOK, "I")) if more else (text(ex, st, v[0]), Z)
    ex.write(st, CUR, ln)
    ex.write(st, TOK, add(k, ONE))
    return app("token", (ln, k), "P")


def reading(ex, fr, cond, inc, body, st, exits):
    """a loop which reads the file from its beginning, one line in each iteration, to the end.  Invariant, at line h: the position is h; an
    integer is init + h or init + rank(h); nothing is assumed of what else an iteration changes.  Each is proved for one iteration with any h."""
    h = ex.fresh("it", "I")
    ex.N.bound_below(h, 0, True)
    ctx = band(le(Z, h), lt(h, N))
    ghosts = [key_of(ex, x) for x in (POS, TOK, CUR)]
    pos = ghosts[0]

    def step(s, under):
        s.pc = TRUE
        c = toB(ex.ev(fr, cond, s))
        s.pc = under
        my, n0 = [], len(s.events)
        o = ex.ex(fr, body, s, my)
        if any(e.kind != "continue" for e in my):
            raise Unsupported("a reading loop is left early")
        o = ex.join(([o] if o is not None else []) + [e.state for e in my])
        if o is None or len(o.events) != n0:
            raise Unsupported("a reading loop does something else")
        if inc.get("kind"):
            ex.ev(fr, inc, o)
        return c, o
    save = dict(ex.bounds)
    ex.discover += 1
    try:
        if not cond.get("kind"):
            return None
        try:
            c, o = step(st.copy(), TRUE)
        except Unsupported:
            return None
        ks = changed(st.store, o.store)
        if pos not in ks:
            return None
        one_cell = lambda k: st.store.get(k) and o.store[k][-1].idx == st.store[k][-1].idx and all(x.op == "num" for x in st.store[k][-1].idx)
        ints = [k for k in ks if one_cell(k) and st.store[k][-1].val.sort == "I" and k not in ghosts[1:]]
        init = {k: st.store[k][-1].val for k in ints}
        if pos not in init or init[pos] is not Z:
            raise Unsupported("the file is not read from its beginning")
        head = st.copy()
        for k in ks:
            if k not in ints:
                head.store.pop(k, None)
        g = {k: h if k == pos else ex.fresh("g", "I") for k in ints}

        def at(forms, pc=TRUE):
            s = head.copy()
            for k in ints:
                s.store[k] = (Write(st.store[k][-1].idx, forms(k)),)
            s.pc = pc
            return s

        def holds(c):
            return int_valid(bor(bnot(ctx), c)) is None
        kept = ite(keep(h), ONE, Z)
        while True:
            c, o = step(at(lambda k: g[k]), ctx)
            form, free = {}, []
            for k in ints:
                new = o.store[k][-1].val
                if holds(eq(new, add(g[k], ONE))):
                    form[k] = lambda i, k=k: add(init[k], i)
                elif holds(eq(new, add(g[k], kept))):
                    form[k] = lambda i, k=k: add(init[k], rank(i))
                else:
                    free.append(k)
            if not free:
                break
            for k in free:
                ints.remove(k)
                head.store[k] = (Write(st.store[k][-1].idx, ex.fresh("any", "I")),)
        if pos not in form:
            raise Unsupported("the lines are not read one by one")
        c, o = step(at(lambda k: form[k](h)), ctx)
        if int_valid(bor(bnot(band(le(Z, h), le(h, N))), eq(c, lt(h, N)))) is not None:
            raise Unsupported("the loop runs while %s" % str(c)[:100])
        for k in ints:
            if not holds(eq(subst(form[k](add(h, ONE)), {rank(add(h, ONE)): add(rank(h), kept)}), o.store[k][-1].val)):
                raise Unsupported("invariant of %s" % str(k)[:80])
        for k in ks:
            if k not in ints and k not in ghosts:
                w = o.store[k]
                n0 = len(head.store.get(k) or ())
                end_ = [x for x in w[n0:]] if w[:n0] == (head.store.get(k) or ()) else list(w)
                ev(head, "filtered", (k, h, tuple(end_)))
        end = at(lambda k: N if k == pos else subst(form[k](N), {rank(Z): Z}), st.pc)
        ex.ev(fr, cond, end)
        return end
    finally:
        ex.discover -= 1
        ex.bounds = save


def contracts(present):
    con = dict(OUTPUT)
    con.update({"fgets": fgets, "fseek": back, "rewind": back, "strtok": strtok})
    con["atof"] = lambda ex, fr, st, v, n: app("atof", (v[0],), "R")
    con["strtod"] = lambda ex, fr, st, v, n: app("atof", (v[0],), "R")

    def fopen(ex, fr, st, v, n):
        ev(st, "fopen", (text(ex, st, v[0]), lit(v[1])))
        ex.write(st, POS, Z)
        ex.unsigned_terms.add(N)
        ex.N.bound_below(N, 0, True)
        return FILE if present else NULL
    con["fopen"] = fopen
    return con


class Read(Run):
    RULES = [reading]


def two_columns():
    """every line which is no comment gives one row, in order, of its first two columns; *len is their number; the file is closed.  A file
    which cannot be opened is reported and nothing is stored."""
    v1, v2, ln = [sym(x, "P") for x in ("values1", "values2", "length")]
    R = Read("read_2col", [FAR, v1, v2, ln], contracts=contracts(False))
    if int_valid(bnot(eq(toI(R.v), Z))) is not None:
        return "a file which cannot be opened: %s is returned" % str(R.v)[:60]
    for p, s in ((v1, "P"), (v2, "P"), (ln, "I")):
        w = R.same(R.read(pointee(p), s), R.ex.read(State(), pointee(p), s), "without a file")
        if w:
            return w
    R = Read("read_2col", [FAR, v1, v2, ln], contracts=contracts(True))
    e = R.one("fopen")
    if e[0] is not text(R.ex, State(), FAR) or e[1] not in ("r", "rb"):
        return "another file is opened"
    w = R.same(toI(R.v), Z, "returned") or R.same(R.read(pointee(ln), "I"), rank(N), "number of rows")
    if w:
        return w
    if R.one("fclose")[0] is not FILE:
        return "the file is not closed"
    ptr = [R.read(pointee(p), "P") for p in (v1, v2)]
    if ptr[0] is ptr[1] or any(p.op != "app" or p.args[0] != "new" for p in ptr):
        return "the columns are not in memory of their own"
    mem = R.events("coffe_malloc", "malloc", "calloc")
    if len(mem) != 2:
        return "%d pieces of memory" % len(mem)
    for m in mem:
        size = m[1][0]
        for a in m[1][1:]:
            size = mul(size, a)
        w = R.same(size, mul(rank(N), sym("sizeof<double>", "I")), "memory of a column")
        if w:
            return w
    for j, p in enumerate(ptr):
        key = key_of(R.ex, pointee(p))
        f = [e[1] for e in R.st.events if e[0] == "filtered" and e[1][0] == key]
        if len(f) != 1 or R.st.store.get(key):
            return "column %d is written by %d loops" % (j + 1, len(f))
        _, h, ws = f[0]
        if len(ws) != 1 or ws[0].vars or len(ws[0].idx) != 1:
            return "column %d has %d entries of one line" % (j + 1, len(ws))
        ctx = band(le(Z, h), lt(h, N))
        guard = ws[0].guard
        if int_valid(bor(bnot(ctx), eq(guard, keep(h)))) is not None:
            return "column %d is written if %s" % (j + 1, str(guard)[:100])
        if int_valid(bor(bnot(band(ctx, keep(h))), eq(ws[0].idx[0], rank(h)))) is not None:
            return "the row of a line is %s" % str(ws[0].idx[0])[:100]
        w = R.same(ws[0].val, app("atof", (app("token", (app("line", (h,), "P"), num(j, "I")), "P"),), "R"), "column %d" % (j + 1))
        if w:
            return w
    return None


def ranks():
    """lines which are no comments have different rows, below the number of rows (induction on the later line)"""
    i, j = sym("i", "I"), sym("j", "I")
    nxt = lambda x: add(rank(x), ite(keep(x), ONE, Z))
    # rank(i) < rank(j) for i < j, line i no comment: j = i + 1, then j -> j + 1
    for c in (bor(bnot(keep(i)), lt(rank(i), nxt(i))), bor(bnot(lt(rank(i), rank(j))), lt(rank(i), nxt(j)))):
        w = int_valid(c)
        if w is not None:
            return w
    return None
