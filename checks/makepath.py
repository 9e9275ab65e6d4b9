"""output_make_path under contract, for paths with any number of components.

The text of the path is cut at '/' into comp(0), comp(1), ...; the loop over them is summarised with the invariant that at component h the
text built so far is the fold of what one iteration appends, strtok having given components 0 .. h.
"""
from dv.term import *
from dv.loops import changed
from dv.prove import int_valid
from dv.sym import Unsupported, Write, State, subst, mk, subterms
from specs.toolbox import ev
from specs.cli import OUTPUT, text, lit, cat, piece, ispiece, where
from checks.toolbox import Run

BACK = "loop invariants (components of a path)"
PATH = mk("app", ("new", "path"), "P")
Z, ONE = num(0, "I"), num(1, "I")
GHOST = mk("app", ("new", "strtok"), "P")
TOK, SRC = (fld(pointee(GHOST), x) for x in ("#tok", "#src"))
T0 = app("T0", (), "P")
C0 = app("char", (T0, Z), "I")


def char(t, i):
    return app("char", (t, i), "I")


def ncomp(t):
    return app("ncomp", (t,), "I")


def comp(t, i):
    return app("comp", (t, i), "P")


def content(ex, st, p):
    """the text of a buffer; one that starts with a zero is empty"""
    s = lit(p)
    if s is not None:
        return cat(piece(s))
    if p.op == "app" and p.args[0] in ("comp", "ite"):
        return p
    t = State()
    ex.write(t, where(p), Z)
    if list(t.store)[0] not in st.store and ex.simp(ex.read(st, pointee(p), "I")) is Z:
        return cat()
    return text(ex, st, p)


def put(ex, st, p, t):
    ex.write(st, where(p), t)
    i = ex.fresh("i", "I")
    w = State()
    ex.write(w, pointee(p), Z)
    k, ws = list(w.store.items())[0]
    st.store[k] = (Write((i,), char(t, i), vars=(i,)),)


def c_copy(ex, fr, st, v, n):
    put(ex, st, v[0], content(ex, st, v[1]))
    return v[0]


def c_append(ex, fr, st, v, n):
    put(ex, st, v[0], cat(content(ex, st, v[0]), content(ex, st, v[1])))
    return v[0]


def c_stat(ex, fr, st, v, n):
    return app("stat", (content(ex, st, v[0]),), "I")


def c_mkdir(ex, fr, st, v, n):
    ev(st, "mkdir", (content(ex, st, v[0]), toI(v[1])))
    return Z


def c_strtok(ex, fr, st, v, n):
    if lit(v[1]) != "/":
        raise Unsupported("separators %r" % lit(v[1]))
    t, k = (ex.read(st, SRC, "P"), ex.read(st, TOK, "I")) if v[0] is NULL else (content(ex, st, v[0]), Z)
    ex.write(st, SRC, t)
    ex.write(st, TOK, add(k, ONE))
    return ite(lt(k, ncomp(t)), comp(t, k), NULL)


def loop(ex, fr, cond, inc, body, st, exits):
    if not cond.get("kind"):
        return None
    tok = key(ex, TOK)
    if tok not in st.store:
        return None
    src = ex.read(st, SRC, "P")
    nc = ncomp(src)
    h = ex.fresh("it", "I")
    ex.N.bound_below(h, 0, True)
    ex.discover += 1
    try:
        def step(s, pc):
            s.pc = TRUE
            c = toB(ex.ev(fr, cond, s))
            s.pc = pc
            my = []
            n0 = len(s.events)
            o = ex.ex(fr, body, s, my)
            if my or o is None:
                raise Unsupported("the loop is left early")
            if inc.get("kind"):
                ex.ev(fr, inc, o)
            return c, o, o.events[n0:]
        cur = lambda i: ite(lt(i, nc), comp(src, i), NULL)
        ks = changed(st.store, step(st.copy(), TRUE)[1].store)
        if tok not in ks:
            return None
        if ex.read(st, TOK, "I") is not ONE:
            raise Unsupported("the first component is not the first")
        head = st.copy()
        acc = []
        for k in ks:
            w = st.store.get(k)
            if k == tok:
                head.store[k] = (Write(w[-1].idx, add(h, ONE)),)
            elif k == key(ex, SRC):
                pass
            elif w and not w[-1].vars and w[-1].val is cur(Z):
                head.store[k] = (Write(w[-1].idx, comp(src, h)),)       # in the body it is not NULL
                acc.append((k, "cur", w))
            elif str(k).endswith("'#text')") and (not w or not w[-1].vars):
                acc.append((k, "text", w))
            else:
                head.store.pop(k, None)
        texts = [a for a in acc if a[1] == "text"]
        if len(texts) != 1 or len([a for a in acc if a[1] == "cur"]) != 1:
            raise Unsupported("the loop changes %s" % ", ".join(str(a[0])[:60] for a in acc))
        kt, kc = texts[0][0], [a[0] for a in acc if a[1] == "cur"][0]
        base = texts[0][2]
        init = base[-1].val if base else cat()
        idx = base[-1].idx if base else step(head.copy(), TRUE)[1].store[kt][-1].idx
        so_far = app("prefix", (h,), "P")
        head.store[kt] = (Write(idx, so_far),)
        c, o, evs = step(head.copy(), TRUE)
        t = head.copy()
        t.store[kc] = (Write(t.store[kc][-1].idx, cur(h)),)
        t.pc = TRUE
        c = toB(ex.ev(fr, cond, t))
        if int_valid(eq(subst(c, {eq(NULL, comp(src, h)): FALSE, eq(comp(src, h), NULL): FALSE}), lt(h, nc))) is not None:
            raise Unsupported("the loop runs while %s" % str(c)[:100])
        if not ex.same(o.store[tok][-1].val, add(h, num(2, "I"))) or o.store[kc][-1].val is not cur(add(h, ONE)):
            raise Unsupported("the components are not taken one by one")
        end = head.copy()
        end.store[kt] = (Write(idx, app("prefix", (nc,), "P")),)
        end.store.pop(kc, None)
        end.store[tok] = (Write(st.store[tok][-1].idx, add(nc, ONE)),)
        end.pc = st.pc
        ev(end, "components", (src, h, init, so_far, o.store[kt][-1].val, tuple(evs)))
        return end
    finally:
        ex.discover -= 1


def key(ex, loc):
    t = State()
    ex.write(t, loc, Z)
    return list(t.store)[0]


class Make(Run):
    RULES = [loop]


def make_path():
    """an existing directory is left alone; otherwise each missing directory on the way is made, from the first to the last, readable by its owner;
    the path ends in one slash; the empty path is the current directory"""
    con = dict(OUTPUT)
    con.update({"strncpy": c_copy, "strcpy": c_copy, "strncat": c_append, "strcat": c_append, "stat": c_stat, "mkdir": c_mkdir, "strtok": c_strtok,
                "strlen": lambda ex, fr, st, v, n: app("strlen", (content(ex, st, v[0]),), "I")})
    con.pop("output_make_path", None)
    start = []

    def pre(ex, st):
        put(ex, st, PATH, start[0])
    def fix(R, t, m):
        """facts about the text of the path; characters and lengths of literals"""
        for _ in range(4):
            d = dict(m)
            for x in subterms(t):
                if x.op == "app" and x.args[0] in ("char", "strlen") and isinstance(x.args[1], Term) and x.args[1].op == "app" and x.args[1].args[0] == "cat":
                    ps = x.args[1].args[1:]
                    if all(ispiece(p) for p in ps):
                        l = "".join(p.args[1] for p in ps)
                        if x.args[0] == "strlen":
                            d[x] = num(len(l), "I")
                        elif x.args[2].op == "num" and 0 <= x.args[2].args[0] <= len(l):
                            d[x] = num(ord((l + chr(0))[int(x.args[2].args[0])]), "I")
            t = R.ex.simp(subst(t, d))
        return t
    DOT = cat(piece("./"))
    for t, T, m in ((cat(), DOT, {}), (T0, T0, {eq(Z, C0): FALSE, eq(C0, Z): FALSE})):
        start[:] = [t]
        R = Make("output_make_path", [PATH], tus=("output.c",), contracts=con, pre=pre)
        if fix(R, toI(R.v), m) is not Z:
            return "returned is %s" % str(R.v)[:80]
        ev_ = [e for e in R.st.events if e[0] in ("components", "mkdir")]
        if len(ev_) != 1 or ev_[0][0] != "components":
            return "directories are made in another way"
        exists = app("stat", (T,), "I")
        g = fix(R, ev_[0][2], m)
        if g.op in ("true", "false") or int_valid(bor(bnot(bor(eq(exists, Z), eq(exists, num(-1, "I")))), eq(g, bnot(eq(exists, Z))))) is not None:
            return "the components are gone through if %s" % str(g)[:100]
        src, h, init, so_far, after, made = ev_[0][1]
        f = lambda x: fix(R, x, m)
        if f(src) is not T:
            return "the components of %s" % str(f(src))[:80]
        for b, w in ((TRUE, cat(piece("/"))), (FALSE, cat())):
            i0 = f(init) if T is DOT else R.ex.simp(subst(f(init), {eq(num(47, "I"), C0): b, eq(C0, num(47, "I")): b}))
            if i0 is not (w if T is T0 else cat()):
                return "the path starts with %s" % str(i0)[:80]
        here = cat(so_far, comp(T, h))
        if f(after) is not cat(here, piece("/")):
            return "a component adds %s" % str(f(after))[:100]
        if len(made) != 1 or made[0][0] != "mkdir" or f(made[0][1][0]) is not here:
            return "the directory made is %s" % ", ".join(str(x[1])[:80] for x in made)
        if made[0][1][1].op != "num" or int(made[0][1][1].args[0]) & 0o700 != 0o700:
            return "made with mode %s" % made[0][1][1]
        there = app("stat", (here,), "I")
        if int_valid(bor(bnot(bor(eq(there, Z), eq(there, num(-1, "I")))), eq(f(made[0][2]), bnot(eq(there, Z))))) is not None:
            return "a directory is made if %s" % str(f(made[0][2]))[:100]
        end = f(text(R.ex, R.st, PATH))
        for there, x in ((Z, T), (num(-1, "I"), app("prefix", (ncomp(T),), "P"))):
            last = char(x, sub(app("strlen", (x,), "I"), ONE))
            for b in (TRUE, FALSE):
                if x is DOT and b is FALSE:
                    continue
                got = fix(R, end, dict(m) | {exists: there, eq(last, num(47, "I")): b, eq(num(47, "I"), last): b})
                if got is not (x if b is TRUE else cat(x, piece("/"))):
                    return "the path ends as %s" % str(got)[:200]
    return None
