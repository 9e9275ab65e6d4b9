"""Symbolic execution of C functions, one function at a time, against contracts.

Callees with a contract are replaced by it; callees without one (static helpers) are
executed in place, so extracting or inlining a helper does not change the verdict.
Branches are merged, loops are summarised by inferred invariants which are then
re-checked (initiation / consecution) as obligations.
"""
import re
from fractions import Fraction
from . import term as T
from .limit import tick
from .term import *
from .cast import sort_of, strip, is_unsigned
from .nf import Norm, NFError
from .ints import Ints


class Unsupported(Exception):
    """the construct is outside the verifier's reach: no verdict"""


class Write(object):
    __slots__ = ("idx", "val", "guard", "vars", "dom", "kind", "extra")

    def __init__(self, idx, val, guard=TRUE, vars=(), dom=TRUE, kind="w", extra=None):
        self.idx, self.val, self.guard, self.vars, self.dom, self.kind = tuple(idx), val, guard, tuple(vars), dom, kind
        self.extra = extra

    def __repr__(self):
        return "Write(%s := %s if %s%s)" % (self.idx, self.val, self.guard,
                                            " forall %s: %s" % (self.vars, self.dom) if self.vars else "")


def subst(t, m, memo=None):
    """substitute terms (dict Term->Term)"""
    if memo is None:
        memo = {}
    if not isinstance(t, Term):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ("num", "sym", "var", "func", "strlit"):
        return t
    na = [subst(a, m, memo) for a in t.args]
    if all(x is y for x, y in zip(na, t.args)):
        r = t
    else:
        r = rebuild(t.op, na, t.sort)
    memo[t] = r
    return r


def rebuild(op, a, sort):
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "ite":
        return ite(*a)
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(*a)
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "powi":
        return powi(a[0], a[1])
    if op == "inv":
        return div(num(1), a[0])
    if op == "toR":
        return toR(a[0])
    if op == "addr":
        return addr(a[0])
    if op == "obj" and a[0].op == "addr":
        l = a[0].args[0]
        return mk("obj", a, sort)
    if op == "app":
        if a[0] == "idiv":
            return idiv(a[1], a[2])
        if a[0] == "imod":
            return imod(a[1], a[2])
        return mk("app", a, sort)
    return mk(op, a, sort)


def mentions(t, syms, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, Term):
        return False
    if t in syms:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    r = any(mentions(a, syms, memo) for a in t.args if isinstance(a, Term))
    memo[t] = r
    return r


def subterms(t, out=None):
    if out is None:
        out = set()
    if not isinstance(t, Term) or t in out:
        return out
    out.add(t)
    for a in t.args:
        subterms(a, out)
    return out


class State(object):
    def __init__(self):
        self.store = {}     # abstract path -> tuple of Write
        self.pc = TRUE
        self.events = ()    # ghost trace: (kind, args..., guard)

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.pc = self.pc
        s.events = self.events
        return s


class Exit(object):
    def __init__(self, kind, state, value=None):
        self.kind, self.state, self.value = kind, state, value


class Program(object):
    def __init__(self, tus):
        self.tus = tus
        self.fn = {}
        for tu in tus:
            for n, d in tu.functions.items():
                self.fn.setdefault(n, (tu, d))

    def find(self, name, tu=None):
        if tu is not None and name in tu.functions:
            return tu, tu.functions[name]
        return self.fn.get(name)


MAXUNROLL = 80


class Executor(Ints):
    def __init__(self, program, contracts, facts=(), max_inline=8):
        self.loopstack, self.loop_rules, self.loop_info, self.frames = [], [], [], []
        self.omp_next = None
        self.live_markers = []
        self.loop_guess, self.loop_shape = {}, {}
        self.discover = 0       # > 0 while the shape of a loop is being found: nothing concluded is kept
        self.callpath, self.iterpath = [], []
        self.constants = {}     # values of const file-scope objects
        self._idxintern = {}
        self.ints_init()
        self.P = program
        self.contracts = contracts
        self.depth = 0
        self.max_inline = max_inline
        self.fresh_n = 0
        self.N = Norm()          # index arithmetic normaliser
        self.base_sort = {}
        self.loadlog = None
        self.obligations = []    # (name, bool-term or callable)
        self.facts = list(facts)
        self.calls = []          # functions inlined
        self.unsigned_terms = set()
        self.trusted = set()
        self.inlined = set()
        self.used_contracts = set()
        self.omp_loops = []

    # ---- helpers ------------------------------------------------------------
    def fresh(self, name, sort="R"):
        self.fresh_n += 1
        return sym("%s!%d" % (name, self.fresh_n), sort)

    def normi(self, t):
        """canonical form of an index term"""
        if t.op in ("num", "sym"):
            return t
        try:
            p = self.N.nf(t)
        except NFError:
            return t
        if len(p) == 0:
            return num(0, "I")
        if len(p) == 1 and () in p:
            return num(p[()], "I")
        # rebuild deterministically only when simple; otherwise intern by key
        k = (self.N.pkey(p))
        c = self._idxintern.get(k)
        if c is None:
            self._idxintern[k] = t
            c = t
        return c



    def same(self, a, b):
        if a is b:
            return True
        try:
            return not self.N.diff(a, b)
        except NFError:
            return False

    def distinct(self, a, b):
        """provably different indices (syntactic: non-zero constant difference)"""
        try:
            d = self.N.diff(a, b)
        except NFError:
            return False
        return len(d) == 1 and () in d

    def absloc(self, loc):
        """location -> (abstract path, index list)"""
        op = loc.op
        if op == "var":
            return ("var", loc.args[0]), []
        if op == "fld":
            k, i = self.absloc(loc.args[0])
            return (k, loc.args[1]), i
        if op == "idx":
            k, i = self.absloc(loc.args[0])
            return (k, "*"), i + [loc.args[1]]
        if op == "obj":
            p = loc.args[0]
            if p.op == "app" and p.args[0] == "new":
                return ("obj", ("new", p.args[1])), list(p.args[2:])
            if p.op == "load":
                # a pointer stored in an array: rows of an array of pointers are separate objects
                k, i = self.absloc(p.args[0])
                if i:
                    return ("obj", ("at", k)), i
            return ("obj", p), []
        if op == "iteL":
            raise Unsupported("location ite")
        raise Unsupported("location %s" % op)

    # ---- memory -------------------------------------------------------------
    def base(self, loc, sort):
        if sort == "P":
            return mk("load", (loc,), "P")
        return mk("load", (loc,), sort)

    def canon(self, loc):
        if loc.op == "idx":
            b = self.canon(loc.args[0])
            return idx(b, self.normi(loc.args[1]))
        if loc.op == "fld":
            return fld(self.canon(loc.args[0]), loc.args[1])
        return loc

    def read(self, st, loc, sort):
        if loc.op == "iteL":
            return ite(loc.args[0], self.read(st, loc.args[1], sort), self.read(st, loc.args[2], sort))
        loc = self.canon(loc)
        k, ix = self.absloc(loc)
        ws = st.store.get(k)
        if self.loadlog is not None:
            self.loadlog.append((k, tuple(ix), loc))
        hook = self.readhook(loc, sort)
        if not ws:
            # copied-over prefix?
            return hook if hook is not None else self.base(loc, sort)
        return self.read_writes(list(ws), ix, loc, sort)

    def readhook(self, loc, sort):
        return self.constglobal(loc, sort)

    def constglobal(self, loc, sort, tu=None):
        """the initialiser of a const file-scope object"""
        ix, l = [], loc
        while l.op == "idx":
            if l.args[1].op != "num":
                return None
            ix.append(int(l.args[1].args[0]))
            l = l.args[0]
        if l.op != "var" or not l.args[0].startswith("global:") or not (self.frames or tu):
            return None
        tu = tu or self.frames[-1].tu
        ds = [d for d in tu.globals.values() if d["name"] == l.args[0][7:] and d.get("init")]
        if len(ds) != 1 or not re.search(r"\bconst\b", ds[0]["type"]["qualType"]) or "*" in ds[0]["type"]["qualType"]:
            return None
        key = (id(tu), ds[0]["id"]) + tuple(ix)
        if key not in self.constants:
            e = [c for c in ds[0].get("inner", ()) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))][-1]
            v = None
            for i in reversed(ix):
                inner = e.get("inner", ()) if e.get("kind") == "InitListExpr" else None
                if inner is None or "array_filler" in e or i >= len(inner):
                    e = None
                    break
                e = inner[i]
            if e is not None and e.get("kind") != "InitListExpr":
                v = self.ev(Frame(tu, "const", self), e, State())
            self.constants[key] = v
        v = self.constants[key]
        return None if v is None else self.coerce(v, sort)

    def read_writes(self, ws, ix, loc, sort):
        cases = []  # (cond, value)
        result = None
        for w in reversed(ws):
            if w.kind == "loophead":
                w.extra.append((tuple(ix), dict(self.bounds)))
                continue
            if w.kind == "havoc":
                result = mk("app", ("havoc", w.val, loc), sort)
                break
            if w.vars:
                m = self.match(w, ix)
                if m is None:
                    if self.discover:
                        result = mk("app", ("havoc", self.fresh("unknown"), loc), sort)
                        break
                    raise Unsupported("cannot resolve a read of %s against a loop-written region" % loc)
                if m is False:
                    continue
                cond, v = m
            else:
                if len(w.idx) != len(ix):
                    raise Unsupported("index arity: %s against %s" % (loc, w.idx))
                conds = []
                skip = False
                for a, b in zip(w.idx, ix):
                    if self.same(a, b):
                        continue
                    if self.distinct(a, b) or self.facts_distinct(a, b):
                        skip = True
                        break
                    conds.append(eq(a, b))
                if skip:
                    continue
                cond = band(w.guard, *conds)
                v = w.val
            if cond is TRUE:
                result = v
                break
            cases.append((cond, v))
        if result is None:
            h = self.readhook(loc, sort)
            result = h if h is not None else self.base(loc, sort)
        for cond, v in reversed(cases):
            result = ite(cond, self.coerce(v, sort), result)
        return self.coerce(result, sort)

    def facts_distinct(self, a, b):
        if not self.bounds and not self.hyps:
            return False
        return self.prove_lt(a, b) or self.prove_lt(b, a)

    def coerce(self, v, sort):
        if sort == "R" and v.sort in ("I", "B"):
            return toR(v)
        if sort == "I" and v.sort == "B":
            return toI(v)
        if sort == "I" and v.sort == "R":
            return toI(v)
        return v

    def match(self, w, ix):
        """solve w.idx(vars) = ix.  Returns None (unknown), False (no), (cond, value)"""
        m = {}
        if len(w.idx) != len(ix):
            return None
        conds = []
        for e, target in zip(w.idx, ix):
            vs = [v for v in w.vars if mentions(e, {v})]
            if not vs:
                if self.same(e, target):
                    continue
                if self.distinct(e, target):
                    return False
                conds.append(eq(e, target))
                continue
            r = self.unify(e, target, vs, w.extra or {})
            if r is None:
                return None
            r, c = r
            conds.append(c)
            for v, tv in r.items():
                if v in m:
                    if not self.same(m[v], tv):
                        conds.append(eq(m[v], tv))
                else:
                    m[v] = tv
        if set(m) != set(w.vars):
            return None
        cond = self.simpb(band(subst(w.dom, m), subst(w.guard, m), *[subst(c, m) for c in conds]))
        if cond is FALSE:
            return False
        return cond, (self.simp(subst(w.val, m)) if w.val is not None else None)

    def unify(self, e, target, vs, extra=()):
        r = self.solve(e, target, vs, extra or {})
        if r is not None:
            return r
        # structural: same polynomial up to renaming of the comprehension variables
        cand = [s for s in subterms(target) if s.op == "sym" and s.sort == "I"]
        import itertools
        if len(vs) > 1 and len(cand) <= 6 and False:
            for perm in itertools.permutations(cand, len(vs)):
                if self.same(subst(e, dict(zip(vs, perm))), target):
                    return dict(zip(vs, perm)), TRUE
        return None

    def write(self, st, loc, v, tname=None):
        if loc.op == "iteL":
            c, a, b = loc.args
            ra = self.read(st, a, v.sort)
            rb = self.read(st, b, v.sort)
            self.write(st, a, ite(c, v, ra))
            self.write(st, b, ite(c, rb, v))
            return
        loc = self.canon(loc)
        k, ix = self.absloc(loc)
        w = Write(ix, v)
        if not ix or all(i.op == "num" for i in ix):
            old = [x for x in st.store.get(k, ()) if x.vars or x.kind == "havoc" or
                   not (len(x.idx) == len(ix) and all(a is b for a, b in zip(x.idx, ix)))] if ix else []
            st.store[k] = tuple(old) + (w,)
        else:
            st.store[k] = st.store.get(k, ()) + (w,)

    def merge(self, c, s1, s2):
        """state that is s1 when c and s2 otherwise"""
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        s = State()
        s.pc = bor(s1.pc, s2.pc)
        for k in set(s1.store) | set(s2.store):
            a, b = s1.store.get(k, ()), s2.store.get(k, ())
            if a == b or (len(a) == len(b) and all(x is y for x, y in zip(a, b))):
                s.store[k] = a
                continue
            noidx = all(not w.idx and not w.vars and w.kind == "w" for w in a + b)
            if noidx:
                loc = self.loc_of(k)
                sort = (a or b)[-1].val.sort
                va = a[-1].val if a else None
                vb = b[-1].val if b else None
                if va is None:
                    va = self.base_of(k, sort)
                if vb is None:
                    vb = self.base_of(k, sort)
                s.store[k] = (Write((), self.itev(c, va, vb)),)
            else:
                n = 0
                while n < len(a) and n < len(b) and a[n] is b[n]:
                    n += 1
                ws = list(a[:n])
                # same tail length & same indices: pairwise merge
                ta, tb = a[n:], b[n:]
                if len(ta) == len(tb) and all(
                        len(x.idx) == len(y.idx) and all(self.same(p, q) for p, q in zip(x.idx, y.idx))
                        and not x.vars and not y.vars and x.guard is TRUE and y.guard is TRUE
                        and x.kind == y.kind == "w" for x, y in zip(ta, tb)):
                    for x, y in zip(ta, tb):
                        ws.append(Write(x.idx, self.itev(c, x.val, y.val)))
                else:
                    for w in ta:
                        ws.append(self.guarded(w, c))
                    for w in tb:
                        ws.append(self.guarded(w, bnot(c)))
                s.store[k] = tuple(ws)
        if s1.events == s2.events:
            s.events = s1.events
        else:
            n = 0
            e1, e2 = s1.events, s2.events
            while n < len(e1) and n < len(e2) and e1[n] == e2[n]:
                n += 1
            s.events = e1[:n] + tuple((e[0], e[1], band(e[2], c)) for e in e1[n:]) + \
                tuple((e[0], e[1], band(e[2], bnot(c))) for e in e2[n:])
        return s

    def itev(self, c, a, b):
        if a is b:
            return a
        return ite(c, a, b)

    def guarded(self, w, c):
        return Write(w.idx, w.val, band(w.guard, c), w.vars, w.dom, w.kind, w.extra)

    def loc_of(self, k):
        if k[0] == "var":
            return var(k[1])
        if k[0] == "obj":
            return obj(k[1])
        if k[1] == "*":
            return None
        b = self.loc_of(k[0])
        return None if b is None else fld(b, k[1])

    def base_of(self, k, sort):
        loc = self.loc_of(k)
        if loc is None:
            raise Unsupported("merge of indexed location")
        h = self.readhook(loc, sort)
        return h if h is not None else self.base(loc, sort)

    # ---- functions ----------------------------------------------------------
    def call_function(self, tu, d, args, st):
        """inline execution. returns value term (or None); st updated in place.
        Raises Diverges if no path returns."""
        if self.depth > self.max_inline:
            raise Unsupported("inline depth (recursion?) at %s" % d["name"])
        self.depth += 1
        frame = Frame(tu, d["name"], self)
        self.frames.append(frame)
        params = [c for c in d.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        body = [c for c in d["inner"] if c.get("kind") == "CompoundStmt"][0]
        for p, a in zip(params, args):
            loc = frame.declare(p)
            s = sort_of(tu, p["type"])
            if s == "S":
                # by-value struct: args carries a location
                if a.sort == "L":
                    self.copy_struct(tu, p["type"], loc, a, st)
                    continue
            self.write(st, loc, self.coerce(a, s))
        exits = []
        live = self.ex(frame, body, st, exits)
        self.frames.pop()
        rets = [e for e in exits if e.kind == "return"]
        bad = [e for e in exits if e.kind not in ("return", "die")]
        if bad:
            raise Unsupported("exit kind %s" % bad[0].kind)
        outs = [(e.state, e.value) for e in rets]
        if live is not None:
            outs.append((live, None))
        self.depth -= 1
        if not outs:
            return None, None
        rs, rv = outs[-1]
        for s, v in reversed(outs[:-1]):
            c = s.pc
            if rv is not None and v is not None:
                rv = ite(c, v, rv)
            elif v is not None:
                rv = v
            rs = self.merge(c, s, rs)
        if rv is None or rv.sort != "L":
            self.drop_locals(rs, frame)
        return rs, rv

    def drop_locals(self, st, frame):
        tail = "@%s.%d" % (frame.name, frame.uid)
        for k in list(st.store):
            r = k
            while r[0] not in ("var", "obj"):
                r = r[0]
            if r[0] == "var" and r[1].endswith(tail):
                del st.store[k]

    def is_live(self, root):
        if "@" not in root:
            return True
        return any(root.endswith("@%s.%d" % (f.name, f.uid)) for f in self.frames)

    # ---- statements ---------------------------------------------------------
    def ex(self, fr, n, st, exits):
        """execute; returns the normal-continuation state or None"""
        k = n.get("kind")
        m = getattr(self, "ex_" + k, None)
        if m is not None:
            return m(fr, n, st, exits)
        if k is None:
            return st
        # expression statement
        self.ev(fr, n, st)
        if st.pc is FALSE:
            return None
        return st

    def ex_CompoundStmt(self, fr, n, st, exits):
        for c in n.get("inner", ()):
            st = self.ex(fr, c, st, exits)
            if st is None:
                return None
        return st

    def ex_GhostMark(self, fr, n, st, exits):
        from .rules import ghost
        return ghost(self, fr, n, st, exits)

    def ex_NullStmt(self, fr, n, st, exits):
        return st

    def ex_DeclStmt(self, fr, n, st, exits):
        for d in n.get("inner", ()):
            if d.get("kind") == "VarDecl":
                self.declvar(fr, d, st)
                if st.pc is FALSE:
                    return None
        return st

    def declvar(self, fr, d, st):
        loc = fr.declare(d)
        # a re-declaration in a loop starts with an indeterminate value
        init = [c for c in d.get("inner", ()) if "Attr" not in c.get("kind", "") and c.get("kind") != "FullComment"]
        if d.get("init") and init:
            self.init(fr, d["type"], loc, init[-1], st)
        elif d.get("storageClass") == "static":
            pass

    def init(self, fr, ty, loc, e, st):
        s = sort_of(fr.tu, ty)
        e0 = e
        while e0["kind"] in ("ImplicitCastExpr", "ExprWithCleanups", "CompoundLiteralExpr", "ParenExpr") and s in "SA" and \
                e0.get("inner"):
            if e0["kind"] == "ImplicitCastExpr" and e0.get("castKind") == "LValueToRValue":
                break
            e0 = e0["inner"][0]
        if s == "S":
            if e0["kind"] == "InitListExpr":
                fields = fr.tu.fields_of(ty["qualType"] if isinstance(ty, dict) else ty)
                if fields is None:
                    raise Unsupported("initialiser of unknown record %s" % ty)
                inner = e0.get("inner", [])
                for (fname, fty), x in zip(fields, inner):
                    self.init(fr, fty, fld(loc, fname), x, st)
                for fname, fty in fields[len(inner):]:
                    self.zero(fr, fty, fld(loc, fname), st)
                return
            v = self.ev(fr, e, st)
            if v is not None and v.sort == "L":
                self.copy_struct(fr.tu, ty, loc, v, st)
            else:
                self.write(st, loc, v)
            return
        if s == "A":
            if e0["kind"] == "InitListExpr":
                ety = (ty["qualType"] if isinstance(ty, dict) else ty)
                elem = ety[:ety.rindex("[")].strip() if ety.endswith("]") and ety.count("[") == 1 else None
                inner = e0.get("inner") or []
                filler = e0.get("array_filler")
                if filler:
                    inner = filler[1:]
                for i, x in enumerate(inner):
                    if x.get("kind") == "ImplicitValueInitExpr":
                        self.write(st, idx(loc, num(i, "I")), num(0))
                    else:
                        self.init(fr, elem or x["type"], idx(loc, num(i, "I")), x, st)
                size = ety[ety.index("[") + 1:-1] if elem else ""
                if elem in ("char", "const char") and (not inner or inner[0].get("kind") == "ImplicitValueInitExpr" or self.ev(fr, inner[0], st) is num(0, "I")):
                    self.write(st, fld(idx(loc, num(0, "I")), "#text"), mk("app", ("cat",), "P"))
                elif size.isdigit() and int(size) <= 64 and sort_of(fr.tu, elem) in "RIP":
                    for i in range(len(inner), int(size)):
                        self.write(st, idx(loc, num(i, "I")), NULL if sort_of(fr.tu, elem) == "P" else num(0, sort_of(fr.tu, elem)))
                return
            if e0["kind"] in ("StringLiteral", "ImplicitValueInitExpr"):
                return
            raise Unsupported("array initialiser %s" % e0["kind"])
        if e0["kind"] == "ImplicitValueInitExpr":
            self.zero(fr, ty, loc, st)
            return
        v = self.ev(fr, e, st)
        self.write(st, loc, self.coerce(v, s))

    def zero(self, fr, ty, loc, st):
        s = sort_of(fr.tu, ty)
        if s in ("R", "I"):
            self.write(st, loc, num(0, s))
        elif s == "P":
            self.write(st, loc, NULL)
        elif s == "S":
            for fname, fty in fr.tu.fields_of(ty["qualType"] if isinstance(ty, dict) else ty) or ():
                self.zero(fr, fty, fld(loc, fname), st)

    def copy_struct(self, tu, ty, dst, src, st):
        fields = tu.fields_of(ty["qualType"] if isinstance(ty, dict) else ty)
        if fields is None:
            raise Unsupported("copy of unknown record %s" % ty)
        for fname, fty in fields:
            s = sort_of(tu, fty)
            if s in ("R", "I", "P"):
                self.write(st, fld(dst, fname), self.read(st, fld(src, fname), s))
            elif s == "S":
                self.copy_struct(tu, fty, fld(dst, fname), fld(src, fname), st)
            else:
                raise Unsupported("copy of array field")

    def ex_ReturnStmt(self, fr, n, st, exits):
        v = None
        if n.get("inner"):
            v = self.ev(fr, n["inner"][0], st)
        if st.pc is not FALSE:
            exits.append(Exit("return", st, v))
        return None

    def ex_BreakStmt(self, fr, n, st, exits):
        exits.append(Exit("break", st))
        return None

    def ex_ContinueStmt(self, fr, n, st, exits):
        exits.append(Exit("continue", st))
        return None

    def decide(self, c, st):
        """try to decide a branch condition with the normal form"""
        if c is TRUE or c is FALSE:
            return c
        try:
            p = self.N.nfb(c)
        except NFError:
            return c
        if not p:
            return FALSE
        if len(p) == 1 and p.get(()) == 1:
            return TRUE
        if self.bounds or self.hyps or self.bfacts:
            return self.simpb(c)
        return c

    def branch(self, fr, c, st, f_then, f_else):
        c = self.decide(c, st)
        if c is TRUE:
            return f_then(st)
        if c is FALSE:
            return f_else(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = band(st.pc, c)
        s2.pc = band(st.pc, bnot(c))
        if s1.pc is FALSE:
            return f_else(st)
        if s2.pc is FALSE:
            return f_then(st)
        pc1, pc2 = s1.pc, s2.pc
        r1 = f_then(s1)
        r2 = f_else(s2)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        s = self.merge(c, r1, r2)
        if r1.pc is pc1 and r2.pc is pc2:
            s.pc = st.pc
        return s

    def ex_IfStmt(self, fr, n, st, exits):
        inner = n["inner"]
        c = toB(self.ev(fr, inner[0], st))
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        return self.branch(fr, c, st,
                           lambda s: self.ex(fr, then, s, exits),
                           lambda s: self.ex(fr, els, s, exits) if els is not None else s)

    def ex_SwitchStmt(self, fr, n, st, exits):
        inner = n["inner"]
        v = self.ev(fr, inner[0], st)
        body = inner[-1]
        stmts = body.get("inner", []) if body["kind"] == "CompoundStmt" else [body]
        flat = []   # (labels, stmt)

        def unroll(s):
            labels = []
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    labels.append(("case", s["inner"][0]))
                    s = s["inner"][-1]
                else:
                    labels.append(("default", None))
                    s = s["inner"][-1]
            flat.append((labels, s))
        for s in stmts:
            unroll(s)
        conds = []
        allc = []
        for i, (labels, s) in enumerate(flat):
            for kind, e in labels:
                if kind == "case":
                    cv = self.constcase(fr, e, st)
                    c = eq(v, cv)
                    conds.append((i, c))
                    allc.append(c)
                else:
                    conds.append((i, None))
        nomatch = band(*[bnot(c) for c in allc])
        hasdef = any(c is None for _, c in conds)
        ends = []

        def run(i, s):
            for labels, stt in flat[i:]:
                s = self.ex(fr, stt, s, my)
                if s is None:
                    return None
            return s
        my = []
        for i, c in conds:
            cc = c if c is not None else nomatch
            cc = self.decide(cc, st)
            if cc is FALSE:
                continue
            s = st.copy()
            s.pc = band(st.pc, cc)
            if s.pc is FALSE:
                continue
            r = run(i, s)
            if r is not None:
                ends.append(r)
        if not hasdef:
            nm = self.decide(nomatch, st)
            if nm is not FALSE:
                s = st.copy()
                s.pc = band(st.pc, nm)
                ends.append(s)
        for e in my:
            if e.kind == "break":
                ends.append(e.state)
            else:
                exits.append(e)
        return self.join(ends)

    def constcase(self, fr, e, st):
        v = fr.tu.constval(e)
        if v is not None:
            return num(v, "I")
        return self.ev(fr, e, st)

    def join(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        r = states[-1]
        for s in reversed(states[:-1]):
            r = self.merge(s.pc, s, r)
        return r

    # OpenMP
    def ex_OMPParallelForDirective(self, fr, n, st, exits):
        loop = self.find_for(n)
        if loop is None:
            raise Unsupported("omp for without loop")
        self.omp_loops.append((fr.name, n))
        fr.omp = True
        fr.omp_body = loop["inner"][4]
        return self.ex(fr, loop, st, exits)

    def ex_OMPCriticalDirective(self, fr, n, st, exits):
        c = [x for x in n.get("inner", ()) if x.get("kind") == "CapturedStmt"]
        if c:
            d = c[0]["inner"][0]
            body = [x for x in d.get("inner", ()) if x.get("kind", "").endswith("Stmt")][0]
        else:
            body = [x for x in n.get("inner", ()) if x.get("kind", "").endswith("Stmt")][0]
        return self.ex(fr, body, st, exits)

    ex_OMPParallelDirective = ex_OMPCriticalDirective

    def find_for(self, n):
        if n.get("kind") == "ForStmt":
            return n
        for c in n.get("inner", ()):
            r = self.find_for(c)
            if r is not None:
                return r
        return None

    def ex_ForStmt(self, fr, n, st, exits):
        init, cv, cond, inc, body = n["inner"]
        if init.get("kind"):
            st = self.ex(fr, init, st, exits)
            if st is None:
                return None
        return self.loop(fr, cond, inc, body, st, exits, post=False)

    def ex_WhileStmt(self, fr, n, st, exits):
        inner = n["inner"]
        return self.loop(fr, inner[0], {}, inner[-1], st, exits, post=False)

    def ex_DoStmt(self, fr, n, st, exits):
        inner = n["inner"]
        return self.loop(fr, inner[1], {}, inner[0], st, exits, post=True)

    def loop(self, fr, cond, inc, body, st, exits, post):
        # try concrete unrolling
        save = st.copy()
        n0 = len(exits)
        if not post:
            for rule in self.loop_rules:
                r = rule(self, fr, cond, inc, body, save, exits)
                if r is not None:
                    return r
        deep = self.depth
        depth = len(self.callpath), len(self.iterpath), len(self.frames), len(self.loopstack)
        try:
            r = self.unroll(fr, cond, inc, body, st, exits, post)
        except Unsupported:
            if post:
                raise
            r = NotImplemented
            for l, k in zip((self.callpath, self.iterpath, self.frames, self.loopstack), depth):
                del l[k:]
            self.depth = deep
        if r is not NotImplemented:
            return r
        del exits[n0:]
        if post:
            raise Unsupported("do-while with symbolic bound")
        from .loops import summarise
        return summarise(self, fr, cond, inc, body, save, exits)

    def long(self, fr, cond, st):
        """a comparison of two constants more than MAXUNROLL apart"""
        if cond.get("kind") != "BinaryOperator" or cond.get("opcode") not in ("<", "<=", ">", ">="):
            return False
        s = st.copy()
        a, b = [self.ev(fr, x, s) for x in cond["inner"]]
        return a.op == "num" and b.op == "num" and abs(val(a) - val(b)) > MAXUNROLL

    def unroll(self, fr, cond, inc, body, st, exits, post):
        if self.long(fr, cond, st):
            return NotImplemented
        ends = []
        mine = []
        for it in range(MAXUNROLL + 1):
            if not (post and it == 0):
                if cond.get("kind"):
                    c = toB(self.ev(fr, cond, st))
                    c = self.decide(c, st)
                    if st.pc is FALSE:
                        break
                    if c is FALSE:
                        ends.append(st)
                        break
                    if c is not TRUE:
                        return NotImplemented
            if it == MAXUNROLL:
                return NotImplemented
            my = []
            self.iterpath.append(it)
            r = self.ex(fr, body, st, my)
            self.iterpath.pop()
            conts = [r] if r is not None else []
            for e in my:
                if e.kind == "continue":
                    conts.append(e.state)
                elif e.kind == "break":
                    ends.append(e.state)
                else:
                    exits.append(e)
            st = self.join(conts)
            if st is None:
                break
            if inc.get("kind"):
                self.ev(fr, inc, st)
        return self.join(ends)

    # ---- expressions ---------------------------------------------------------
    def ev(self, fr, n, st):
        tick()
        m = getattr(self, "ev_" + n["kind"], None)
        if m is None:
            raise Unsupported("expression %s" % n["kind"])
        return m(fr, n, st)

    def lv(self, fr, n, st):
        k = n["kind"]
        if k == "ParenExpr":
            return self.lv(fr, n["inner"][0], st)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            return fr.loc(d)
        if k == "MemberExpr":
            b = n["inner"][0]
            if n.get("isArrow"):
                p = self.ev(fr, b, st)
                return self.locfld(self.deref(p), n["name"])
            if b.get("valueCategory") == "lvalue":
                return self.locfld(self.lv(fr, b, st), n["name"])
            v = self.ev(fr, b, st)
            if v.sort == "L":
                return self.locfld(v, n["name"])
            raise Unsupported("member of rvalue")
        if k == "ArraySubscriptExpr":
            p = self.ev(fr, n["inner"][0], st)
            i = self.ev(fr, n["inner"][1], st)
            if p.sort != "P":
                p, i = i, p
            return self.deref(self.padd(p, toI(i)))
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref(self.ev(fr, n["inner"][0], st))
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "BitCast", "LValueBitCast"):
            return self.lv(fr, n["inner"][0], st)
        if k == "CompoundLiteralExpr":
            loc = fr.temp(n.get("id"))
            self.init(fr, n["type"], loc, n["inner"][0], st)
            return loc
        if k == "StringLiteral":
            return mk("strobj", (n.get("value", ""),), "L")
        if k == "PredefinedExpr":
            return mk("strobj", ("__func__",), "L")
        raise Unsupported("lvalue %s" % k)

    def locfld(self, l, name):
        if l.op == "iteL":
            return mk("iteL", (l.args[0], self.locfld(l.args[1], name), self.locfld(l.args[2], name)), "L")
        return fld(l, name)

    def deref(self, p):
        if p.op == "ite":
            return mk("iteL", (p.args[0], self.deref(p.args[1]), self.deref(p.args[2])), "L")
        if p is NULL:
            return idx(obj(NULL), num(0, "I"))
        return pointee(p)

    def padd(self, p, i):
        if p.op == "ite":
            return ite(p.args[0], self.padd(p.args[1], i), self.padd(p.args[2], i))
        return ptradd(p, i, self.normi)

    def ev_ParenExpr(self, fr, n, st):
        return self.ev(fr, n["inner"][0], st)

    def ev_ConstantExpr(self, fr, n, st):
        return self.ev(fr, n["inner"][0], st)

    def ev_FullExpr(self, fr, n, st):
        return self.ev(fr, n["inner"][0], st)

    def ev_IntegerLiteral(self, fr, n, st):
        return num(int(n["value"]), "I")

    def ev_CharacterLiteral(self, fr, n, st):
        return num(int(n["value"]), "I")

    def ev_FloatingLiteral(self, fr, n, st):
        v = n["value"]
        f = float(v)
        if abs(f - 3.141592653589793) < 1e-15:
            return T.PI
        return num(Fraction(repr(f)), "R")

    def ev_StringLiteral(self, fr, n, st):
        return mk("strlit", (n.get("value", ""),), "P")

    def ev_PredefinedExpr(self, fr, n, st):
        return mk("strlit", ("__func__",), "P")

    def ev_DeclRefExpr(self, fr, n, st):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            v = fr.tu.enums.get(d["id"])
            if v is None:
                v = fr.tu.enumname.get(d["name"])
            if v is None:
                raise Unsupported("enum constant %s" % d["name"])
            return num(v, "I")
        if d["kind"] == "FunctionDecl":
            return mk("func", (d["name"],), "P")
        return self.lv(fr, n, st)

    def ev_MemberExpr(self, fr, n, st):
        return self.lv(fr, n, st)

    def ev_ArraySubscriptExpr(self, fr, n, st):
        return self.lv(fr, n, st)

    def ev_VAArgExpr(self, fr, n, st):
        h = self.contracts.get("va_arg")
        if h is None:
            raise Unsupported("va_arg")
        return h(self, fr, st, [], n)

    def ev_CompoundLiteralExpr(self, fr, n, st):
        return self.lv(fr, n, st)

    def ev_ImplicitCastExpr(self, fr, n, st):
        ck = n["castKind"]
        e = n["inner"][0]
        if ck == "LValueToRValue":
            s = sort_of(fr.tu, n["type"])
            loc = self.lv(fr, e, st)
            if s == "S":
                fields = fr.tu.fields_of(n["type"]["qualType"])
                if fields is None:
                    return self.read(st, loc, "S")
                return loc
            if s == "A":
                return loc
            v = self.read(st, loc, s)
            if s == "I" and is_unsigned(fr.tu, n["type"]):
                self.unsigned_terms.add(v)
            return v
        if ck == "ArrayToPointerDecay":
            if e["kind"] == "StringLiteral":
                return self.ev(fr, e, st)
            if e["kind"] == "PredefinedExpr":
                return self.ev(fr, e, st)
            loc = self.lv(fr, e, st)
            if loc.op == "strobj":
                return mk("strlit", loc.args, "P")
            if loc.op == "iteL":
                return ite(loc.args[0], addr(idx(loc.args[1], num(0, "I"))), addr(idx(loc.args[2], num(0, "I"))))
            return addr(idx(loc, num(0, "I")))
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr", "NoOp", "BitCast", "FloatingCast", "LValueBitCast"):
            v = self.ev(fr, e, st)
            return v
        if ck in ("IntegralToFloating",):
            return toR(self.ev(fr, e, st))
        if ck == "FloatingToIntegral":
            return toI(self.ev(fr, e, st))
        if ck == "IntegralCast":
            v = self.ev(fr, e, st)
            return toI(v) if v.sort == "B" else v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return toB(self.ev(fr, e, st))
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            return self.ev(fr, e, st)
        if ck in ("FloatingRealToComplex", "IntegralRealToComplex", "FloatingComplexCast"):
            return toR(self.ev(fr, e, st))
        raise Unsupported("cast %s" % ck)

    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def ev_ImaginaryLiteral(self, fr, n, st):
        return mul(toR(self.ev(fr, n["inner"][0], st)), IMAG)

    def ev_UnaryOperator(self, fr, n, st):
        op = n["opcode"]
        e = n["inner"][0]
        if op == "-":
            return neg(self.ev(fr, e, st))
        if op == "+":
            return self.ev(fr, e, st)
        if op == "!":
            return bnot(toB(self.ev(fr, e, st)))
        if op == "&":
            if e["kind"] == "DeclRefExpr" and e["referencedDecl"]["kind"] == "FunctionDecl":
                return self.ev(fr, e, st)
            loc = self.lv(fr, e, st)
            if loc.op == "iteL":
                return self.addr_ite(loc)
            return addr(loc)
        if op == "*":
            return self.lv(fr, n, st)
        if op in ("++", "--"):
            loc = self.lv(fr, e, st)
            s = sort_of(fr.tu, e["type"])
            v = self.read(st, loc, s)
            one = num(1 if op == "++" else -1, "I")
            nv = self.padd(v, one) if s == "P" else self.coerce(add(v, one), s)
            self.write(st, loc, nv)
            return v if n.get("isPostfix") else nv
        if op == "__extension__":
            return self.ev(fr, e, st)
        raise Unsupported("unary %s" % op)

    def addr_ite(self, l):
        if l.op == "iteL":
            return ite(l.args[0], self.addr_ite(l.args[1]), self.addr_ite(l.args[2]))
        return addr(l)

    def ev_UnaryExprOrTypeTraitExpr(self, fr, n, st):
        ty = n.get("argType", {}).get("qualType")
        if ty is None and n.get("inner"):
            ty = n["inner"][0]["type"]["qualType"]
        return sizeof_term(ty)

    def arith(self, fr, op, a, b, ty):
        s = sort_of(fr.tu, ty)
        if op in ("+", "-") and (a.sort == "P" or b.sort == "P"):
            if op == "+":
                if a.sort != "P":
                    a, b = b, a
                return self.padd(a, toI(b))
            if b.sort == "P":
                return mk("app", ("ptrdiff", a, b), "I")
            return self.padd(a, neg(toI(b)))
        if op == "+":
            return self.coerce(add(a, b), s)
        if op == "-":
            return self.coerce(sub(a, b), s)
        if op == "*":
            return self.coerce(mul(a, b), s)
        if op == "/":
            if s == "I":
                for z in subterms(b):
                    if z.op == "sym" and z.args[0].startswith("sizeof<"):
                        q = self.N.pmul(self.N.nf(toR(a)), self.N.pinv(self.N.nf(toR(b))))
                        if not q or (len(q) == 1 and () in q and q[()].denominator == 1):
                            return num(q.get((), 0), "I")
                dm = self.divmod_(a, b) if a.sort == "I" and b.sort == "I" and a.op != "num" and b.op == "num" else None
                return dm[0] if dm is not None else idiv(a, b)
            return div(a, b)
        if op == "%":
            dm = self.divmod_(a, b) if a.sort == "I" and b.sort == "I" and a.op != "num" and b.op == "num" else None
            return dm[1] if dm is not None else imod(a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if op == "<":
                return lt(a, b)
            if op == ">":
                return lt(b, a)
            if op == "<=":
                return le(a, b)
            if op == ">=":
                return le(b, a)
            c = eq(a, b)
            return c if op == "==" else bnot(c)
        if op in ("&", "|", "^", "<<", ">>"):
            if a.op == "num" and b.op == "num" and a.args[0] >= 0 and 0 <= b.args[0] < (31 if op == "<<" else 2 ** 31) and a.args[0] < 2 ** 31:
                x, y = int(a.args[0]), int(b.args[0])
                r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if op == "<<" else 0, ">>": x >> y}[op]
                if r < 2 ** 31:
                    return num(r, "I")
            return mk("app", ("bit" + op, a, b), "I")
        raise Unsupported("binary %s" % op)

    def ev_BinaryOperator(self, fr, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            s = sort_of(fr.tu, n["type"])
            if s == "S":
                src = self.ev(fr, b, st)
                dst = self.lv(fr, a, st)
                if src is not None and src.sort == "L":
                    self.copy_struct(fr.tu, n["type"], dst, src, st)
                else:
                    self.write(st, dst, src)
                return dst
            v = self.ev(fr, b, st)
            if st.pc is FALSE:
                return v
            loc = self.lv(fr, a, st)
            if v is None:
                raise Unsupported("assignment of void value")
            v = self.coerce(v, s)
            self.write(st, loc, v)
            return v
        if op == ",":
            self.ev(fr, a, st)
            return self.ev(fr, b, st)
        if op in ("&&", "||"):
            x = toB(self.ev(fr, a, st))
            if (op == "&&" and x is FALSE):
                return FALSE
            if (op == "||" and x is TRUE):
                return TRUE
            # short circuit: effects of b are conditional
            s1 = st.copy()
            c = x if op == "&&" else bnot(x)
            s1.pc = band(st.pc, c)
            y = toB(self.ev(fr, b, s1))
            if s1.store != st.store or s1.events != st.events:
                s1.pc = st.pc
                m = self.merge(c, s1, st)
                st.store, st.events = m.store, m.events
            return band(x, y) if op == "&&" else bor(x, y)
        x = self.ev(fr, a, st)
        y = self.ev(fr, b, st)
        return self.arith(fr, op, x, y, n["type"])

    def ev_CompoundAssignOperator(self, fr, n, st):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        y = self.ev(fr, b, st)
        loc = self.lv(fr, a, st)
        s = sort_of(fr.tu, a["type"])
        x = self.read(st, loc, s)
        cty = n.get("computeResultType", n["type"])
        if sort_of(fr.tu, cty) == "S":
            raise Unsupported("complex compound assignment")
        v = self.coerce(self.arith(fr, op, x, y, cty), s)
        self.write(st, loc, v)
        return v

    def ev_ConditionalOperator(self, fr, n, st):
        c, a, b = n["inner"]
        x = self.decide(toB(self.ev(fr, c, st)), st)
        if x is TRUE:
            return self.ev(fr, a, st)
        if x is FALSE:
            return self.ev(fr, b, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = band(st.pc, x)
        s2.pc = band(st.pc, bnot(x))
        va = self.ev(fr, a, s1)
        vb = self.ev(fr, b, s2)
        pc = st.pc
        m = self.merge(x, s1, s2)
        st.store, st.events = m.store, m.events
        if va is None or vb is None:
            return None
        s = sort_of(fr.tu, n["type"])
        if s in ("R", "I"):
            return ite(x, self.coerce(va, s), self.coerce(vb, s))
        if va.sort == "L":
            return mk("iteL", (x, va, vb), "L")
        return ite(x, va, vb)

    def ev_StmtExpr(self, fr, n, st):
        raise Unsupported("statement expression")

    def ev_ImplicitValueInitExpr(self, fr, n, st):
        s = sort_of(fr.tu, n["type"])
        if s == "P":
            return NULL
        return num(0, s if s in ("R", "I") else "I")

    def ev_CallExpr(self, fr, n, st):
        callee = n["inner"][0]
        name = self.callee_name(callee)
        args = [a for a in n["inner"][1:]]
        if name is None:
            e = callee
            while e["kind"] == "ParenExpr" or (e["kind"] == "ImplicitCastExpr" and e.get("castKind") == "FunctionToPointerDecay") or \
                    (e["kind"] == "UnaryOperator" and e.get("opcode") == "*"):
                e = e["inner"][0]           # (*f)(x)
            f = self.ev(fr, e, st)
            if f.op == "func":
                name = f.args[0]
            else:
                vals = [self.ev(fr, a, st) for a in args]
                h = self.contracts.get("*indirect*")
                if h is None:
                    raise Unsupported("indirect call through %s" % f)
                return h(self, fr, st, [f] + vals, n)
        return self.call(fr, name, args, n, st)

    def callee_name(self, e):
        while e["kind"] in ("ImplicitCastExpr", "ParenExpr") and e.get("inner"):
            e = e["inner"][0]
        if e["kind"] == "DeclRefExpr" and e["referencedDecl"]["kind"] == "FunctionDecl":
            return e["referencedDecl"]["name"]
        return None

    def call(self, fr, name, argnodes, n, st):
        vals = [self.ev(fr, a, st) for a in argnodes]
        if st.pc is FALSE:
            return num(0)
        return self.call_values(fr, name, vals, n, st)

    def call_values(self, fr, name, vals, n, st):
        h = self.contracts.get(name)
        if h is not None:
            self.used_contracts.add(name)
            return h(self, fr, st, vals, n)
        f = self.P.find(name, fr.tu if fr else None)
        if f is not None:
            tu, d = f
            self.inlined.add(name)
            self.callpath.append(n.get("id") if isinstance(n, dict) else None)
            rs, rv = self.call_function(tu, d, vals, st)
            self.callpath.pop()
            if rs is None:
                st.pc = FALSE
                return num(0)
            st.store, st.events, st.pc = rs.store, rs.events, rs.pc
            return rv
        raise Unsupported("call of %s: no contract and no body" % name)


def sizeof_term(ty):
    """size of a type; an array of n elements has n times the size of one"""
    ty = strip(ty)
    if ty.endswith("]") and "[" in ty:
        n = ty[ty.index("[") + 1:ty.index("]")]
        if n.isdigit():
            return mul(num(int(n), "I"), sizeof_term(ty[:ty.index("[")] + ty[ty.index("]") + 1:]))
    return mk("sym", ("sizeof<%s>" % ty,), "I")


def site(ex, n):
    """a name for this allocation: call site, calling context, unrolled iteration"""
    return "new:%s:%s:%s" % (n.get("id"), ".".join(map(str, ex.callpath)), ".".join(map(str, ex.iterpath)))


def allocate(ex, fr, st, vals, n):
    return mk("app", ("new", site(ex, n)) + tuple(ex.loopstack), "P")


def release(ex, fr, st, vals, n):
    st.events = st.events + (("free", (vals[0],), st.pc),)
    return None


class Frame(object):
    n = 0

    def __init__(self, tu, name, ex):
        self.tu, self.name, self.exr = tu, name, ex
        Frame.n += 1
        self.uid = Frame.n
        self.locs = {}
        self.omp = False
        self.ntemp = 0

    def declare(self, d):
        l = self.locs.get(d["id"])
        if l is None:
            nm = d.get("name", "_")
            k = sum(1 for x in self.locs.values() if x.args[0].split("@")[0].split("'")[0] == nm)
            l = var("%s%s@%s.%d" % (nm, "'%d" % k if k else "", self.name, self.uid))     # shadowed names stay apart
            self.locs[d["id"]] = l
        return l

    def temp(self, tag=None):
        if tag is not None:
            return var("tmp%s@%s.%d" % (tag, self.name, self.uid))
        self.ntemp += 1
        return var("tmp%d@%s.%d" % (self.ntemp, self.name, self.uid))

    def loc(self, d):
        l = self.locs.get(d["id"])
        if l is None:
            l = var("global:%s" % d["name"])
        return l


# ---- standard library contracts ------------------------------------------------

def pure(name, sort="R", op=None):
    def h(ex, fr, st, vals, n):
        vs = [toR(v) if (sort == "R" and v.sort in ("I", "B")) else v for v in vals]
        if op is not None:
            return op(*vs)
        return app(name, vs, sort)
    return h


def noop(ex, fr, st, vals, n):
    return num(0, "I")


def die(ex, fr, st, vals, n):
    st.events = st.events + (("die", (), st.pc),)
    st.pc = FALSE
    return num(0, "I")


def c_assert(ex, fr, st, vals, n):
    return None


STD = {
    "malloc": allocate, "calloc": allocate, "coffe_malloc": allocate, "free": release,
    "pow": pure("pow", op=cpow),
    "sqrt": pure("sqrt"),
    "exp": pure("exp"), "log": pure("log"), "log10": pure("log10"), "sin": pure("sin"), "cos": pure("cos"),
    "tanh": pure("tanh"), "sinh": pure("sinh"), "cosh": pure("cosh"),
    "fabs": pure("fabs"), "floor": pure("floor"), "ceil": pure("ceil"), "fmin": pure("fmin"), "fmax": pure("fmax"),
    "abs": pure("iabs", "I"),
    "gsl_sf_legendre_P1": pure("P1", op=lambda x: app("legendre", (num(1, "I"), x), "R")),
    "gsl_sf_legendre_P2": pure("P2", op=lambda x: app("legendre", (num(2, "I"), x), "R")),
    "gsl_sf_legendre_P3": pure("P3", op=lambda x: app("legendre", (num(3, "I"), x), "R")),
    "gsl_sf_legendre_Pl": lambda ex, fr, st, v, n: app("legendre", (toI(v[0]), toR(v[1])), "R"),
    "gsl_sf_fact": lambda ex, fr, st, v, n: app("fact", (toI(v[0]),), "R"),
    "gsl_sf_choose": lambda ex, fr, st, v, n: app("choose", (toI(v[0]), toI(v[1])), "R"),
    # results that are not finite abort the run: a returned value is finite
    "gsl_finite": lambda ex, fr, st, v, n: num(1, "I"),
    "printf": noop, "fprintf": noop, "fflush": noop, "puts": noop, "fputs": noop, "perror": noop,
    "exit": die, "abort": die, "_exit": die,
    "clock": lambda ex, fr, st, v, n: ex.fresh("clock", "I"),
    "omp_get_wtime": lambda ex, fr, st, v, n: ex.fresh("wtime", "R"),
    "time": lambda ex, fr, st, v, n: ex.fresh("time", "I"),
    "gsl_set_error_handler_off": lambda ex, fr, st, v, n: ex.fresh("handler", "P"),
    "gsl_set_error_handler": lambda ex, fr, st, v, n: ex.fresh("handler", "P"),
}
