"""Parallel regions: every `#pragma omp parallel for` of /repo's current source against its ownership contract.

 Contract of a region: iteration i owns its private variables, what it allocates, and the array elements whose
 index it alone produces; it writes nothing else, and reads nothing another iteration writes."""
import re
import z3
from dv.cast import sort_of, strip
from dv.effects import *

CHUNK = re.compile(r"#\s*pragma\s+omp\s+([^\n]*(?:\\\n[^\n]*)*)")


class Give(Exception):
    """the abstraction cannot decide"""


def parallel_nodes(fnode):
    return [x for x in walk(fnode) if x.get("kind", "").startswith("OMP") and x["kind"].endswith("Directive")]


class Poly(dict):
    """integer polynomial: sorted tuple of atoms -> coefficient"""

    def __add__(self, o):
        r = Poly(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + v
            if not r[k]:
                del r[k]
        return r

    def neg(self):
        return Poly({k: -v for k, v in self.items()})

    def mul(self, o):
        r = Poly()
        for a, x in self.items():
            for b, y in o.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
                if not r[k]:
                    del r[k]
        return r

    def text(self):
        return "+".join("%s%s" % ("" if v == 1 and k else v, "*".join(k)) for k, v in sorted(self.items())) or "0"

    def atoms(self):
        return {a for k in self for a in k}


def const(c):
    return Poly({(): c}) if c else Poly()


def atom(a):
    return Poly({(a,): 1})


class RegionFn(Fn):
    """the enclosing function, with effects collected for the region only"""

    def argval(self, a):
        reg = getattr(self, "region", None)
        if reg is None:
            return self.rval(a)
        return reg.argval(a)


class Region(object):
    def __init__(self, world, fname, node):
        self.w = world
        f = RegionFn(world, fname)
        f.region = None
        f.run()
        self.f, self.node, self.fname = f, node, fname
        src = world.src[f.tu.fname]
        o = offset(node)
        ls = src.rfind(b"\n", 0, o) + 1
        m = CHUNK.search(src[ls:].decode("latin1"))
        self.pragma = re.sub(r"\\\n", " ", m.group(1)) if m else ""
        self.line = src[:o].count(b"\n") + 1
        self.clauses = {}
        txt = re.sub(r"^\s*parallel(\s+for)?(\s+simd)?", "", self.pragma)
        for nm, arg in CLAUSE.findall(txt):
            self.clauses.setdefault(nm, []).append(arg)
        self.problems = []       # (definite?, text)
        self.counts = {}

    def bad(self, text, sure, tag="elements"):
        if (sure, text, tag) not in self.problems:
            self.problems.append((sure, text, tag))

    def names(self, *clauses):
        out = set()
        for c in clauses:
            for a in self.clauses.get(c, ()):
                a = a.split(":")[-1]
                out |= {x.strip() for x in a.split(",") if x.strip()}
        return out

    # ---- structure
    def setup(self):
        if self.node["kind"] not in ("OMPParallelForDirective", "OMPParallelForSimdDirective"):
            raise Give("a parallel construct that is not `parallel for`: %s" % self.pragma)
        extra = set(self.clauses) - {"num_threads", "private", "firstprivate", "lastprivate", "collapse", "schedule", "shared", "default", "if", "reduction", "ordered", "proc_bind"}
        if extra:
            raise Give("clause %s" % sorted(extra))
        body = [x for x in kids(self.node) if x.get("kind") == "CapturedStmt"]
        decl = [x for x in kids(body[0]) if x.get("kind") == "CapturedDecl"][0]
        loop = [x for x in kids(decl) if x.get("kind") == "ForStmt"][0]
        n = int(self.clauses.get("collapse", ["1"])[0])
        self.loops = []
        self.lid = {}
        self.private = set()
        while True:
            init, cond, step, inner = loop["inner"][0], loop["inner"][2], loop["inner"][3], loop["inner"][4]
            self.loops.append((init, cond, step))
            n -= 1
            if not n:
                break
            while inner["kind"] == "CompoundStmt" and len(kids(inner)) == 1:
                inner = kids(inner)[0]
            if inner["kind"] != "ForStmt":
                raise Give("collapsed loops are not nested")
            loop = inner
        self.body = inner
        self.decls = {x["id"]: x for x in walk(decl) if x.get("kind") == "VarDecl" and x.get("storageClass") != "static"}
        self.private |= set(self.decls)
        priv = self.names("private", "firstprivate", "lastprivate")
        if self.clauses.get("reduction"):
            self.bad("reduction(%s): the order of the sum depends on the number of threads" % ", ".join(self.clauses["reduction"]), False, "scalars")
            priv |= self.names("reduction")
        for x in walk(self.f.node):
            if x.get("kind") in ("VarDecl", "ParmVarDecl") and x.get("name") in priv:
                self.private.add(x["id"])
        self.reassigned = set()
        for x in walk(decl):
            t = None
            if x.get("kind") in ("BinaryOperator",) and x.get("opcode") == "=" or x.get("kind") == "CompoundAssignOperator":
                t = kids(x)[0]
            elif x.get("kind") == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
                t = kids(x)[0]
            if t is not None:
                t = peel(t)
                if t.get("kind") == "DeclRefExpr":
                    self.reassigned.add(t["referencedDecl"]["id"])
        self.vars = []           # (id, name, lo, hi) parallel loop variables, then inner ones
        for init, cond, step in self.loops:
            v = self.canonical(init, cond, step)
            if v is None:
                raise Give("the parallel loop is not canonical")
            self.vars.append(v)
            self.private.add(v[0])
        self.npar = len(self.vars)
        self.inner_loops = []
        for x in walk(self.body):
            if x.get("kind") == "ForStmt" and len(x.get("inner", ())) >= 5:
                v = self.canonical(x["inner"][0], x["inner"][2], x["inner"][3])
                if v is not None:
                    self.inner_loops.append(v)

    def canonical(self, init, cond, step):
        """(id, name, lo, hi-exclusive) of an increasing unit-step loop"""
        if not init or not cond or not step:
            return None
        if init["kind"] == "DeclStmt":
            d = kids(init)
            if len(d) != 1 or not kids(d[0]):
                return None
            vid, nm, lo = d[0]["id"], d[0]["name"], kids(d[0])[-1]
        elif init["kind"] == "BinaryOperator" and init.get("opcode") == "=":
            v = peel(kids(init)[0])
            if v.get("kind") != "DeclRefExpr":
                return None
            vid, nm, lo = v["referencedDecl"]["id"], v["referencedDecl"]["name"], kids(init)[1]
        else:
            return None
        c = peel_parens(cond)
        if c.get("kind") != "BinaryOperator":
            return None
        a, b = [peel(x) for x in kids(c)]
        op = c.get("opcode")
        if self.ref(a) == vid and op in ("<", "<=", "!="):
            hi = kids(c)[1]
        elif self.ref(b) == vid and op in (">", ">="):
            hi = kids(c)[0]
            op = {">": "<", ">=": "<="}[op]
        else:
            return None
        s = peel_parens(step)
        ok = s.get("kind") == "UnaryOperator" and s.get("opcode") == "++" and self.ref(peel(kids(s)[0])) == vid
        if s.get("kind") == "CompoundAssignOperator" and s.get("opcode") == "+=" and self.ref(peel(kids(s)[0])) == vid:
            k = self.poly(kids(s)[1])
            ok = k == const(1)
        if not ok:
            return None
        self.lid[vid] = "#%s" % nm
        lo, hi = self.poly(lo), self.poly(hi)
        if op == "<=":
            hi = hi + const(1)
        return vid, "#" + nm, lo, hi

    @staticmethod
    def ref(e):
        return e["referencedDecl"]["id"] if e.get("kind") == "DeclRefExpr" else None

    # ---- canonical forms
    def resolve(self, e):
        """replace a private variable that is initialised once by its initialiser"""
        e0 = peel(e)
        for _ in range(20):
            i = self.ref(e0)
            if i is None or i not in self.decls or i in self.reassigned or i in self.lid:
                return e0
            d = self.decls[i]
            ini = [c for c in kids(d) if not c.get("kind", "").endswith(("Attr", "Type"))]
            if not d.get("init") or not ini or ini[-1]["kind"] == "InitListExpr":
                return e0
            e0 = peel(ini[-1])
        return e0

    def poly(self, e):
        e = self.resolve(e)
        k = e.get("kind")
        if k in ("IntegerLiteral", "CharacterLiteral"):
            return const(int(e["value"]))
        if k == "BinaryOperator" and e.get("opcode") in ("+", "-", "*"):
            a, b = [self.poly(x) for x in kids(e)]
            return a + b if e["opcode"] == "+" else a + b.neg() if e["opcode"] == "-" else a.mul(b)
        if k == "UnaryOperator" and e.get("opcode") == "-":
            return self.poly(kids(e)[0]).neg()
        if k == "DeclRefExpr":
            i = self.ref(e)
            if i in self.lid:
                return atom(self.lid[i])
            if e["referencedDecl"].get("kind") == "EnumConstantDecl" and i in self.f.tu.enums:
                return const(self.f.tu.enums[i])
            if i in self.private:
                return atom("?" + e["referencedDecl"].get("name", "") + i)
            return atom(e["referencedDecl"].get("name", i))
        if k in ("MemberExpr", "ArraySubscriptExpr") or k == "UnaryOperator" and e.get("opcode") == "*":
            p, idx, leaf = self.path(e)
            t = p % tuple(x.text() for x in idx) if idx else p
            return atom(("?" if any(self.varying(x) for x in idx) else "") + t)
        if k in ("CallExpr", "ConditionalOperator", "BinaryOperator"):
            t = self.f.text(e)
            vary = any(x.get("kind") == "DeclRefExpr" and (self.ref(x) in self.lid or self.ref(x) in self.private) for x in walk(e))
            if k == "BinaryOperator" and not vary:
                return atom("(" + t + ")")
            return atom("?" + t if vary or k == "CallExpr" else t)
        return atom("?" + self.f.text(e))

    def varying(self, p):
        return any(a.startswith(("#", "?")) for a in p.atoms())

    def path(self, e):
        """(format string with a %s per subscript, [index polynomials], (record, field) or type) of an lvalue"""
        e = peel_parens(e)
        k = e.get("kind")
        leaf = strip(e["type"].get("desugaredQualType", e["type"]["qualType"])).replace("const ", "")
        if k == "DeclRefExpr":
            i = self.ref(e)
            if i in self.decls and i not in self.lid:
                r = self.resolve(e)
                if r is not e and r.get("kind") in ("MemberExpr", "ArraySubscriptExpr", "DeclRefExpr"):
                    return self.path(r)
                if i in self.private and r is e:
                    return "?" + e["referencedDecl"]["name"], [], leaf
            return e["referencedDecl"].get("name", i), [], leaf
        if k == "MemberExpr":
            b = kids(e)[0]
            rec = b["type"].get("desugaredQualType", b["type"]["qualType"])
            if e.get("isArrow"):
                rec = strip(rec)[:-1]
                rb = self.resolve(b)
                if rb.get("kind") == "UnaryOperator" and rb.get("opcode") == "&":
                    p, x, _ = self.path(kids(rb)[0])
                    return p + "." + e["name"], x, (self.w.tname(self.f.tu, rec), e["name"])
                p, x, _ = self.deref(b)
                return p + "." + e["name"], x, (self.w.tname(self.f.tu, rec), e["name"])
            p, x, _ = self.path(b)
            return p + "." + e["name"], x, (self.w.tname(self.f.tu, rec), e["name"])
        if k == "ArraySubscriptExpr":
            b, i = kids(e)
            if sort_of(self.f.tu, peel(b)["type"]) not in ("P", "A"):
                b, i = i, b
            p, x, _ = self.deref(b, self.poly(i))
            return p, x, leaf
        if k == "UnaryOperator" and e.get("opcode") == "*":
            p, x, _ = self.deref(kids(e)[0])
            return p, x, leaf
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.path(kids(e)[-1])
        raise Give("lvalue `%s`" % self.f.text(e))

    def deref(self, ptr, index=None):
        """path of ptr[index] (index 0 when absent)"""
        index = index if index is not None else const(0)
        q = peel(ptr)
        q = self.resolve(q)
        if q.get("kind") == "BinaryOperator" and q.get("opcode") in ("+", "-"):
            a, b = kids(q)
            if sort_of(self.f.tu, a["type"]) not in ("P", "A"):
                a, b = b, a
            o = self.poly(b)
            return self.deref(a, index + (o if q["opcode"] == "+" else o.neg()))
        if q.get("kind") == "UnaryOperator" and q.get("opcode") == "&":
            r = peel_parens(kids(q)[0])
            if r.get("kind") == "ArraySubscriptExpr":
                a, b = kids(r)
                return self.deref(a, index + self.poly(b))
            if index == const(0):
                return self.path(r)
            raise Give("pointer arithmetic on `%s`" % self.f.text(q))
        if q.get("kind") in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") or q.get("kind") == "UnaryOperator" and q.get("opcode") == "*":
            p, x, _ = self.path(q)
            return p + "[%s]", x + [index], None
        raise Give("pointer `%s`" % self.f.text(q))

    # ---- effects
    def is_private(self, root):
        if root[0] == "L":
            return root[1] in self.private or not self.f.is_local(root[1])
        if root[0] == "H":
            return root[1] in self.calls_inside or root[1] == "x"
        return root[0] in ("F",)

    def argval(self, a):
        e = self.resolve(a)
        v = self.f.rval(a)
        if sort_of(self.f.tu, a["type"]) != "P":
            return v
        shared = {r for r in v if not self.is_private(r)}
        if not shared:
            return v
        try:
            acc = self.deref(a)
        except Give:
            return v
        if not acc[1] and not (e.get("kind") == "UnaryOperator" and e.get("opcode") == "&"):
            return v
        key = ("E", a["id"])
        self.elems[key] = (acc, a, shared)
        self.f.holds[key] = set().union(*[self.f.holds.get(r, set()) for r in v]) if v else set()
        return {key} | {r for r in v if self.is_private(r)}

    def analyse(self):
        self.setup()
        f = self.f
        inside = list(walk(self.body))
        self.calls_inside = {x["id"] for x in inside if x.get("kind") == "CallExpr"}
        self.stores, self.loads = [], []     # (path, idx, leaf, roots, text)
        self.elems = {}
        for x in inside:
            k = x.get("kind")
            t = None
            if k == "BinaryOperator" and x.get("opcode") == "=" or k == "CompoundAssignOperator":
                t = kids(x)[0]
            elif k == "UnaryOperator" and x.get("opcode") in ("++", "--"):
                t = kids(x)[0]
            if t is not None:
                self.store(t, x)
            if k == "ImplicitCastExpr" and x.get("castKind") == "LValueToRValue":
                self.load(kids(x)[0])
        # calls
        f.region = self
        f.writes = {}
        f.notes = []
        n = 0
        self.passed = []
        for x in inside:
            if x.get("kind") == "CallExpr":
                n += 1
                f.writes = {}
                f.do_call(x)
                for root, (sure, text, types) in f.writes.items():
                    if root[0] == "E":
                        acc, a, shared = self.elems[root]
                        self.stores.append((acc[0], acc[1], self.pointee(a), shared, text))
                    elif root[0] == "G":
                        self.bad("static storage %s is written by every iteration: %s" % (root[1], text), sure, "calls")
                    elif not self.is_private(root):
                        self.bad("`%s` writes storage that the iterations share: %s" % (f.text(x), text), False, "calls")
                for a in kids(x)[1:]:
                    v = self.argval(a)
                    for r in v:
                        if r[0] == "E":
                            acc, _, shared = self.elems[r]
                            self.loads.append((acc[0], acc[1], self.pointee(a), shared, "`%s` at %s" % (f.text(a), f.where(a))))
                    cl = f.closure(v)
                    self.passed.append((a, {r for r in cl if not self.is_private(r) and r[0] not in ("F", "E")}))
        f.region = None
        self.counts["calls"] = n
        self.elements()
        for kind, text in f.notes:
            self.note(kind, text)

    def note(self, kind, text):
        if kind == "nondet":
            self.bad("a value or state that is not a function of the inputs: %s" % text, True, "externals")
        elif kind in ("unknown",):
            self.bad("external function without a contract: %s" % text, False, "externals")

    def guarded(self, node):
        """inside a critical or atomic construct: no race, although the order of the iterations may show"""
        return any(c.get("kind") in ("OMPCriticalDirective", "OMPAtomicDirective") and any(x is node for x in walk(c)) for c in walk(self.node))

    def store(self, lv, stmt):
        f = self.f
        roots = f.lval(lv)
        shared = {r for r in roots if not self.is_private(r)}
        text = "`%s` at %s" % (f.text(stmt), f.where(stmt))
        if not shared:
            return
        e = peel(lv)
        if e.get("kind") == "DeclRefExpr" or self.scalar(e):
            self.bad("%s: one variable is shared by all iterations" % text, not self.guarded(stmt), "scalars")
            return
        try:
            p, x, leaf = self.path(lv)
        except Give as g:
            self.bad("%s: %s" % (text, g), False)
            return
        self.stores.append((p, x, leaf, shared, text))

    def scalar(self, e):
        """a member of a shared object, reached without a subscript or a private pointer"""
        while e.get("kind") == "MemberExpr":
            e = self.resolve(kids(e)[0])
            if e.get("kind") == "UnaryOperator" and e.get("opcode") == "&":
                e = peel(kids(e)[0])
        return e.get("kind") == "DeclRefExpr" and self.ref(e) not in self.private

    def load(self, lv):
        f = self.f
        shared = {r for r in f.lval(lv) if not self.is_private(r)}
        if not shared:
            return
        try:
            p, x, leaf = self.path(lv)
        except Give:
            p, x = None, []
            leaf = strip(lv["type"].get("desugaredQualType", lv["type"]["qualType"]))
        self.loads.append((p, x, leaf, shared, "`%s` at %s" % (f.text(lv), f.where(lv))))

    # ---- the index argument
    def elements(self):
        self.counts["stores"] = len(self.stores)
        for k, (p, x, leaf, roots, text) in enumerate(self.stores):
            if "?" in p or not x:
                self.bad("%s: the storage `%s` is not named by the iteration" % (text, p.replace("%s", "")), False)
                continue
            self.injective(x, x, text)
        acc = [("store",) + s for s in self.stores] + [("load",) + s for s in self.loads]
        for s in self.stores:
            for kind, p, x, leaf, roots, text in acc:
                if s == (p, x, leaf, roots, text):
                    continue
                if not (roots & s[3]):
                    continue
                if self.leaf_apart(leaf, s[2]):
                    continue
                if p is None or "?" in p or p.split("%s")[0] != s[0].split("%s")[0] or len(x) != len(s[1]):
                    self.bad("%s may touch the storage written by %s" % (text, s[4]), False)
                    continue
                if [a.text() for a in x] != [a.text() for a in s[1]]:
                    self.injective(s[1], x, "%s against %s" % (text, s[4]))
            for a, roots in self.passed:
                if roots & s[3] and not self.type_apart(a, s[2]):
                    self.bad("`%s` hands out the storage written by %s" % (self.f.text(a), s[4]), False)

    def pointee(self, a):
        t = strip(a["type"].get("desugaredQualType", a["type"]["qualType"]))
        return strip(t[:-1]) if t.endswith("*") else None

    def type_apart(self, a, leaf):
        if isinstance(leaf, str) and sort_of(self.f.tu, leaf) == "S":
            leaf = (self.w.tname(self.f.tu, leaf), None)
        if not isinstance(leaf, tuple):
            return False
        t = strip(a["type"].get("desugaredQualType", a["type"]["qualType"]))
        if not t.endswith("*"):
            return False
        ins, rch = self.w.inside(self.f.tu, t[:-1]), self.w.reachable(self.f.tu, t[:-1])
        if any(r[0] == "E" for r in self.argval(a)):
            ins = set()          # the element itself is compared by its index
        return ins is not None and rch is not None and leaf[0] not in ins | rch

    def leaf_apart(self, a, b):
        if a is None or b is None:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a == b:
                return False
            # a member that is itself a record may contain the other
            for (r, fl), (r2, f2) in ((a, b), (b, a)):
                ft = dict(self.f.tu.fields_of(r) or ()).get(fl)
                if ft is None:
                    return False
                ins = self.w.inside(self.f.tu, ft)
                if ins is None or r2 in ins:
                    return False
            return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            t, o = (a, b) if isinstance(a, tuple) else (b, a)
            ft = dict(self.f.tu.fields_of(t[0]) or ()).get(t[1])
            if ft is None:
                return False
            q = strip(ft.get("desugaredQualType", ft["qualType"]))
            if q.endswith("]"):
                return False
            if sort_of(self.f.tu, o) == "S":
                ins = self.w.inside(self.f.tu, o)
                return ins is not None and t[0] not in ins and self.w.tname(self.f.tu, q) not in ins
            return q != o
        sa, sb = sort_of(self.f.tu, a), sort_of(self.f.tu, b)
        return sa != sb and "S" not in (sa, sb)

    def injective(self, xa, xb, text):
        """two different iterations never produce index xa and index xb of the same element"""
        atoms = set().union(*[p.atoms() for p in xa + xb])
        if any(a.startswith("?") for a in atoms):
            self.bad("%s: the index is not a function of the loop variables" % text, False)
            return
        par = [v[1] for v in self.vars]
        missing = [v for v in par if v not in atoms]
        if missing and not (atoms & set(par)) and [p.text() for p in xa] == [p.text() for p in xb]:
            self.bad("%s: the index does not depend on the iteration" % text, True)
            return
        names = {v[1]: v for v in self.vars + self.inner_loops}
        if len(xa) == len(xb) == 1 and xa[0] == xb[0] and not missing and self.radix(xa[0], names):
            return
        s = z3.Solver()
        s.set("timeout", 20000)
        env = {}

        def var(a, side):
            if a in names:
                return z3.Int(a + side)
            if a not in env:
                env[a] = z3.Int(a)
                s.add(env[a] >= 0)
            return env[a]

        def ev(p, side):
            t = z3.IntVal(0)
            for k, c in p.items():
                m = z3.IntVal(c)
                for a in k:
                    m = m * var(a, side)
                t = t + m
            return t
        for nm, (i, _, lo, hi) in names.items():
            for side in "ab":
                if any(a.startswith("?") for a in lo.atoms() | hi.atoms()):
                    continue
                s.add(z3.Int(nm + side) >= ev(lo, side), z3.Int(nm + side) < ev(hi, side))
        for pa, pb in zip(xa, xb):
            s.add(ev(pa, "a") == ev(pb, "b"))
        s.add(z3.Or(*[z3.Int(v + "a") != z3.Int(v + "b") for v in par]))
        r = s.check()
        if r == z3.unsat:
            return
        if r == z3.sat:
            m = s.model()
            self.bad("%s: two iterations meet (%s)" % (text, ", ".join("%s=%s" % (d, m[d]) for d in m.decls())[:200]), True)
        else:
            self.bad("%s: the solver does not decide that the indices differ" % text, False)

    def radix(self, p, names):
        """mixed-radix form: coefficients 1, n1, n1*n2, ... with the variables below their radix"""
        left = [v for v in p.atoms() if v in names]
        rest = Poly({k: c for k, c in p.items() if not any(a in names for a in k)})
        coef = {v: Poly() for v in left}
        for k, c in p.items():
            vs = [a for a in k if a in names]
            if len(vs) > 1:
                return False
            if vs:
                kk = list(k)
                kk.remove(vs[0])
                coef[vs[0]] = coef[vs[0]] + Poly({tuple(kk): c})
        cur = const(1)
        while left:
            hit = [v for v in left if coef[v] == cur]
            if len(hit) != 1:
                return False
            v = hit[0]
            left.remove(v)
            lo, hi = names[v][2], names[v][3]
            if any(a in names or a.startswith("?") for a in lo.atoms() | hi.atoms()) or any(c < 0 for c in lo.values()):
                return False
            n = hi + lo.neg()
            cur = cur.mul(n)
        return True
