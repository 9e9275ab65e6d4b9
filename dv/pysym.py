"""Symbolic execution of the methods of the Cython class (over dv.pyxast) with contracts for the C functions it calls.

Every path of a method is executed on symbolic arguments and a symbolic object state: the C parameter structure
(field -> term), the contents of the arrays its pointers own, the stages (cached results: kept / freed / computed, with
the values of the parameters they were computed from), and the scalar attributes.  Loops over a symbolic number of
elements are summarised by a quantified element; a body that does anything but store elements at the loop index, or
whose effect is not idempotent, is refused (Unsupported), never unrolled to a bound.
"""
import ast
import itertools

STAGES = {"_background": "background", "_integral": "integrals", "_corrfunc": "corrfunc", "_multipoles": "multipoles",
          "_average_multipoles": "average_multipoles", "_covariance_multipoles": "covariance",
          "_average_covariance_multipoles": "average_covariance"}
PARS = "_parameters"
HASH = ("#",)
TRUE, FALSE, NONE = ("c", True), ("c", False), ("c", None)


class Unsupported(Exception):
    pass


def C(x):
    return ("c", x)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def mentions(t, p):
    if p(t):
        return True
    return isinstance(t, tuple) and any(mentions(x, p) for x in t if isinstance(x, tuple))


def user(t):
    return mentions(t, lambda x: len(x) == 2 and x[0] == "arg")


class St:
    __slots__ = ("env", "par", "cont", "stage", "slf", "pc", "ev", "log", "fresh", "this")

    def __init__(self):
        self.env, self.par, self.cont, self.stage, self.slf = {}, {}, {}, {}, {}
        self.pc, self.ev, self.log, self.fresh = {}, (), (), 0
        self.this = None

    def copy(self):
        s = St.__new__(St)
        s.env, s.par, s.cont = dict(self.env), dict(self.par), dict(self.cont)
        s.stage, s.slf, s.pc = dict(self.stage), dict(self.slf), dict(self.pc)
        s.ev, s.log, s.fresh = self.ev, self.log, self.fresh
        s.this = self.this
        return s

    def dirty(self):
        return bool(self.log)

    def parval(self, f):
        return self.par.get(f, ("par", f))

    def content(self, ptr):
        if ptr in self.cont:
            return self.cont[ptr]
        return ("seq", ("mem",), ("item", ptr, HASH))


def norm_app(op, args):
    a = args
    if op == "bool" and len(a) == 1:
        x = a[0]
        if x[0] == "c":
            return C(bool(x[1]))
        if x[0] == "app" and x[1] in ("bool", "int") and len(x) == 3 and (x[1] == "bool" or x[2][0] == "app" and x[2][1] == "bool"):
            return norm_app("bool", (x[2],))
        if x[0] == "app" and x[1] in ("not", "cmp", "in", "isinstance", "all", "any", "np.allclose"):
            return x
    if op == "int" and len(a) == 1 and a[0][0] == "c" and isinstance(a[0][1], (int, bool)):
        return C(int(a[0][1]))
    if op == "float" and len(a) == 1 and a[0][0] == "app" and a[0][1] == "float":
        return a[0]
    if op == "not" and a[0][0] == "c":
        return C(not a[0][1])
    if op == "not" and a[0][0] == "app" and a[0][1] == "not":
        return ("app", "bool", a[0][2]) if not (a[0][2][0] == "app" and a[0][2][1] in ("cmp", "bool", "in")) else a[0][2]
    if op in "+-*/" and len(a) == 2 and a[0][0] == "c" and a[1][0] == "c":
        try:
            return C({"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                      "/": lambda x, y: x / y}[op](a[0][1], a[1][1]))
        except Exception:
            pass
    if op in "*/" and len(a) == 2 and a[1] == C(1):
        return a[0]
    if op == "len":
        x = a[0]
        if x[0] == "seq":
            return x[1]
        if x[0] in ("tuple", "list"):
            return C(len(x) - 1)
        if x[0] == "app" and x[1] in ("np.array", "list"):
            return norm_app("len", (x[2],))
        if x[0] == "c" and isinstance(x[1], str):
            return C(len(x[1]))
    return ("app", op) + tuple(a)


BOUND_EXC = {"ValueError", "TypeError", "AttributeError", "KeyError", "IndexError", "OverflowError", "Exception"}


class Exec:
    def __init__(self, module, cls="Coffe", contracts=None, maxpaths=4000):
        self.funcs, self.consts, classes, self.ctypes = module
        self.cls = classes.get(cls) or next(c for c in classes.values() if "methods" in c and "sep" in c["getters"])
        self.k = contracts
        self.maxpaths = maxpaths
        self.depth = 0
        self.used = set()
        self.count = 0

    # -- plumbing: results are lists of (state, kind, value), kind in v / raise / ret / next / break / continue
    def bind(self, outs, f):
        res = []
        for st, k, v in outs:
            if k == "v":
                res += f(st, v)
            else:
                res.append((st, k, v))
        return res

    def evs(self, es, st, f):
        """evaluate a list of expressions left to right, then f(st, [values])"""
        def go(i, st, acc):
            if i == len(es):
                return f(st, acc)
            return self.bind(self.ev(es[i], st), lambda s, v: go(i + 1, s, acc + [v]))
        return go(0, st, [])

    def rv(self, st, v):
        if v[0] == "ref":
            return self.k.read(self, st, v)
        return v

    def ev(self, e, st):
        outs = self.ev0(e, st)
        return [(s, k, self.rv(s, v) if k == "v" else v) for s, k, v in outs]

    def truth(self, st, v, neg=False):
        """-> list of (state, bool)"""
        if v[0] == "c":
            return [(st, bool(v[1]))]
        if v[0] == "dict":
            return [(st, bool(v[1]))]
        if v[0] == "tuple" or v[0] == "list":
            return [(st, len(v) > 1)]
        if v[0] == "app" and v[1] == "not":
            return [(s, not b) for s, b in self.truth(st, v[2])]
        if v[0] == "app" and v[1] == "bool":
            v = v[2]
        if v[0] == "stageflag":
            r = st.stage.get(v[1], "orig")
            if r == "free":
                return [(st, False)]
            if r != "orig":
                return [(st, True)]
        if v in st.pc:
            return [(st, st.pc[v])]
        a, b = st.copy(), st.copy()
        a.pc[v], b.pc[v] = True, False
        return [(a, True), (b, False)]

    # -- expressions
    def ev0(self, e, st):
        self.count += 1
        if self.count > 400000:
            raise Unsupported("too many steps")
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, st)

    def val(self, st, v):
        return [(st, "v", v)]

    def x_Constant(self, e, st):
        return self.val(st, C(e.value))

    def x_JoinedStr(self, e, st):
        parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        return self.evs(parts, st, lambda s, vs: self.val(s, ("app", "fstr") + tuple(vs)))

    def x_Name(self, e, st):
        n = e.id
        if n in st.env:
            return self.val(st, st.env[n])
        if n in ("True", "False", "None"):
            return self.val(st, C({"True": True, "False": False, "None": None}[n]))
        if n == "NULL":
            return self.val(st, ("null",))
        if n in self.consts:
            return self.ev(self.consts[n], st)
        return self.val(st, ("name", n))

    def x_Attribute(self, e, st):
        def f(s, o):
            if o == ("self",):
                return self.selfattr(s, e.attr)
            if o[0] == "ref":
                return self.val(s, ("ref",) + o[1:] + (e.attr,))
            if o[0] == "name":
                full = o[1] + "." + e.attr
                c = self.k.constant(full)
                return self.val(s, c if c is not None else ("name", full))
            return self.val(s, ("attr", o, e.attr))
        return self.bind(self.ev0(e.value, st), f)

    def selfattr(self, st, a):
        c = self.cls
        if a == PARS or a in STAGES:
            return self.val(st, ("ref", a))
        if a in c["getters"]:
            return self.inline(st, c["getters"][a], [], {})
        if a in c["methods"] or a in c["static"]:
            return self.val(st, ("bound", a))
        if a in st.slf:
            return self.val(st, st.slf[a])
        if a in self.k.selffields:
            return self.val(st, ("selff", a))
        return [(st, "raise", ("exc", "AttributeError", "self.%s" % a))]

    def x_Subscript(self, e, st):
        def f(s, o):
            def g(s2, i):
                return self.index(s2, o, i)
            return self.bind(self.ev(e.slice, s), g)
        return self.bind(self.ev0(e.value, st), f)

    def x_Slice(self, e, st):
        return self.val(st, ("app", "slice"))

    def index(self, st, o, i):
        if o[0] == "ref":
            if o[1] == PARS:
                ptr = self.rv(st, o)
                return self.val(st, self.elem(st.content(ptr), i, ptr))
            return self.val(st, ("ref",) + o[1:] + (("ix", i),))
        if o[0] == "ptr":
            return self.val(st, self.elem(st.content(o), i, o))
        if o[0] == "seq":
            return self.val(st, subst(o[2], HASH, i))
        if o[0] in ("tuple", "list") and i[0] == "c" and isinstance(i[1], int) and -len(o) < i[1] < len(o) - 1:
            return self.val(st, o[1:][i[1]])
        if o[0] == "dict":
            if i[0] == "c":
                for kk, vv in zip(o[1], o[2]):
                    if kk == i:
                        return self.val(st, vv)
                return [(st, "raise", ("exc", "KeyError", ""))]
            return self.maybe_raise(st, ("app", "lookup", o, i), "KeyError", user(i) and st.pc.get(("app", "in", i, o)) is not True)
        if o[0] == "app" and o[1] == "np.array":
            return self.index(st, o[2], i)
        return self.maybe_raise(st, ("item", o, i), "Exception", user(o) or user(i))

    def elem(self, seq, i, ptr):
        if seq[0] == "seq":
            return subst(seq[2], HASH, i)
        return ("item", ptr, i)

    def maybe_raise(self, st, v, exc, may):
        out = self.val(st, v)
        if may and st.dirty():
            out.append((st.copy(), "raise", ("exc", exc, "implicit")))
        return out

    def x_Tuple(self, e, st):
        return self.evs(e.elts, st, lambda s, vs: self.val(s, ("tuple",) + tuple(vs)))

    def x_List(self, e, st):
        return self.evs(e.elts, st, lambda s, vs: self.val(s, ("list",) + tuple(vs)))

    def x_Dict(self, e, st):
        n = len(e.keys)
        return self.evs(list(e.keys) + list(e.values), st, lambda s, vs: self.val(s, ("dict", tuple(vs[:n]), tuple(vs[n:]))))

    def x_BinOp(self, e, st):
        op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%"}[type(e.op)]

        def f(s, vs):
            a, b = vs
            if op == "+" and a[0] == b[0] and a[0] in ("list", "tuple"):
                return self.val(s, a + b[1:])
            return self.val(s, norm_app(op, (a, b)))
        return self.evs([e.left, e.right], st, f)

    def x_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            def f(s, v):
                return [(s2, "v", C(not b)) for s2, b in self.truth(s, v)]
            return self.bind(self.ev(e.operand, st), f)

        def g(s, v):
            return self.val(s, C(-v[1]) if v[0] == "c" else ("app", "neg", v))
        return self.bind(self.ev(e.operand, st), g)

    def x_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(i, st):
            def f(s, v):
                if i == len(e.values) - 1:
                    return self.val(s, v)
                out = []
                for s2, b in self.truth(s, v):
                    out += go(i + 1, s2) if b == isand else self.val(s2, v if v[0] == "c" else C(b))
                return out
            return self.bind(self.ev(e.values[i], st), f)
        return go(0, st)

    def x_Compare(self, e, st):
        names = {ast.Lt: "<", ast.Gt: ">", ast.LtE: "<=", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
                 ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

        def f(s, vs):
            if len(e.ops) != 1:
                ts = [self.cmp(s, names[type(o)], vs[i], vs[i + 1]) for i, o in enumerate(e.ops)]
                if all(t[0] == "c" for t in ts):
                    return self.val(s, C(all(t[1] for t in ts)))
                return self.val(s, ("app", "and") + tuple(ts))
            return self.val(s, self.cmp(s, names[type(e.ops[0])], vs[0], vs[1]))
        return self.evs([e.left] + e.comparators, st, f)

    def cmp(self, st, op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                return C({"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y,
                          "==": lambda: x == y, "!=": lambda: x != y, "is": lambda: x is y, "isnot": lambda: x is not y,
                          "in": lambda: x in y, "notin": lambda: x not in y}[op]())
            except Exception:
                pass
        if op in ("is", "isnot") and b == NONE and a[0] != "c" and a[0] != "arg":
            return C(op == "isnot")
        if op in ("==", "is") and (a == ("null",) or b == ("null",)):
            return ("app", "isnull", a if b == ("null",) else b)
        if op == "!=" and (a == ("null",) or b == ("null",)):
            return ("app", "not", ("app", "isnull", a if b == ("null",) else b))
        if op == "isnot" or op == "!=":
            return ("app", "not", ("app", "cmp", C("is" if op == "isnot" else "=="), a, b))
        if op == "notin":
            return ("app", "not", self.cmp(st, "in", a, b))
        if op == "in":
            if b[0] == "dict" and a[0] == "c":
                return C(a in b[1])
            if b[0] in ("list", "tuple") and a[0] == "c" and all(x[0] == "c" for x in b[1:]):
                return C(a in b[1:])
            return ("app", "in", a, b)
        if op == ">":
            return ("app", "cmp", C("<"), b, a)
        if op == ">=":
            return ("app", "cmp", C("<="), b, a)
        return ("app", "cmp", C(op), a, b)

    def x_IfExp(self, e, st):
        def f(s, v):
            out = []
            for s2, b in self.truth(s, v):
                out += self.ev(e.body if b else e.orelse, s2)
            return out
        return self.bind(self.ev(e.test, st), f)

    # iteration: -> (length, element term in HASH) or a concrete list
    def iteration(self, st, v):
        if v[0] in ("list", "tuple"):
            return list(v[1:])
        if v[0] == "dict":
            return list(v[1])
        if v[0] == "seq":
            return (v[1], v[2])
        if v[0] == "app":
            if v[1] in ("np.array", "list", "iter", "tuple"):
                return self.iteration(st, v[2])
            if v[1] == "range":
                n = v[2]
                return (n, HASH) if len(v) == 3 and n[0] != "c" else [C(i) for i in range(*[x[1] for x in v[2:]])] \
                    if all(x[0] == "c" for x in v[2:]) else self.bad("range")
            if v[1] == "enumerate":
                r = self.iteration(st, v[2])
                if isinstance(r, list):
                    return [("tuple", C(i), x) for i, x in enumerate(r)]
                return (r[0], ("tuple", HASH, r[1]))
            if v[1] == "zip":
                rs = [self.iteration(st, x) for x in v[2:]]
                if all(isinstance(r, list) for r in rs):
                    return [("tuple",) + x for x in zip(*rs)]
                if any(isinstance(r, list) for r in rs):
                    self.bad("zip")
                ns = {r[0] for r in rs}
                n = rs[0][0] if len(ns) == 1 else ("app", "min") + tuple(r[0] for r in rs)
                return (n, ("tuple",) + tuple(r[1] for r in rs))
        return (("app", "len", v), ("item", v, HASH))

    def bad(self, m):
        raise Unsupported(m)

    def assign_target(self, st, t, v):
        """local names only"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if v[0] in ("tuple", "list"):
                    if len(v) - 1 != len(t.elts):
                        raise Unsupported("unpack")
                    self.assign_target(st, x, v[1 + i])
                else:
                    self.assign_target(st, x, ("item", v, C(i)))
        else:
            raise Unsupported("target")

    def comp(self, e, st):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]

        def f(s, it):
            r = self.iteration(s, it)
            if isinstance(r, list):
                def go(i, s, acc):
                    if i == len(r):
                        return self.val(s, ("list",) + tuple(acc))
                    s.env = dict(s.env)
                    self.assign_target(s, g.target, r[i])
                    if g.ifs:
                        raise Unsupported("filtered comprehension")
                    return self.bind(self.ev(e.elt, s), lambda s2, v: go(i + 1, s2, acc + [v]))
                saved = s.env
                outs = go(0, s, [])
                for o in outs:
                    o[0].env = dict(saved)
                return outs
            if g.ifs:
                raise Unsupported("filtered comprehension")
            n, el = r
            b = s.copy()
            self.assign_target(b, g.target, el)
            pc0 = dict(b.pc)
            outs = self.ev(e.elt, b)
            res, vals = [], []
            for o, k, v in outs:
                if k == "raise":
                    o.env = dict(s.env)
                    res.append((o, k, v))
                elif o.log != s.log:
                    raise Unsupported("comprehension with effects (line %s)" % e.lineno)
                else:
                    vals.append((o, v))
            if not vals:
                raise Unsupported("comprehension without value")
            vs = {v for _, v in vals}
            if len(vs) == 1:
                el = vs.pop()
            else:           # element value depends on a condition on the element
                el = ("app", "cases") + tuple((tuple(sorted(((c, b) for c, b in o.pc.items() if c not in pc0), key=str)), v) for o, v in vals)
            c = s.copy()
            # what the evaluation of every element has established, of the generic one
            for q, b in vals[0][0].pc.items():
                if q not in pc0 and all(o.pc.get(q) == b for o, _ in vals) and mentions(q, lambda x: x == HASH):
                    c.pc[q] = b
            if user(el) and st.dirty():
                res.append((s.copy(), "raise", ("exc", "Exception", "implicit")))
            res.append((c, "v", ("seq", n, el)))
            return res
        return self.bind(self.ev(g.iter, st), f)

    x_ListComp = x_GeneratorExp = comp

    def x_DictComp(self, e, st):
        g = e.generators[0]

        def f(s, it):
            if it[0] == "app" and it[1] == "items" and it[2][0] == "dict" and len(e.generators) == 1 and not g.ifs:
                ks, vs = [], []
                for kk, vv in zip(it[2][1], it[2][2]):
                    b = s.copy()
                    self.assign_target(b, g.target, ("tuple", kk, vv))
                    (o, k1, a), = self.ev(e.key, b)
                    (o, k2, c), = self.ev(e.value, b)
                    ks.append(a)
                    vs.append(c)
                return self.val(s, ("dict", tuple(ks), tuple(vs)))
            raise Unsupported("dict comprehension (line %s)" % e.lineno)
        return self.bind(self.ev(g.iter, st), f)

    # -- calls
    def x_Call(self, e, st):
        fn = e.func
        kws = {k.arg: k.value for k in e.keywords}

        def withf(s, fv):
            starred = None in kws
            names = [k for k in kws if k is not None]
            es = list(e.args) + [kws[k] for k in names] + ([kws[None]] if starred else [])
            lazy = fv in (("name", "__addr__"),)

            def g(s2, vs):
                kw = dict(zip(names, vs[len(e.args):]))
                if starred:
                    kw["**"] = vs[-1]
                return self.call(s2, fv, vs[:len(e.args)], kw, e)
            if lazy:
                return self.bind(self.ev0(e.args[0], s), lambda s2, v: self.val(s2, ("addr",) + v[1:] if v[0] == "ref" else ("addr", v)))
            return self.evs(es, s, g)
        return self.bind(self.ev0(fn, st), withf)

    def call(self, st, f, args, kw, e):
        c = self.cls
        if f[0] == "bound":
            if f[1] in c["methods"]:
                return self.inline(st, c["methods"][f[1]], args, kw)
            return self.inline(st, c["static"][f[1]], args, kw, static=True)
        if f[0] == "name":
            n = f[1]
            r = self.k.call(self, st, n, args, kw, e)
            if r is not None:
                return r
            if n in self.funcs:
                return self.inline(st, self.funcs[n], args, kw, static=True)
            if n == "__cast__":
                return self.val(st, args[1])
            if n == "__sizeof__":
                return self.val(st, ("sizeof", args[0][1]))
            if n in ("malloc", "ccoffe.coffe_malloc"):
                s = st.copy()
                s.fresh += 1
                p = ("ptr", s.fresh)
                s.cont[p] = ("uninit", args[0])
                return self.val(s, p)
            if n == "free":
                s = st.copy()
                s.ev = s.ev + (("free", args[0]),)
                return self.val(s, NONE)
            if n.startswith("ccoffe."):
                raise Unsupported("no contract for the C function %s" % n[7:])
            if n == "len" and len(args) == 1:
                return self.maybe_raise(st, norm_app("len", tuple(args)), "TypeError", args[0][0] == "arg")
            if n in BOUND_EXC or n.endswith("Error"):
                return self.val(st, ("exc", n, ""))
            if n in ("dereference",):
                return self.val(st, ("deref", args[0]))
            if n == "list" and len(args) == 1 and args[0][0] in ("list", "tuple", "dict"):
                return self.val(st, ("list",) + tuple(args[0][1] if args[0][0] == "dict" else args[0][1:]))
            if n in ("setattr", "getattr", "hasattr", "dir", "vars", "super", "exec", "eval"):
                raise Unsupported("dynamic attribute access (%s)" % n)
            if n in ("all", "any") and len(args) == 1 and args[0][0] in ("list", "tuple"):
                return self.anyall(st, n, args[0][1:])
            self.used.add(n)
            v = norm_app(n, tuple(args) + tuple(("kw", k, v) for k, v in sorted(kw.items())))
            if n in ("range", "enumerate", "zip") and all(a[0] in ("seq", "list", "tuple") or a[0] == "app" and a[1] in ("len", "range", "enumerate", "zip") for a in args):
                return self.val(st, v)
            may = any(user(a) for a in args) and n not in ("isinstance", "bool", "type", "int") or n == "int" and not all(self.k.converts(self, st, a) for a in args)
            return self.maybe_raise(st, v, "Exception", may)
        if f[0] == "attr":
            o, a = f[1], f[2]
            if a == "values" and o[0] == "dict":
                return self.val(st, ("list",) + o[2])
            if a == "keys" and o[0] == "dict":
                return self.val(st, ("list",) + o[1])
            if a == "items":
                return self.val(st, ("app", "items", o))
            return self.maybe_raise(st, ("app", "." + a, o) + tuple(args), "Exception", user(o) or any(user(x) for x in args))
        raise Unsupported("call of %s (line %s)" % (f[0], e.lineno))

    def anyall(self, st, n, xs):
        """the short-circuit exits are joined: they differ only in what is known about the elements"""
        isall = n == "all"
        cur, exits = [st], []
        for x in xs:
            nxt = []
            for s in cur:
                for s2, b in self.truth(s, x):
                    (nxt if b == isall else exits).append(s2)
            cur = nxt
        out = [(s, "v", C(isall)) for s in cur]
        if exits:
            j = st.copy()
            j.pc[("app", n) + tuple(xs)] = not isall
            if len(exits) == 1:
                j = exits[0]
            out.append((j, "v", C(not isall)))
        return out

    def inline(self, st, fd, args, kw, static=False):
        if getattr(fd, "unsupported", None):
            raise Unsupported(fd.unsupported)
        self.depth += 1
        if self.depth > 25:
            raise Unsupported("recursion")
        try:
            A = fd.args
            names = [a.arg for a in A.args]
            env = {}
            if not static:
                env[names[0]] = ("self",)
                names = names[1:]
                defs = A.all_defaults[1:]
            else:
                defs = A.all_defaults
            kw = dict(kw)
            if "**" in kw:
                raise Unsupported("** call")
            extra = list(args[len(names):])
            if extra and not A.vararg:
                raise Unsupported("too many arguments")
            outs = [(st, "v", NONE)]
            for i, n in enumerate(names):
                if i < len(args):
                    env[n] = args[i]
                elif n in kw:
                    env[n] = kw.pop(n)
                elif defs[i] is not None:
                    d = defs[i]
                    env[n] = C(d.value) if isinstance(d, ast.Constant) else self.ev(d, st)[0][2]
                else:
                    raise Unsupported("missing argument %s" % n)
            if A.kwarg:
                env[A.kwarg.arg] = ("dict", tuple(C(k) for k in kw if k not in env), tuple(v for k, v in kw.items() if k not in env))
            if A.vararg:
                env[A.vararg.arg] = ("tuple",) + tuple(extra)
            saved = st.env
            s = st.copy()
            s.env = env
            res = []
            for o, k, v in self.block(fd.body, s):
                o.env = dict(saved)
                if k == "next":
                    res.append((o, "v", NONE))
                elif k == "ret":
                    res.append((o, "v", v))
                elif k == "raise":
                    res.append((o, k, v))
                else:
                    raise Unsupported("flow")
            return res
        finally:
            self.depth -= 1

    # -- statements
    def block(self, body, st):
        cur = [(st, "next", None)]
        for s in body:
            nxt = []
            for o, k, v in cur:
                if k == "next":
                    nxt += self.stmt(s, o)
                else:
                    nxt.append((o, k, v))
            cur = nxt
            if len(cur) > self.maxpaths:
                raise Unsupported("too many paths")
        return cur

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %s)" % (type(s).__name__, s.lineno))
        return m(s, st)

    def nx(self, outs):
        return [(s, "next" if k == "v" else k, None if k == "v" else v) for s, k, v in outs]

    def s_Pass(self, s, st):
        return [(st, "next", None)]

    def s_Expr(self, s, st):
        return self.nx(self.ev(s.value, st))

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, "ret", NONE)]
        return [(o, "ret" if k == "v" else k, v) for o, k, v in self.ev(s.value, st)]

    def s_Raise(self, s, st):
        out = []
        for o, k, v in self.ev(s.exc, st) if s.exc is not None else self.val(st, ("exc", "Exception", "")):
            if k == "v":
                v = ("exc", v[1], "") if v[0] in ("name", "exc") else ("exc", "Exception", "")
            out.append((o, "raise", v))
        return out

    def s_If(self, s, st):
        def f(o, v):
            out = []
            for o2, b in self.truth(o, v):
                out += self.block(s.body if b else s.orelse, o2)
            return out
        return [(o, k, v) for o, k, v in self.bind(self.ev(s.test, st), f)]

    def s_Assign(self, s, st):
        def f(o, v):
            outs = [(o, "v", None)]
            for t in s.targets:
                outs = self.bind(outs, lambda o2, _, t=t: self.store(o2, t, v))
            return self.nx(outs)
        outs = self.ev(s.value, st)
        return [r for o, k, v in outs for r in (f(o, v) if k == "v" else [(o, k, v)])]

    def s_AugAssign(self, s, st):
        b = ast.BinOp(s.target, s.op, s.value)
        ast.copy_location(b, s)
        a = ast.Assign([s.target], b)
        ast.copy_location(a, s)
        return self.s_Assign(a, st)

    def store(self, st, t, v):
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env[t.id] = v
            return self.val(s, NONE)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = self.val(st, NONE)
            for i, x in enumerate(t.elts):
                if v[0] in ("tuple", "list"):
                    if len(v) - 1 != len(t.elts):
                        return [(st, "raise", ("exc", "ValueError", "unpack"))]
                    w = v[1 + i]
                elif v[0] == "seq":
                    w = subst(v[2], HASH, C(i))
                else:
                    w = ("item", v, C(i))
                outs = self.bind(outs, lambda o, _, x=x, w=w: self.store(o, x, w))
            return outs
        if isinstance(t, ast.Attribute):
            def f(o, base):
                if base == ("self",):
                    if t.attr in self.cls["setters"]:
                        return self.inline(o, self.cls["setters"][t.attr], [v], {})
                    if t.attr in self.cls["getters"]:
                        return [(o, "raise", ("exc", "AttributeError", t.attr))]
                    s = o.copy()
                    if t.attr not in self.k.selffields:
                        return [(o, "raise", ("exc", "AttributeError", t.attr))]
                    s.slf[t.attr] = v
                    s.log = s.log + (("self", t.attr),)
                    return self.val(s, NONE)
                if base[0] == "ref" and base[1] == PARS:
                    path = ".".join(base[2:] + (t.attr,))
                    return self.cstore(o, path, v)
                if base[0] == "ref":
                    return self.k.stagestore(self, o, base, t.attr, v)
                raise Unsupported("store to attribute (line %s)" % t.lineno)
            return self.bind(self.ev0(t.value, st), f)
        if isinstance(t, ast.Subscript):
            def g(o, base):
                def h(o2, i):
                    ptr = self.rv(o2, base)
                    if ptr[0] == "name":
                        return self.val(o2, NONE)
                    if ptr[0] not in ("ptr", "par"):
                        raise Unsupported("store to item (line %s)" % t.lineno)
                    outs = []
                    if not self.k.converts(self, o2, v):
                        outs.append((o2.copy(), "raise", ("exc", "TypeError", "implicit")))
                    s = o2.copy()
                    if i != HASH and not (i[0] == "c"):
                        raise Unsupported("store at a computed index (line %s)" % t.lineno)
                    if i[0] == "c":
                        old = s.content(ptr)
                        s.cont[ptr] = ("upd", old, i, v)
                    else:
                        s.cont[ptr] = ("pending", v)
                    if ptr[0] == "par":
                        s.log = s.log + (("arr", ptr[1]),)
                    return outs + self.val(s, NONE)
                return self.bind(self.ev(t.slice, o), h)
            return self.bind(self.ev0(t.value, st), g)
        raise Unsupported("target %s" % type(t).__name__)

    def cstore(self, st, path, v):
        outs = []
        if not self.k.converts(self, st, v):
            outs.append((st.copy(), "raise", ("exc", "TypeError", "implicit")))
        s = st.copy()
        s.par[path] = v
        s.log = s.log + (("par", path),)
        return outs + self.val(s, NONE)

    def s_For(self, s, st):
        def f(o, it):
            r = self.iteration(o, it)
            if isinstance(r, list):
                cur = [(o, "next", None)]
                for x in r:
                    nxt = []
                    for o2, k, v in cur:
                        if k in ("next", "continue"):
                            o3 = o2.copy()
                            self.assign_target(o3, s.target, x)
                            nxt += self.block(s.body, o3)
                        else:
                            nxt.append((o2, k, v))
                    cur = nxt
                return [(a, "next" if k in ("continue", "break") else k, v) for a, k, v in cur]
            n, el = r
            b = o.copy()
            self.assign_target(b, s.target, el)
            c0, l0, p0 = dict(b.cont), b.log, dict(b.par)
            res = []
            for a, k, v in self.block(s.body, b):
                if k == "raise":
                    res.append((a, k, v))
                    continue
                if k != "next" or a.par != p0 or a.stage != o.stage or a.slf != o.slf or a.pc != o.pc or \
                        any(x[0] != "arr" for x in a.log[len(l0):]):
                    raise Unsupported("loop body (line %s)" % s.lineno)
                for p, c in a.cont.items():
                    if c0.get(p) != c:
                        if c[0] != "pending":
                            raise Unsupported("loop store (line %s)" % s.lineno)
                        a.cont[p] = ("seq", n, c[1])
                a.env = {kk: vv for kk, vv in a.env.items() if kk in o.env and o.env[kk] == vv}
                res.append((a, "next", None))
            return res
        outs = self.ev(s.iter, st)
        return [r for o, k, v in outs for r in (f(o, v) if k == "v" else [(o, k, v)])]

    def s_Try(self, s, st):
        if s.finalbody:
            raise Unsupported("finally")
        outs = []
        log0 = st.log
        for o, k, v in self.block(s.body, st.copy()):
            if k != "raise":
                if o.log != log0 and any(True for h in s.handlers):
                    pass
                outs.append((o, k, v))
                continue
            caught = False
            for h in s.handlers:
                names = self.excnames(h.type)
                if names is None or v[1] in names or "Exception" in names:
                    o2 = o.copy()
                    if h.name:
                        o2.env[h.name] = v
                    outs += self.block(h.body, o2)
                    caught = True
                    break
            if not caught:
                outs.append((o, k, v))
        # an exception of a pure operation of the body
        names = {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name)}
        for h in s.handlers:
            if not any(user(st.env[n]) for n in names if n in st.env):
                break
            o2 = st.copy()
            o2.pc[("app", "raised", C(s.lineno))] = True
            if h.name:
                o2.env[h.name] = ("exc", "Exception", "")
            outs += self.block(h.body, o2)
        if s.orelse:
            raise Unsupported("try-else")
        return outs

    def excnames(self, t):
        if t is None:
            return None
        if isinstance(t, ast.Name):
            return {t.id}
        return {x.id for x in t.elts}

    def run(self, kind, name, st):
        fd = self.cls[kind][name]
        static = kind == "static"
        A = fd.args
        names = [a.arg for a in A.args][0 if static else 1:]
        self.count = 0
        args = [("arg", n) for n in names]
        return self.inline(st, fd, args, {}, static=static)
