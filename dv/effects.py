"""Frame (assigns) contracts over the clang AST.

For every function a summary {storage it may write, storage its result may point to} is computed as the least
fixpoint over the call graph: it is the strongest `assigns` clause this abstraction can express, and a caller is
judged against the callee's clause, never its body.  Storage is named by where it came from:
   ('L', id)  an automatic variable        ('H', id)  an allocation or anything an external call returned
   ('P', i)   what parameter i points to   ('Q', i)   anything further reachable from parameter i
   ('G', nm)  static storage               ('F', nm)  a function
The analysis is flow-insensitive, so it over-approximates; `sure` marks an effect that some statement performs
literally (as opposed to one that may only be an artefact of the abstraction)."""
import re
from dv.cast import sort_of, strip

PURE = set("""cos sin tan acos asin atan atan2 fabs sqrt pow log log10 log2 exp exp2 cosh sinh tanh floor ceil round
fmin fmax abs labs fmod cbrt expm1 log1p hypot lgamma tgamma erf erfc isfinite isnan isinf nan gsl_finite gsl_isnan
gsl_isinf __isnan __isinf __finite __builtin_isnan __builtin_isinf_sign __builtin_isfinite __builtin_fabs strlen
strcmp strncmp __builtin_nanf __builtin_inff __builtin_nan __builtin_inf gsl_pow_2 gsl_pow_3 gsl_pow_4 gsl_pow_5
gsl_pow_6 gsl_pow_7 gsl_pow_8 gsl_pow_9 gsl_pow_int cpow cexp clog csin ccos csqrt cabs creal cimag conj carg
__ctype_b_loc strtol strtod atof atoi gsl_strerror ldexp frexp copysign trunc""".split())
# external functions whose writes stay inside what the named arguments point to (or nothing at all)
EXT = {
    "malloc": (), "calloc": (), "realloc": (0,), "free": (0,), "memcpy": (0,), "memset": (0,), "memmove": (0,),
    "strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "sprintf": (0,), "snprintf": (0,),
    "strdup": (), "qsort": (0,), "fprintf": (), "printf": (), "puts": (), "fputs": (), "putchar": (), "fflush": (),
    "exit": (), "abort": (), "perror": (), "__assert_fail": (),
    "gsl_integration_qag": (7, 8, 9), "gsl_integration_qags": (6, 7, 8), "gsl_integration_qagiu": (5, 6, 7), "gsl_integration_cquad": (5, 6, 7, 8),
    "gsl_integration_qng": (5, 6, 7), "gsl_integration_qagil": (5, 6, 7), "gsl_integration_qagi": (4, 5, 6),
    "gsl_integration_workspace_alloc": (), "gsl_integration_workspace_free": (0,),
    "gsl_integration_cquad_workspace_alloc": (), "gsl_integration_cquad_workspace_free": (0,),
    "gsl_integration_glfixed_table_alloc": (), "gsl_integration_glfixed_table_free": (0,), "gsl_integration_glfixed": (),
    "gsl_monte_plain_alloc": (), "gsl_monte_plain_free": (0,), "gsl_monte_miser_alloc": (), "gsl_monte_miser_free": (0,),
    "gsl_monte_vegas_alloc": (), "gsl_monte_vegas_free": (0,), "gsl_monte_vegas_init": (0,), "gsl_monte_plain_init": (0,), "gsl_monte_miser_init": (0,),
    "gsl_monte_plain_integrate": (5, 6, 7, 8), "gsl_monte_miser_integrate": (5, 6, 7, 8),
    "gsl_monte_vegas_integrate": (1, 2, 5, 6, 7, 8),
    "gsl_rng_alloc": (), "gsl_rng_free": (0,), "gsl_rng_set": (0,), "gsl_rng_uniform": (0,), "gsl_rng_clone": (),
    "gsl_spline_alloc": (), "gsl_spline_init": (0,), "gsl_spline_free": (0,), "gsl_spline2d_alloc": (),
    "gsl_spline2d_init": (0,), "gsl_spline2d_free": (0,), "gsl_interp_accel_alloc": (), "gsl_interp_accel_free": (0,),
    "gsl_interp_alloc": (), "gsl_interp_free": (0,), "gsl_interp_init": (0,),
    "fftw_malloc": (), "fftw_free": (0,), "fftw_execute": (0,), "fftw_alloc_complex": (), "fftw_alloc_real": (),
    "gsl_odeiv2_driver_alloc_y_new": (), "gsl_odeiv2_driver_free": (0,), "gsl_odeiv2_driver_apply": (0, 1, 3),
    "gsl_odeiv2_step_alloc": (), "gsl_odeiv2_step_free": (0,), "gsl_odeiv2_control_y_new": (), "gsl_odeiv2_control_free": (0,),
    "gsl_odeiv2_evolve_alloc": (), "gsl_odeiv2_evolve_free": (0,), "gsl_odeiv2_evolve_apply": (0, 1, 2, 4, 6, 7),
    "clock": (), "time": (0,), "fopen": (), "fclose": (0,), "getline": (0, 1, 2), "fgets": (0, 2), "fscanf": (0,), "sscanf": (),
}
COPIES = {"memcpy", "memmove", "realloc", "strcpy", "strncpy", "qsort"}
FILLS = {"memset", "strcat", "strncat", "sprintf", "snprintf", "free", "getline", "fgets", "sscanf", "fscanf", "time", "gsl_spline_init",
         "gsl_spline2d_init", "gsl_interp_init", "gsl_spline_free", "gsl_spline2d_free", "gsl_interp_free", "gsl_interp_accel_free", "fftw_free", "fftw_execute",
         "fclose", "gsl_odeiv2_evolve_apply", "gsl_odeiv2_driver_apply"} | {x for x in EXT if x.startswith(("gsl_integration", "gsl_monte", "gsl_rng"))}
# the interpolation accelerator of GSL is a cached bracket: writing it is not observable in the result (assumption)
ACCEL = {"gsl_spline_eval": 2, "gsl_spline_eval_deriv": 2, "gsl_spline_eval_deriv2": 2, "gsl_spline_eval_integ": 3,
         "gsl_spline_eval_e": 2, "gsl_interp_eval": 4}
ACCEL2 = {"gsl_spline2d_eval": (3, 4), "gsl_spline2d_eval_deriv_x": (3, 4), "gsl_spline2d_eval_deriv_y": (3, 4)}
# process-wide state of the libraries, or values that are not a function of the inputs
NONDET = set("""rand random drand48 lrand48 mrand48 srand srandom srand48 getpid gettimeofday clock_gettime
omp_get_thread_num omp_get_num_threads omp_get_max_threads omp_get_num_procs omp_get_wtime sched_getcpu pthread_self
strtok setlocale tmpnam omp_set_num_threads time clock gsl_set_error_handler gsl_set_error_handler_off""".split())
IDEMPOTENT = {"gsl_rng_env_setup"}
PLANNER = re.compile(r"^fftw[fl]?_(plan_|destroy_plan|cleanup|import_|export_|set_timelimit|init_threads|plan_with)")
# objects of GSL that hold no pointer to an object of the program
OPAQUE = {x + y for x in ("", "struct ") for y in ("gsl_spline", "gsl_spline2d", "gsl_interp", "gsl_interp2d", "gsl_interp_accel")}
CLAUSE = re.compile(r"\b([a-z_]+)\s*(?:\(([^()]*(?:\([^()]*\)[^()]*)*)\))?")


def kids(n):
    return [x for x in n.get("inner", ()) if x]


def walk(n):
    yield n
    for x in kids(n):
        yield from walk(x)


def peel(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "ConstantExpr", "ExprWithCleanups"):
        n = kids(n)[-1]
    return n


def peel_parens(n):
    while n.get("kind") in ("ParenExpr", "ConstantExpr"):
        n = kids(n)[0]
    return n


def offset(n):
    b = n.get("range", {}).get("begin", {})
    for k in ("offset",):
        if k in b:
            return b[k]
    for k in ("expansionLoc", "spellingLoc"):
        if k in b and "offset" in b[k]:
            return b[k]["offset"]
    return None


class World(object):
    """all translation units: functions by name"""

    def __init__(self, tus):
        self.tus = tus
        self.fn, self.tu_of, self.src = {}, {}, {}
        for tu in tus:
            self.src[tu.fname] = open(tu.path, "rb").read()
            for n, d in tu.functions.items():
                p = str(d.get("loc", {}).get("includedFrom", ""))
                self.fn.setdefault(n, d)
                self.tu_of.setdefault(n, tu)
        self.sum = {}
        self.info = {}
        self._reach = {}
        for n in self.fn:
            self.sum[n] = Summary()
        self.fixpoint()

    def fixpoint(self):
        for rnd in range(40):
            changed = False
            for n in self.fn:
                f = Fn(self, n)
                f.run()
                s = f.summary()
                self.info[n] = f
                if s != self.sum[n]:
                    self.sum[n] = s
                    changed = True
            if not changed:
                return
        raise RuntimeError("the frame contracts do not reach a fixpoint")

    # ---- types
    def tname(self, tu, q):
        q = strip(q)
        for _ in range(8):
            if q.startswith("struct "):
                return q
            if q in tu.typedefs:
                nq = strip(tu.typedefs[q])
                if nq == q or nq == "struct " + q:
                    return "struct " + q
                if q in tu.recname and not nq.startswith("struct "):
                    return "struct " + q
                q = nq
                continue
            break
        return "struct " + q if q in tu.recname else q

    def inside(self, tu, ty):
        """record types embedded in an object of this type; None when it is not known"""
        q = ty if isinstance(ty, str) else ty.get("desugaredQualType", ty.get("qualType"))
        q = strip(q)
        q = re.sub(r"(\[[^\]]*\])+$", "", q).strip()
        if q.endswith("*"):
            return set()
        if q == "void":
            return None
        s = sort_of(tu, q)
        if s in ("R", "I", "F"):
            return set()
        n = self.tname(tu, q)
        out = {n}
        for nm, t in tu.fields_of(q) or tu.fields_of(n) or ():
            r = self.inside(tu, t)
            if r is None:
                return None
            out |= r
        return out

    def reachable(self, tu, q):
        """record types of everything reachable through the pointers of an object of this type"""
        key = (tu.fname, strip(q))
        if key in self._reach:
            return self._reach[key]
        seen, st, out = set(), [strip(q)], set()
        while st:
            t = st.pop()
            t = strip(re.sub(r"(\[[^\]]*\])+$", "", strip(t)))
            if t in seen:
                continue
            seen.add(t)
            if t == "void":
                self._reach[key] = None
                return None
            if t.endswith("*"):
                t = strip(t[:-1])
                if "(" in t:
                    continue
                if t == "void":
                    self._reach[key] = None
                    return None
                r = self.inside(tu, t)
                if r is None:
                    self._reach[key] = None
                    return None
                out |= r
                st.append(t)
                continue
            if "(*" in t or t in OPAQUE or self.tname(tu, t) in OPAQUE:
                continue
            for nm, ft in tu.fields_of(t) or tu.fields_of(self.tname(tu, t)) or ():
                st.append(ft.get("desugaredQualType", ft["qualType"]))
        self._reach[key] = out
        return out

    def reach(self, names):
        seen, st = set(), list(names)
        while st:
            a = st.pop()
            if a in seen or a not in self.fn:
                continue
            seen.add(a)
            st.extend(self.refs(self.fn[a]))
        return seen

    @staticmethod
    def refs(node):
        out = set()
        for x in walk(node):
            if x.get("kind") == "DeclRefExpr" and x["referencedDecl"].get("kind") == "FunctionDecl":
                out.add(x["referencedDecl"]["name"])
        return out


class Summary(object):
    def __init__(self):
        self.writes = {}      # root -> (sure, text)
        self.ret = frozenset()
        self.keeps = {}       # root -> what pointers stored there may point to afterwards

    def __eq__(self, o):
        return {k: (v[0], v[2]) for k, v in self.writes.items()} == {k: (v[0], v[2]) for k, v in o.writes.items()} and self.ret == o.ret and self.keeps == o.keeps


def nparams(d):
    return [x for x in kids(d) if x.get("kind") == "ParmVarDecl"]


def carries(tu, ty):
    """may a value of this type hold a pointer"""
    s = sort_of(tu, ty)
    return s in ("P", "A", "S", "F")


class Fn(object):
    def __init__(self, world, name, node=None):
        self.w, self.name = world, name
        self.node = node or world.fn[name]
        self.tu = world.tu_of[name]
        self.holds = {}
        self.static = {}
        self.params = nparams(self.node)
        self.writes = {}
        self.ret = set()
        self.notes = []          # (kind, text)
        for i, p in enumerate(self.params):
            self.holds[("L", p["id"])] = {("P", i)} if carries(self.tu, p["type"]) else set()
            self.holds[("P", i)] = {("Q", i)}
            self.holds[("Q", i)] = {("Q", i)}
        for x in walk(self.node):
            if x.get("kind") == "VarDecl" and x.get("storageClass") == "static":
                self.static[x["id"]] = "%s:%s" % (name, x.get("name"))

    # ---- roots
    def var_root(self, ref):
        k = ref.get("kind")
        if k == "FunctionDecl":
            return ("F", ref["name"])
        if k == "EnumConstantDecl":
            return None
        i = ref["id"]
        if i in self.static:
            return ("G", self.static[i])
        if i in self.tu.globals:
            return ("G", self.tu.globals[i].get("name", i))
        if k == "VarDecl" and not self.is_local(i):
            return ("G", ref.get("name", i))
        return ("L", i)

    def is_local(self, i):
        if not hasattr(self, "_locals"):
            self._locals = {x["id"] for x in walk(self.node) if x.get("kind") in ("VarDecl", "ParmVarDecl")}
        return i in self._locals

    def get(self, roots):
        out = set()
        for r in roots:
            if r[0] == "G":
                out |= self.holds.get(r, set()) | {("G", r[1] + "->")} if not r[1].endswith("->") else {r}
            else:
                out |= self.holds.get(r, set())
        return out

    def closure(self, roots):
        seen, st = set(), list(roots)
        while st:
            r = st.pop()
            if r in seen:
                continue
            seen.add(r)
            st.extend(self.holds.get(r, ()))
        return seen

    def lval(self, e):
        """storage the lvalue designates"""
        e = peel_parens(e)
        k = e.get("kind")
        if k == "DeclRefExpr":
            r = self.var_root(e["referencedDecl"])
            return {r} if r else set()
        if k == "MemberExpr":
            b = kids(e)[0]
            return self.rval(b) if e.get("isArrow") else self.lval(b)
        if k == "ArraySubscriptExpr":
            return self.rval(kids(e)[0]) | (self.rval(kids(e)[1]) if carries(self.tu, kids(e)[1]["type"]) else set())
        if k == "UnaryOperator" and e.get("opcode") == "*":
            return self.rval(kids(e)[0])
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lval(kids(e)[-1])
        if k in ("CompoundLiteralExpr", "InitListExpr", "StringLiteral", "PredefinedExpr"):
            r = ("L", e.get("id", "lit"))
            if k != "StringLiteral":
                self.holds.setdefault(r, set()).update(self.inner_ptrs(e))
            return {r}
        if k == "CallExpr":
            return self.rval(e)
        if k in ("UnaryOperator",) and e.get("opcode") in ("__extension__", "__real", "__imag", "++", "--"):
            return self.lval(kids(e)[0])
        if k == "ConditionalOperator":
            c = kids(e)
            return self.lval(c[1]) | self.lval(c[2])
        if k == "BinaryOperator" and e.get("opcode") in ("=", ","):
            return self.lval(kids(e)[0 if e["opcode"] == "=" else 1])
        return set()

    def inner_ptrs(self, e):
        out = set()
        for c in kids(e):
            if c.get("type") and carries(self.tu, c["type"]):
                out |= self.rval(c)
            elif c.get("kind") in ("InitListExpr",):
                out |= self.inner_ptrs(c)
        return out

    def rval(self, e):
        """what the pointers in the value may point to"""
        k = e.get("kind")
        if k in ("ParenExpr", "ConstantExpr"):
            return self.rval(kids(e)[0])
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            c = kids(e)[-1]
            ck = e.get("castKind")
            if ck in ("ArrayToPointerDecay", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
                return self.lval(c)
            if ck == "LValueToRValue":
                if not carries(self.tu, e["type"]):
                    return set()
                return self.get(self.lval(c))
            if ck in ("NullToPointer",):
                return set()
            return self.rval(c)
        if e.get("type") and not carries(self.tu, e["type"]):
            return set()
        if k == "UnaryOperator":
            if e.get("opcode") == "&":
                return self.lval(kids(e)[0])
            if e.get("opcode") in ("++", "--", "__extension__"):
                return self.get(self.lval(kids(e)[0])) if e["opcode"] != "__extension__" else self.rval(kids(e)[0])
            return set()
        if k == "BinaryOperator":
            c = kids(e)
            if e.get("opcode") == "=":
                return self.rval(c[1])
            if e.get("opcode") == ",":
                return self.rval(c[1])
            return self.rval(c[0]) | self.rval(c[1])
        if k == "CompoundAssignOperator":
            return self.get(self.lval(kids(e)[0]))
        if k == "ConditionalOperator":
            c = kids(e)
            return self.rval(c[1]) | self.rval(c[2])
        if k == "CallExpr":
            return self.call(e)
        if k == "InitListExpr":
            return self.inner_ptrs(e)
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):      # struct rvalues, function names
            r = self.lval(e)
            return r if any(x[0] == "F" for x in r) else self.get(r)
        if k == "CompoundLiteralExpr":
            return self.inner_ptrs(e)
        return set()

    # ---- effects
    def write(self, roots, sure, text, types=None):
        """types: the record types through which the storage is written (None: not known)"""
        for r in roots:
            if r is None or r[0] in ("F",):
                continue
            old = self.writes.get(r)
            if old is None:
                self.writes[r] = (sure, text, types)
            else:
                ty = None if types is None or old[2] is None else old[2] | types
                self.writes[r] = (sure, text, ty) if sure and not old[0] else (old[0], old[1], ty)

    def record_of(self, lv):
        """the record type of the whole object an lvalue is a member of, when it is written by member name"""
        e, out = peel_parens(lv), None
        while e.get("kind") == "MemberExpr":
            b = kids(e)[0]
            t = b["type"]
            t = t.get("desugaredQualType", t["qualType"])
            if e.get("isArrow"):
                t = strip(t)
                t = t[:-1] if t.endswith("*") else t
                return frozenset([self.w.tname(self.tu, t)])
            out = frozenset([self.w.tname(self.tu, t)])
            e = peel_parens(b)
            if e.get("kind") == "ArraySubscriptExpr":
                return out
        return out

    def may_be(self, root, types):
        """can the storage contain an object of one of these record types (strict aliasing)"""
        if types is None:
            return True
        t = None
        if root[0] == "L":
            d = self.decl(root[1])
            t = d and self.w.inside(self.tu, d["type"])
        elif root[0] in ("P", "Q") and root[1] < len(self.params):
            q = self.params[root[1]]["type"]
            q = strip(q.get("desugaredQualType", q["qualType"]))
            if q.endswith("*"):
                t = self.w.inside(self.tu, q[:-1]) if root[0] == "P" else self.w.reachable(self.tu, q[:-1])
        return t is None or bool(t & types)

    def decl(self, i):
        if not hasattr(self, "_decls"):
            self._decls = {x["id"]: x for x in walk(self.node) if x.get("kind") in ("VarDecl", "ParmVarDecl")}
        return self._decls.get(i)

    def where(self, e):
        o = offset(e)
        src = self.w.src[self.tu.fname]
        if o is None:
            return self.name
        return "%s:%d (%s)" % (self.tu.fname, src[:o].count(b"\n") + 1, self.name)

    def hold(self, roots, what):
        for r in roots:
            h = self.holds.setdefault(r, set())
            if not what <= h:
                h |= what
                self.changed = True

    def call(self, e):
        if e["id"] in self._callret:
            return self._callret[e["id"]]
        return set()

    def argval(self, a):
        return self.rval(a)

    def in_critical(self, e):
        """the name of the critical section around a call ("()" when it has none), or None"""
        if not hasattr(self, "_critical"):
            self._critical = {}
            src = self.w.src[self.tu.fname]
            for c in walk(self.node):
                if c.get("kind") == "OMPCriticalDirective":
                    o = offset(c)
                    m = re.match(rb"[^\n]*?critical\s*(\([^)]*\))?", src[src.rfind(b"\n", 0, o) + 1:])
                    nm = (m.group(1) if m else None) or b"()"
                    for x in walk(c):
                        if x.get("kind") == "CallExpr":
                            self._critical[x["id"]] = nm.decode()
        return self._critical.get(e["id"])

    def do_call(self, e):
        c = kids(e)
        args = c[1:]
        vals = [self.argval(a) for a in args]
        callee = peel(c[0])
        names = set()
        if callee.get("kind") == "DeclRefExpr" and callee["referencedDecl"].get("kind") == "FunctionDecl":
            names = {callee["referencedDecl"]["name"]}
        else:
            names = {r[1] for r in self.rval(c[0]) | self.lval(callee) if r[0] == "F"}
            if not names:
                self.notes.append(("pointer", self.where(e)))
        ret = set()
        fresh = ("H", e["id"])
        everything = set()
        for v in vals:
            everything |= self.closure(v)
        direct = len(names) == 1
        for n in names:
            if n in self.w.fn:
                s = self.w.sum[n]

                def m(root):
                    if root[0] == "P":
                        return vals[root[1]] if root[1] < len(vals) else set()
                    if root[0] == "Q":
                        v = vals[root[1]] if root[1] < len(vals) else set()
                        out = set()
                        for r in v:
                            out |= self.closure(self.holds.get(r, set()))
                        return out
                    if root[0] == "H":
                        return {fresh}
                    return {root}
                wrote = set()
                for root, (sure, text, types) in s.writes.items():
                    t = m(root)
                    wrote |= t
                    self.write(t, sure and direct and root[0] in ("G", "P"), text, types)
                for root, held in s.keeps.items():
                    got = set()
                    for r in held:
                        got |= m(r)
                    self.hold({r for r in m(root) if r[0] != "F"}, got)
                for root in s.ret:
                    ret |= m(root)
            else:
                ret |= self.external(e, n, args, vals, fresh)
        # functions handed over are called on whatever the call can reach
        handed = {r[1] for r in everything if r[0] == "F"}
        if handed and not (names and all(n in self.w.fn for n in names) and False):
            for h in handed:
                if h not in self.w.fn:
                    continue
                for root, (sure, text, types) in self.w.sum[h].writes.items():
                    if root[0] == "G":
                        self.write({root}, sure, text, types)
                    elif root[0] in ("P", "Q"):
                        self.write({r for r in everything if r[0] != "F" and self.may_be(r, types)} | {fresh}, False,
                                   text + " handed to " + "/".join(sorted(names)), types)
        if e.get("type") and carries(self.tu, e["type"]):
            self._callret[e["id"]] = ret
        else:
            self._callret[e["id"]] = set()

    def external(self, e, n, args, vals, fresh):
        if n in PURE:
            return set()
        if n in NONDET:
            self.notes.append(("nondet", "%s at %s" % (n, self.where(e))))
            return set()
        if n in IDEMPOTENT:
            self.notes.append(("idempotent", n))
            return set()
        if PLANNER.match(n):
            cs = self.in_critical(e)
            if not cs:
                self.notes.append(("planner", "%s at %s" % (n, self.where(e))))
            else:
                self.notes.append(("planned", cs))
            self.hold({fresh}, set().union(*vals) if vals else set())
            return {fresh}
        if n in ACCEL or n in ACCEL2:
            self.notes.append(("accel", n))
            return set()
        if re.match(r"^(gsl_sf_|gsl_pow|gsl_poly_)", n) and not n.endswith("_e") and not n.endswith("array"):
            return set()
        if n in EXT:
            for i in EXT[n]:
                if i < len(vals):
                    self.write(vals[i], True, "%s at %s" % (n, self.where(e)))
                    if n in COPIES:
                        got = set().union(*[self.get(v) for j, v in enumerate(vals) if j != i]) if len(vals) > 1 else set()
                        self.hold(vals[i], got)
                    elif n not in FILLS:
                        self.hold(vals[i], {fresh})
            if n in ("fopen", "fprintf", "printf"):
                self.notes.append(("io", n))
        else:
            self.notes.append(("unknown", "%s at %s" % (n, self.where(e))))
            for a, v in zip(args, vals):
                q = a.get("type", {}).get("qualType", "")
                if not q.startswith("const "):
                    self.write(v, False, "%s (no contract) at %s" % (n, self.where(e)))
        if e.get("type") and carries(self.tu, e["type"]):
            kept = set().union(*[self.closure(v) for v in vals]) if vals else set()
            self.hold({fresh}, {fresh} | {r for r in kept if not (r[0] == "G" and r[1].startswith("gsl_"))})
            return {fresh} | (vals[0] if n in ("realloc", "strcpy", "memcpy", "memset") and vals else set())
        return set()

    def run(self):
        self._callret = {}
        body = [x for x in kids(self.node) if x.get("kind") == "CompoundStmt"]
        for rnd in range(30):
            self.changed = False
            before = {k: set(v) for k, v in self._callret.items()}
            self.notes = []
            for b in body:
                self.stmt(b)
            if not self.changed and before == self._callret:
                return
        raise RuntimeError("%s: points-to does not stabilise" % self.name)

    def stmt(self, n):
        k = n.get("kind")
        for c in kids(n):
            if k == "CapturedDecl" and c.get("kind") == "ImplicitParamDecl":
                continue
            self.stmt(c)
        if k in ("BinaryOperator",) and n.get("opcode") == "=":
            a, b = kids(n)
            t = self.lval(a)
            self.write(t, True, "`%s` at %s" % (self.text(n), self.where(n)), self.record_of(kids(n)[0]))
            if carries(self.tu, a["type"]):
                self.hold(t, self.rval(b))
        elif k == "CompoundAssignOperator":
            a, b = kids(n)
            self.write(self.lval(a), True, "`%s` at %s" % (self.text(n), self.where(n)), self.record_of(kids(n)[0]))
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            self.write(self.lval(kids(n)[0]), True, "`%s` at %s" % (self.text(n), self.where(n)), self.record_of(kids(n)[0]))
        elif k == "CallExpr":
            self.do_call(n)
        elif k == "VarDecl":
            init = [c for c in kids(n) if not c.get("kind", "").endswith(("Attr", "Type"))]
            if n.get("init") and init:
                r = ("G", self.static[n["id"]]) if n["id"] in self.static else ("L", n["id"])
                v = self.rval(init[-1]) if init[-1].get("kind") != "InitListExpr" else self.inner_ptrs(init[-1])
                self.hold({r}, v)
        elif k == "ReturnStmt":
            for c in kids(n):
                if c.get("type") and carries(self.tu, c["type"]):
                    self.ret |= self.rval(c)

    def text(self, n):
        r = n.get("range", {})
        a = offset(n)
        e = r.get("end", {})
        b = e.get("offset", e.get("expansionLoc", {}).get("offset"))
        if a is None or b is None:
            return n.get("kind")
        ln = e.get("tokLen", 1)
        return re.sub(r"\s+", " ", self.w.src[self.tu.fname][a:b + ln].decode("latin1"))[:70]

    def summary(self):
        s = Summary()
        for r, v in self.writes.items():
            if r[0] in ("P", "Q", "G"):
                s.writes[r] = v
        norm = lambda r: ("H", "r") if r[0] in ("H", "L") else r
        for r, h in self.holds.items():
            if r[0] in ("P", "Q"):
                k = {norm(x) for x in h if x[0] != "F"} - {("Q", r[1])}
                if k:
                    s.keeps[r] = frozenset(k)
                    if ("H", "r") in k:
                        s.keeps[("H", "r")] = frozenset([("H", "r")])
            elif r[0] == "H":
                k = {norm(x) for x in h if x[0] != "F"}
                s.keeps[("H", "r")] = s.keeps.get(("H", "r"), frozenset()) | frozenset(k)
        s.ret = frozenset(("H", "r") if r[0] in ("H", "L") else r for r in self.ret)
        return s
