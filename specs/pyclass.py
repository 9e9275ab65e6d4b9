"""Contracts of the C functions that the Cython class calls, and the ghost state of its class invariant.

Stage s of the pipeline has a result F_s(p|reads*(s)): reads*(s) is the set of fields of the parameter structure that
the C routine of the stage, or of one of the stages it is given, can read.  It is recomputed on every run from clang's
AST of /repo/src (reachable functions, member expressions on coffe_parameters_t; branches on output_type pruned).
Invariant: a stage that is kept was computed from the current values of reads*(s).
"""
import os
import re

from dv.cast import load
from dv.pysym import C, HASH, PARS, STAGES, NONE, St, Unsupported, user

REPO = os.environ.get("VERIF_REPO", "/repo")
INIT = {"background": "coffe_background_init", "integrals": "coffe_integrals_init", "corrfunc": "coffe_corrfunc_init",
        "multipoles": "coffe_multipoles_init", "average_multipoles": "coffe_average_multipoles_init"}
NEEDS = {"background": (), "power_spectrum": (), "integrals": ("background", "power_spectrum"),
         "corrfunc": ("background", "integrals", "power_spectrum"), "multipoles": ("background", "integrals", "power_spectrum"),
         "average_multipoles": ("background", "integrals", "power_spectrum"),
         "covariance": ("background", "power_spectrum"), "average_covariance": ("background", "power_spectrum")}
TYPES = {"corrfunc": "CORRFUNC", "multipoles": "MULTIPOLES", "average_multipoles": "AVERAGE_MULTIPOLES",
         "covariance": "COVARIANCE_MULTIPOLES", "average_covariance": "COVARIANCE_AVERAGE_MULTIPOLES"}
FREE = {"coffe_background_free": "background", "coffe_integrals_free": "integrals", "coffe_corrfunc_free": "corrfunc",
        "coffe_multipoles_free": "multipoles", "coffe_average_multipoles_free": "average_multipoles",
        "coffe_covariance_free": "covariance", "coffe_average_covariance_free": "average_covariance"}
FILES = ("background.c", "integrals.c", "corrfunc.c", "multipoles.c", "average_multipoles.c", "covariance.c", "common.c",
         "functions.c", "signal.c", "tanhsinh.c", "utils.c", "twofast.c")
FLAG = {"background": "flag"}
STRUCT = {v: k for k, v in STAGES.items()}
#: not part of a result: logging and the number of threads
NEUTRAL = {"verbose", "nthreads"}


class Footprints:
    def __init__(self):
        self.tus = {}
        self.fn = {}
        for f in sorted(os.listdir(os.path.join(REPO, "src"))):
            if f.endswith(".c") and f not in ("main.c", "parser.c", "twobessel.c", "output.c"):
                self.tus[f] = t = load(f)
                for n, d in t.functions.items():
                    self.fn[n] = d
        self.deadfields = self.dead()

    def walk(self, n, ot=None):
        yield n
        k = n.get("kind")
        inner = n.get("inner", ())
        if k == "IfStmt" and ot is not None and len(inner) >= 2:
            v = self.cond(inner[0], ot)
            if v is not None:
                parts = list(inner[1:])
                keep = parts[0] if v else (parts[1] if len(parts) > 1 else None)
                if keep is not None:
                    for y in self.walk(keep, ot):
                        yield y
                return
        if k == "IfStmt" and len(inner) == 2 and self.onlydead(inner[1]):
            return
        if k == "CallExpr" and self.deadcall(n):
            return
        for x in inner:
            for y in self.walk(x, ot):
                yield y

    def cond(self, n, ot):
        k = n.get("kind")
        i = n.get("inner", ())
        if k in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
            return self.cond(i[0], ot)
        if k == "UnaryOperator" and n.get("opcode") == "!":
            v = self.cond(i[0], ot)
            return None if v is None else not v
        if k == "BinaryOperator":
            op = n["opcode"]
            if op in ("||", "&&"):
                a, b = self.cond(i[0], ot), self.cond(i[1], ot)
                if op == "||":
                    return True if a or b else (False if a is False and b is False else None)
                return False if a is False or b is False else (True if a and b else None)
            if op in ("==", "!="):
                a, b = self.strip(i[0]), self.strip(i[1])
                if b.get("kind") == "MemberExpr":
                    a, b = b, a
                if a.get("kind") == "MemberExpr" and a.get("name") == "output_type" and b.get("kind") == "DeclRefExpr":
                    r = b["referencedDecl"]["name"] == ot
                    return r if op == "==" else not r
        return None

    def strip(self, n):
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "ConstantExpr"):
            n = n["inner"][0]
        return n

    def parmember(self, y):
        return y.get("kind") == "MemberExpr" and "coffe_parameters_t" in y["inner"][0].get("type", {}).get("qualType", "")

    def rawwalk(self, n):
        yield n
        for x in n.get("inner", ()):
            for y in self.rawwalk(x):
                yield y

    def dead(self):
        """fields whose contents no function reads: each mention is `&par->f` as an argument of a call"""
        uses, calls = {}, {}
        for n, d in self.fn.items():
            for y in self.rawwalk(d):
                if self.parmember(y) and "fit_coefficients" in y.get("type", {}).get("qualType", ""):
                    uses[y["name"]] = uses.get(y["name"], 0) + 1
                if y.get("kind") == "CallExpr":
                    for a in y["inner"][1:]:
                        a = self.strip(a)
                        if a.get("kind") == "UnaryOperator" and a.get("opcode") == "&":
                            b = self.strip(a["inner"][0])
                            if self.parmember(b):
                                calls[b["name"]] = calls.get(b["name"], 0) + 1
        return {f for f in uses if uses[f] == calls.get(f)}

    def deadcall(self, n):
        for a in n.get("inner", ())[1:]:
            a = self.strip(a)
            if a.get("kind") == "UnaryOperator" and a.get("opcode") == "&":
                b = self.strip(a["inner"][0])
                if self.parmember(b) and b["name"] in self.deadfields:
                    return True
        return False

    def onlydead(self, n):
        if n.get("kind") == "CompoundStmt":
            return bool(n.get("inner")) and all(self.onlydead(x) for x in n["inner"])
        return n.get("kind") == "CallExpr" and self.deadcall(n)

    def reads(self, root, ot=None):
        seen, todo, out, based = set(), [root], set(), set()
        if root not in self.fn:
            raise KeyError(root)
        while todo:
            x = todo.pop()
            if x in seen or x not in self.fn:
                continue
            seen.add(x)
            for y in self.walk(self.fn[x], ot):
                if y.get("kind") == "DeclRefExpr" and y["referencedDecl"].get("kind") == "FunctionDecl":
                    todo.append(y["referencedDecl"]["name"])
                if y.get("kind") == "MemberExpr" and not y.get("isArrow") and self.parmember(y["inner"][0]):
                    out.add(y["inner"][0]["name"] + "." + y["name"])
                    based.add(id(y["inner"][0]))
                if self.parmember(y) and id(y) not in based:
                    out.add(y["name"])
        return out - NEUTRAL, seen

    WRITABLE = {"output_type"}

    def writes(self, root):
        """ways in which root can change a field of the parameters that some routine reads -> [text]"""
        out = []
        reach = self.reads(root)[1]
        for f in sorted(reach):
            parents = {}

            def index(n):
                for x in n.get("inner", ()):
                    parents[id(x)] = n
                    index(x)
            index(self.fn[f])
            for y in self.rawwalk(self.fn[f]):
                if not self.parmember(y) or y["name"] in self.deadfields or y["name"] in self.WRITABLE | NEUTRAL:
                    continue
                x, p = y, parents.get(id(y))
                while p is not None:
                    k = p.get("kind")
                    i = p.get("inner", [])
                    if k in ("ParenExpr", "MemberExpr", "ArraySubscriptExpr") and i and i[0] is x:
                        x, p = p, parents.get(id(p))
                        continue
                    if k == "ImplicitCastExpr" and p.get("castKind") in ("ArrayToPointerDecay", "NoOp", "BitCast"):
                        x, p = p, parents.get(id(p))
                        continue
                    if k == "ImplicitCastExpr" and p.get("castKind") == "LValueToRValue":
                        if "*" not in x.get("type", {}).get("qualType", ""):
                            break
                        # a pointer of the parameters: follow what it points to
                        q = parents.get(id(p))
                        while q is not None and q.get("kind") in ("ImplicitCastExpr", "ParenExpr") and q.get("castKind") != "LValueToRValue":
                            p, q = q, parents.get(id(q))
                        if q is not None and (q.get("kind") == "ArraySubscriptExpr" and q["inner"][0] is p or q.get("kind") == "UnaryOperator" and q.get("opcode") == "*"):
                            x, p = q, parents.get(id(q))
                            continue
                        if q is not None and q.get("kind") in ("CallExpr", "VarDecl", "ReturnStmt") or q is not None and q.get("kind") == "BinaryOperator" and q.get("opcode") == "=":
                            t = p.get("type", {}).get("qualType", "")
                            if "const" not in t.split("*")[0]:
                                out.append("%s: par->%s passed on as %s" % (f, y["name"], t))
                        break
                    if k in ("BinaryOperator", "CompoundAssignOperator") and p.get("opcode", "").endswith("=") and \
                            p.get("opcode") not in ("==", "!=", "<=", ">=") and i[0] is x:
                        out.append("%s: par->%s is assigned" % (f, y["name"]))
                    elif k == "UnaryOperator" and p.get("opcode") in ("++", "--"):
                        out.append("%s: par->%s is changed" % (f, y["name"]))
                    elif k == "UnaryOperator" and p.get("opcode") == "&":
                        q, r = parents.get(id(p)), p
                        while q is not None and q.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                            r, q = q, parents.get(id(q))
                        t = r.get("type", {}).get("qualType", "")
                        if "const" not in t.split("*")[0]:
                            out.append("%s: &par->%s passed on as %s" % (f, y["name"], t))
                    break
        return out

    def bgmembers(self, root, ot=None):
        out = set()
        for f in self.reads(root, ot)[1]:
            for y in self.walk(self.fn[f], ot):
                if y.get("kind") == "MemberExpr" and "coffe_background_t" in y["inner"][0].get("type", {}).get("qualType", ""):
                    out.add(y["name"])
        return out

    def spectrum(self):
        """the fields that the routine calling CLASS reads (it is not compiled here: its text is scanned)"""
        txt = open(os.path.join(REPO, "src", "parser.c")).read()
        m = re.search(r"\bint\s+parse_external_power_spectrum\s*\(.*?\n\}", txt, re.S)
        body = m.group(0)
        out = set()
        for x in re.finditer(r"par->((?:class_precision\.)?\w+)", body):
            rest = body[x.end():x.end() + 3].lstrip()
            out.add(x.group(1))
        return out - NEUTRAL - {"power_spectrum", "power_spectrum_norm", "power_spectrum2d", "power_spectrum2d_norm",
                                "class_struct"}

    def all(self):
        """stage -> (direct reads under the stage's own output type)"""
        r = {"power_spectrum": self.spectrum()}
        ot = {"background": None, "integrals": None}
        direct = {}
        for s, f in INIT.items():
            direct[s] = self.reads(f, TYPES.get(s))[0]
        for s in ("covariance", "average_covariance"):
            direct[s] = self.reads("coffe_covariance_init", TYPES[s])[0]
        ints = {t: self.reads(INIT["integrals"], t)[0] for t in set(TYPES.values())}
        direct["power_spectrum"] = r["power_spectrum"]
        PSF = {"power_spectrum", "power_spectrum_norm", "power_spectrum2d", "power_spectrum2d_norm", "class_struct"}
        out = {}
        for s in NEEDS:
            f = set(direct[s])
            for d in NEEDS[s]:
                if d == "background":
                    # P09/P10: the biases enter only the tables G1 and G2
                    root = INIT.get(s, "coffe_covariance_init")
                    g = self.bgmembers(root, TYPES.get(s)) & {"G1", "G2"}
                    f |= direct[d] if g else direct[d] - {x for x in direct[d] if "bias" in x}
                    continue
                f |= ints[TYPES[s]] if d == "integrals" and s in TYPES else direct[d]
            if s in TYPES:
                f -= {"output_type"}
            elif s != "integrals":
                f -= {"output_type"}
            f = {x for x in f if x.split(".")[0] not in PSF} - self.deadfields
            if s == "power_spectrum" or "power_spectrum" in NEEDS[s]:
                f |= {"@pk"}
            out[s] = f
        return out


class Contracts:
    """the C side as the Cython layer sees it"""

    def __init__(self, footprints, selffields):
        self.reset()
        self.fp = footprints
        self.selffields = set(selffields)
        self.obl = []               # (obligation, ok, detail)

    def constant(self, full):
        if full.startswith("ccoffe.") and re.match(r"ccoffe\.[A-Z][A-Z0-9_]*$", full):
            return C(full)
        return None

    # -- the state
    def read(self, ex, st, v):
        if v[1] == PARS:
            path = ".".join(str(x) for x in v[2:])
            if not path:
                return v
            return st.parval(path)
        s = STAGES[v[1]]
        if len(v) == 2:
            return v
        if v[2:] == (FLAG.get(s, "size"),):
            if st.stage.get(s, "orig") == "free":
                return C(0)
            return ("stageflag", s)
        self.need(ex, st, s, "read of %s" % ".".join(str(x) for x in v[1:3]))
        return ("stageval",) + v[1:]

    def stagestore(self, ex, st, base, attr, v):
        s = STAGES[base[1]]
        o = st.copy()
        if v in (C(0), ("null",)):
            o.stage[s] = "free"
            return ex.val(o, NONE)
        raise Unsupported("store into stage %s" % s)

    def changed(self, f, snap, st):
        p0, c0 = snap
        if f == "@pk":
            return st.par.get("@pk") != p0.get("@pk")
        keys = [k for k in set(p0) | set(st.par) if k == f or k.startswith(f + ".")]
        for k in keys:
            if p0.get(k, ("par", k)) != st.parval(k):
                return True
        ptr = st.parval(f)
        return c0.get(ptr) != st.cont.get(ptr)

    def stale(self, st, s, snap):
        return sorted(f for f in self.fp[s] if self.changed(f, snap, st))

    def invalid(self, ex, st, s):
        """-> None when the result kept for stage s is the one of the current parameters, else the reason"""
        r = st.stage.get(s, "orig")
        if r == "free":
            return None
        if r == "orig":
            if st.pc.get(("stageflag", s)) is False:
                return None
            bad = self.stale(st, s, st.slf["@entry"])
        else:
            bad = self.stale(st, s, r[1])
        return "computed from other values of %s" % ", ".join(bad) if bad else None

    def equal(self, st, a, b):
        return a == b or st.pc.get(("app", "cmp", C("=="), a, b)) is True or st.pc.get(("app", "cmp", C("=="), b, a)) is True

    def dropped(self, st):
        """the spectrum of the user is gone: some input of the computation that replaces it must have changed"""
        snap = st.slf["@entry"]
        pk = st.par.get("@pk")
        if pk == snap[0]["@pk"] or pk != C("internal"):
            return None
        if any(f != "@pk" and self.changed(f, snap, st) for f in self.fp["power_spectrum"]) or \
                any(k.startswith("Omega0_") and k != "@pk" and self.changed(k, snap, st) for k in st.par):
            return None
        return "replaced although the cosmology is the same"

    def present(self, ex, st, s):
        r = st.stage.get(s, "orig")
        return r not in ("free",) and (r != "orig" or st.pc.get(("stageflag", s)) is True or
                                       st.slf.get("@present", {}).get(s) is True)

    def need(self, ex, st, s, what):
        if not self.present(ex, st, s):
            self.obl.append(("%s: %s is computed" % (what, s), False, "not computed on this path"))
        else:
            w = self.invalid(ex, st, s)
            self.obl.append(("%s: %s is up to date" % (what, s), w is None, w or ""))

    def setstage(self, st, s, v):
        st.stage[s] = v
        st.log = st.log + (("stage", s),)

    def snapshot(self, st):
        return (dict(st.par), dict(st.cont))

    def addr(self, a, *path):
        return a[0] == "addr" and a[1:] == path

    def call(self, ex, st, n, args, kw, e):
        if not n.startswith("ccoffe."):
            return None
        f = n[7:]
        ex.used.add("C:" + f)
        if f in FREE:
            s = FREE[f]
            if not self.addr(args[0], STRUCT[s]):
                raise Unsupported("%s of something else" % f)
            o = st.copy()
            self.setstage(o, s, "free")
            return ex.val(o, NONE)
        if f in INIT.values():
            s = [k for k, v in INIT.items() if v == f][0]
            want = [PARS] + ([] if s == "background" else ["_background"]) + \
                ([] if s in ("background", "integrals") else ["_integral"]) + [STRUCT[s]]
            if [a[1:] for a in args] != [(w,) for w in want] or any(a[0] != "addr" for a in args):
                raise Unsupported("%s: unexpected arguments" % f)
            return self.init(ex, st, s)
        if f == "coffe_covariance_init":
            if [a[1:] for a in args] != [(w,) for w in (PARS, "_background", "_covariance_multipoles", "_average_covariance_multipoles")]:
                raise Unsupported("%s: unexpected arguments" % f)
            ot = st.parval("output_type")
            outs = []
            for s in ("covariance", "average_covariance"):
                if ot == C("ccoffe." + TYPES[s]):
                    o = st.copy()
                    self.setstage(o, "covariance", "free")
                    self.setstage(o, "average_covariance", "free")
                    return self.init(ex, o, s)
            self.obl.append(("coffe_covariance_init: output_type is one of the covariance types", False, str(ot)))
            return ex.val(st.copy(), NONE)
        if f == "parse_external_power_spectrum":
            o = st.copy()
            o.par["@pk"] = C("internal")
            self.setstage(o, "power_spectrum", ("init", self.snapshot(o)))
            return ex.val(o, NONE)
        if f in ("coffe_free_spline", "coffe_free_spline2d"):
            a = args[0]
            if a[0] != "addr" or a[1] != PARS:
                raise Unsupported(f)
            o = st.copy()
            path = ".".join(a[2:])
            if path == "power_spectrum":
                self.setstage(o, "power_spectrum", "free")
                if o.par.get("@pk") != C("internal"):
                    o.par["@pk"] = C("internal")
            elif not path.startswith("power_spectrum"):
                o.par[path] = ("freed",)
                o.log = o.log + (("par", path),)
            return ex.val(o, NONE)
        if f == "coffe_init_spline":
            a, x, y, num, typ = args
            if a[0] != "addr" or a[1] != PARS:
                raise Unsupported(f)
            o = st.copy()
            path = ".".join(a[2:])
            val = ("spline", o.content(x), o.content(y), num, typ)
            self.obl.append(("coffe_init_spline(%s): the arrays have the given length" % path,
                             self.filled(o.content(x), num) and self.filled(o.content(y), num), ""))
            self.splines.append((path, val, st, ex))
            o.par[path] = val
            o.log = o.log + (("par", path),)
            if path == "power_spectrum":
                o.par["@pk"] = ("user", val)
                self.setstage(o, "power_spectrum", ("init", self.snapshot(o)))
            return ex.val(o, NONE)
        if f in ("coffe_interp_spline", "coffe_interp_spline2d"):
            a = args[0]
            if a[0] != "addr":
                raise Unsupported(f)
            if a[1] in STAGES:
                self.need(ex, st, STAGES[a[1]], "value of %s" % ".".join(map(str, a[1:])))
            if a[1] == PARS and str(a[2]).startswith("power_spectrum"):
                self.need_pk(ex, st)
            v = a[1:]
            if a[1] == PARS and len(a) == 3 and not a[2].startswith("power_spectrum"):
                v = st.parval(a[2])
            return ex.val(st, ("app", f, v) + tuple(args[1:]))
        if f == "coffe_find_integral":
            self.need(ex, st, "integrals", "coffe_find_integral")
            return ex.val(st, ("app", f) + tuple(args))
        if f == "coffe_integrate":
            for s in ("background", "integrals"):
                self.need(ex, st, s, "coffe_integrate")
            ot = st.parval("output_type")
            self.obl.append(("coffe_integrate: output_type is the one computed, so that the integrals are up to date",
                             self.equal(st, ot, args[-1]), "output_type is %s, asked for %s" % (ot, args[-1])))
            self.integrates.append((st.parval("output_type"), tuple(args[3:]), st))
            return ex.val(st, ("app", f) + tuple(args[3:]))
        if f == "gsl_set_error_handler_off":
            o = st.copy()
            o.ev = o.ev + (("handler", "off"),)
            return ex.val(o, ("handler", len([x for x in st.ev if x[0] == "handler"])))
        if f == "gsl_set_error_handler":
            o = st.copy()
            o.ev = o.ev + (("handler", args[0]),)
            return ex.val(o, NONE)
        if f in ("coffe_parse_default_parameters", "coffe_parameters_free"):
            o = st.copy()
            o.ev = o.ev + (("c", f),)
            return ex.val(o, NONE)
        return None

    def need_pk(self, ex, st):
        self.need(ex, st, "power_spectrum", "value of the power spectrum")

    def filled(self, c, n):
        return c[0] == "seq" and c[1] == n

    def init(self, ex, st, s):
        o = st.copy()
        for d in NEEDS[s]:
            self.need(ex, st, d, INIT.get(s, "coffe_covariance_init"))
        if s in TYPES:
            ot = o.parval("output_type")
            self.obl.append(("%s: output_type is %s, so that its result is up to date" % (INIT.get(s, "coffe_covariance_init"), TYPES[s]),
                             self.equal(o, ot, C("ccoffe." + TYPES[s])), "output_type is %s" % (ot,)))
        self.inits.append((s, o.parval("output_type"), o.copy()))
        self.setstage(o, s, ("init", self.snapshot(o)))
        return ex.val(o, NONE)

    splines, integrates, inits = (), (), ()

    def reset(self):
        self.obl, self.splines, self.integrates, self.inits = [], [], [], []

    def converts(self, ex, st, v):
        """does the conversion of v to a C number always succeed"""
        if v[0] == "c":
            return isinstance(v[1], (int, float)) or isinstance(v[1], str) and v[1].startswith("ccoffe.")
        if v[0] in ("par", "ptr", "stageflag", "selff", "#", "null", "spline", "stageval"):
            return True
        if v[0] == "app":
            if v[1] in ("float", "int", "bool", "len", "cmp", "not", ".__index__", "coffe_interp_spline", "coffe_interp_spline2d", "coffe_integrate"):
                return True
            if v[1] in ("+", "-", "*", "/", "neg", "**"):
                return all(self.converts(ex, st, x) for x in v[2:])
            if v[1] == "lookup":
                return True
            if v[1] == "in":
                return True
        for c, b in st.pc.items():
            if b and c[0] == "app" and c[1] == "isinstance" and c[2] == v:
                ks = c[3][1:] if c[3][0] in ("tuple", "list") else (c[3],)
                if all(k in (("name", "int"), ("name", "float"), ("name", "bool")) for k in ks):
                    return True
            if b and c[0] == "app" and c[1] == "in" and c[2] == v and c[3][0] in ("dict", "list", "tuple"):
                ks = c[3][1] if c[3][0] == "dict" else c[3][1:]
                if all(k[0] == "c" and str(k[1]).startswith("ccoffe.") for k in ks):
                    return True
        return False
