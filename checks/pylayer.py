"""P15-P19: the Cython class of the Python interface (python/coffe/coffe.pyx)."""
from checks.common import *
from dv import pyxast, pysym
from dv.pysym import C, HASH, NONE
from dv.pysym import Unsupported as PU
from specs import pyclass as K
from specs.pyclass import REPO

SYM = "symbolic paths of the class + footprint inclusion"
PYERR = ERR + (PU, pyxast.Front)


class Layer:
    def __init__(self):
        self.foot = K.Footprints()
        self.fp = self.foot.all()
        self.module = pyxast.load(os.path.join(REPO, "python", "coffe", "coffe.pyx"))
        classes = self.module[2]
        self.cls = next(c for c in classes.values() if "sep" in c["getters"])
        scal = {n for n in self.cls["fields"] if n != "_parameters" and n not in pysym.STAGES}
        self.k = K.Contracts(self.fp, scal)
        self.ex = pysym.Exec(self.module, contracts=self.k)
        self.scal = scal
        self.entry = self.entries()

    def state(self, slf, pk, present):
        st = pysym.St()
        st.slf = dict(slf)
        st.par["@pk"] = pk
        if not present:
            st.stage["power_spectrum"] = "free"
        st.slf["@present"] = {"power_spectrum": present}
        st.slf["@entry"] = self.k.snapshot(st)
        return st

    def scalars(self, st):
        return {k: v for k, v in st.slf.items() if k in self.scal}

    def entries(self):
        """the three states of the input spectrum, as the public methods leave the scalar attributes"""
        st = self.state({}, C("internal"), False)
        for s in K.NEEDS:
            st.stage[s] = "free"
        outs = self.ex.run("methods", "__cinit__", st)
        assert len(outs) == 1 and outs[0][1] == "v", "constructor"
        self.cinit = outs[0][0]
        none = self.scalars(outs[0][0])
        E = {"no spectrum yet": (none, C("internal"), False)}
        for name, m, pk in (("own spectrum computed", "power_spectrum", C("internal")),
                            ("spectrum set by the user", "set_power_spectrum_linear", C("user"))):
            outs = [o for o, k, v in self.ex.run("methods", m, self.state(none, C("internal"), False)) if k == "v"]
            vals = {tuple(sorted(self.scalars(o).items())) for o in outs}
            assert len(vals) == 1, "scalar attributes after %s" % m
            E[name] = (dict(vals.pop()), pk, True)
        return E

    def start(self, e):
        return self.state(*self.entry[e])

    def public(self):
        c = self.cls
        for kind in ("setters", "getters", "methods"):
            for n in c[kind]:
                if not n.startswith("_"):
                    yield kind, n

    def paths(self, kind, name, e):
        self.k.reset()
        return self.ex.run(kind, name, self.start(e))


#: methods that only combine other public operations: their bodies mention the state through no other way
COMPOSITE = ("set_parameters", "parameters", "reset_contributions", "from_file", "to_file")
LABEL = {"setters": "%s = value", "getters": "read of %s", "methods": "%s()"}


def composite(L, kind, name):
    """-> None if the body touches the object only through its public names"""
    import ast
    fd = L.cls[kind].get(name) or L.cls["static"].get(name)
    for y in ast.walk(ast.Module(fd.body, [])):
        if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self" and y.attr.startswith("_") and y.attr != "__class__":
            return "uses self.%s" % y.attr
        if isinstance(y, ast.Name) and y.id == "ccoffe":
            return "calls C"
    return None


def layer(c):
    t = time.time()
    L = Layer()
    c.ok("coffe.pyx parsed by the Cython front end; %d properties, %d methods" % (len(L.cls["getters"]), len(L.cls["methods"])), "cython parser", time.time() - t)
    for kind, n in L.public():
        if n not in COMPOSITE or c.prop in WHOLE:
            text = CONTRACT.get((c.prop, kind), CONTRACT.get((c.prop, ""), None))
            if text:
                c.function("Coffe." + LABEL[kind] % n, text)
    c.assume("the Cython front end parses what is compiled; /verif/dv/pysym.py gives Python and numpy the semantics of the operations it knows (others leave the obligation open)",
             "one instance is used by one thread at a time and its attributes are reached through the public interface",
             "C routines take effect as their frames say, recomputed on every run from clang's AST (fields read, written, initialised, freed); their values are P01-P11",
             "machine arithmetic is treated as real arithmetic; CLASS gives a finite, positive spectrum", *ASSUMED.get(c.prop, ()))
    return L


WHOLE = ("P16", "P18")
CONTRACT = {
    ("P15", ""): "keeps the class invariant: each cached stage is free, or agrees with the current value of every field its computation reads",
    ("P16", "setters"): "accepts exactly the values of its contract, stores them where its contract says, refuses without a trace otherwise",
    ("P16", "getters"): "returns the stored value; changes nothing",
    ("P17", ""): "keeps the budget of the densities; density setters take the value asked for",
    ("P18", "getters"): "the value written and read back",
    ("P18", "methods"): "see the obligations of that name",
    ("P19", "methods"): "value, refusal and error-handler contract",
}
ASSUMED = {
    "P17": ("radiation and neutrino densities are not negative",),
    "P18": ("configparser, ast.literal_eval and repr of numbers and lists of numbers are inverse to each other",),
    "P19": ("coffe_interp_spline evaluates the table it is given at the number it is given; coffe_integrate is P06",),
}


def freshness(c, scratch):
    from replay import py
    rep = lambda: py.fresh(c, scratch)
    c.replay = (rep, "bounded replay: every setter against every output on the rebuilt module")
    opened = []
    try:
        L = layer(c)
    except PYERR as e:
        why = "%s: %s" % (type(e).__name__, str(e)[:300])
        c.open("coffe.pyx is within the front end", why)
        fallback(c, [("coffe.pyx is within the front end", why)], *c.replay)
        return
    c_side(c, L, opened)
    for kind, name in L.public():
        t = time.time()
        lab = LABEL[kind] % name
        res, seen = {}, {}
        try:
            for e in L.entry:
                for o, k, v in L.paths(kind, name, e):
                    if e == "spectrum set by the user":
                        n = "%s: the spectrum of the user is replaced only on a change of the cosmology or of its range" % lab
                        w = L.k.dropped(o)
                        seen[n] = True
                        if w:
                            res.setdefault(n, set()).add(w)
                    for s in K.NEEDS:
                        w = L.k.invalid(L.ex, o, s)
                        key = (s, k == "raise")
                        seen[key] = True
                        if w:
                            res.setdefault(key, set()).add(w + (" [%s]" % e if "@pk" in w else ""))
                for n, ok, d in L.k.obl:
                    if "up to date" in n or "is computed" in n:
                        seen[n] = True
                        if not ok:
                            res.setdefault(n, set()).add(d)
        except PYERR as x:
            why = str(x)[:200]
            if name in COMPOSITE or "dynamic" in why:
                w2 = composite(L, kind, name)
                if w2 is None:
                    c.ok("%s: only public operations, each of which keeps the invariant" % lab, "composition", time.time() - t)
                    continue
                why += "; " + w2
            n = "%s: keeps the invariant" % lab
            c.open(n, why)
            opened.append((n, why))
            continue
        for key in seen:
            n = "%s: %s" % (lab, key) if isinstance(key, str) else "%s: a %s that is kept is current%s" % (lab, key[0], " (exceptional exit)" if key[1] else "")
            if key in res:
                why = "; ".join(sorted(res[key]))
                c.open(n, why)
                opened.append((n, why))
            else:
                c.ok(n, SYM, (time.time() - t) / len(seen))
    fallback(c, opened, *c.replay)


def c_side(c, L, opened):
    """contracts of the C routines used above"""
    for f, s in sorted(K.FREE.items()):
        def fn(f=f, s=s):
            return emptied(L.foot, f, K.FLAG.get(s, "size"))
        if not attempt(c, "%s leaves nothing kept" % f, fn, "clang AST, must-assign"):
            opened.append(("%s leaves nothing kept" % f, "see log"))
    for s, f in sorted(K.INIT.items()) + [("covariance", "coffe_covariance_init")]:
        def fn(f=f, s=s):
            want = [k for k, v in K.FREE.items() if v == s or f == "coffe_covariance_init" and v == "average_covariance"]
            calls = {y["referencedDecl"]["name"] for y in L.foot.rawwalk(L.foot.fn[f]) if y.get("kind") == "DeclRefExpr" and y["referencedDecl"].get("kind") == "FunctionDecl"}
            miss = [w for w in want if w not in calls]
            return "does not discard the earlier result (%s)" % miss if miss else None
        if not attempt(c, "%s discards the earlier result" % f, fn, "clang AST"):
            opened.append(("%s discards the earlier result" % f, "see log"))


    for f in sorted(K.INIT.values()) + ["coffe_covariance_init", "coffe_integrate"]:
        def fn(f=f):
            w = sorted(set(L.foot.writes(f)))
            return "; ".join(w) if w else None
        if not attempt(c, "%s and what it calls change no setting" % f, fn, "clang AST, assignments and pointers to non-const"):
            opened.append(("%s and what it calls change no setting" % f, "see log"))


def emptied(foot, f, field):
    """every path of f ends with ->field == 0: an unconditional assignment, or one guarded by the field itself"""
    body = [x for x in foot.fn[f]["inner"] if x["kind"] == "CompoundStmt"][0]

    def assigns(n):
        return n.get("kind") == "BinaryOperator" and n.get("opcode") == "=" and foot.strip(n["inner"][0]).get("name") == field \
            and foot.strip(n["inner"][1]).get("kind") == "IntegerLiteral" and foot.strip(n["inner"][1]).get("value") == "0"

    def must(n):
        if assigns(n):
            return True
        if n.get("kind") == "CompoundStmt":
            return any(must(x) for x in n.get("inner", ()))
        if n.get("kind") == "IfStmt":
            i = n["inner"]
            cond = foot.strip(i[0])
            if len(i) == 2 and must(i[1]):
                if cond.get("kind") == "MemberExpr" and cond.get("name") == field:
                    return True
                if cond.get("kind") == "BinaryOperator" and foot.strip(cond["inner"][0]).get("name") == field and \
                        cond["opcode"] in ("!=", ">") and foot.strip(cond["inner"][1]).get("value") == "0":
                    return True
            return len(i) == 3 and must(i[1]) and must(i[2])
        return False
    for y in foot.rawwalk(body):
        if y.get("kind") == "ReturnStmt" and y is not body.get("inner", [None])[-1]:
            return "returns early"
    return None if must(body) else "->%s may stay set" % field
