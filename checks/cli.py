"""P12: the command line program computes what the settings file asks for and writes all of it."""
import itertools
import os
import re
from fractions import Fraction
from dv.cast import load, REPO
from dv.sym import Program, Executor, State, Unsupported, subst, subterms, mk, noop
from dv.term import *
from dv.rules import fold_rule
from checks import readfile, makepath
from dv.prove import real_valid, int_valid
from specs.cli import *
from specs.toolbox import record
from replay import base
from .common import attempt, fallback, ERR
from .integrals import flatten as _flatten      # noqa: F401  (same shape of events)
from .toolbox import Run

BACK = "symbolic execution against stdio and libconfig contracts"
BACKZ = BACK + " + nf, z3"
PAR = sym("par", "P")
OUT = ["CORRFUNC", "MULTIPOLES", "AVERAGE_MULTIPOLES", "COVARIANCE_MULTIPOLES", "COVARIANCE_AVERAGE_MULTIPOLES"]
LABELS = ["den", "rsd", "d1", "d2", "g1", "g2", "g3", "g4", "g5", "len"]
RENORM = ["d2", "g1", "g2", "g3", "g4", "g5"]
FAR = mk("app", ("new", "argument"), "P")
NEVER = "never returns"


def P(f):
    return fld(pointee(PAR), f)


def P0(f, sort="R"):
    """value of a parameter before"""
    l = pointee(PAR)
    for x in f.split("."):
        l = fld(l, x)
    return l


# ---- what ends up in a file -----------------------------------------------------

def ground(t, choose):
    """a text with its conditions decided: list of pieces"""
    if t.op == "ite":
        return ground(t.args[1] if truth(t.args[0], choose) else t.args[2], choose)
    if t.op == "app" and t.args[0] == "cat":
        out = []
        for x in t.args[1:]:
            for y in ground(x, choose):
                if out and ispiece(y) and ispiece(out[-1]):
                    out[-1] = piece(out[-1].args[1] + y.args[1])
                else:
                    out.append(y)
        return out
    return [t]


def truth(c, choose):
    if c is TRUE or c is FALSE:
        return c is TRUE
    if c.op == "not":
        return not truth(c.args[0], choose)
    if c.op == "and":
        return all(truth(x, choose) for x in c.args)
    if c.op == "or":
        return any(truth(x, choose) for x in c.args)
    if c.op == "eq":
        a, b = c.args
        if b.op == "num":
            a, b = b, a
        if a.op == "num":
            return choose(b, val(a))
    raise Unsupported("a text depends on %s" % str(c)[:120])


def literal(ps):
    return "".join(x.args[1] if ispiece(x) else "\0" for x in ps)


class Files(object):
    """the files a run writes: name -> what is put into it, in order"""

    def __init__(self, R):
        self.R, self.files, self.order = R, {}, []
        for e in R.st.events:
            self.event(e, ())

    def event(self, e, binders):
        name, args, pc = e
        if name == "loop":
            K, lo, hi, sub_ = args
            for x in sub_:
                self.event(x, binders + ((K, lo, hi),))
        elif name == "fopen":
            if args[2] not in ("w", "wb", "w+"):
                raise Unsupported("a result file is opened with mode %r" % args[2])
            self.files[args[0]] = {"name": args[1], "pc": pc, "body": [], "closed": False}
            self.order.append(args[0])
        elif name == "fprintf":
            if args[0] in self.files:
                f = self.files[args[0]]
                if f["closed"]:
                    raise Unsupported("a closed file is written to")
                f["body"].append((binders, args[1], pc))
        elif name == "fclose":
            if args[0] in self.files:
                self.files[args[0]]["closed"] = True

    def certain(self, pc):
        return pc is TRUE or self.R.ex.decide(pc, self.R.st) is TRUE


ROWS = {
    "CORRFUNC": ("cf", "corrfunc.dat", ["coords.z_mean", "coords.separation", "coords.mu", "value"]),
    "MULTIPOLES": ("mp", "multipoles.dat", ["coords.z_mean", "coords.l", "coords.separation", "value"]),
    "AVERAGE_MULTIPOLES": ("ramp", "average_multipoles.dat", ["coords.z_min", "coords.z_max", "coords.l", "coords.separation", "value"]),
    "COVARIANCE_MULTIPOLES": ("cov_mp", "covariance_multipoles.dat",
                              ["coords.z_mean", "coords.l1", "coords.l2", "coords.separation1", "coords.separation2", "value"]),
    "COVARIANCE_AVERAGE_MULTIPOLES": ("cov_ramp", "covariance_average_multipoles.dat",
                                      ["coords.separation1", "coords.separation2", "coords.l1", "coords.l2", "coords.z_min", "coords.z_max", "value"]),
}
NAMES = {"z_mean": "z_mean", "separation": "sep", "mu": "mu", "value": "value", "l": "l", "z_min": "z_min", "z_max": "z_max",
         "l1": "l1", "l2": "l2", "separation1": "sep1", "separation2": "sep2"}
ARGS = ["par", "bg", "cf", "mp", "ramp", "cov_mp", "cov_ramp"]


def c_background(ex, fr, st, v, n):
    ev(st, "background", (text(ex, st, v[0]),) + tuple(v[1:]))
    return num(0, "I")


def output_run(out):
    tu = load("output.c")
    con = dict(OUTPUT)
    con["output_background"] = c_background

    def pre(ex, st):
        ex.write(st, P("output_type"), num(tu.enumname[out], "I"))
        for a in ARGS[2:]:
            ln = ex.read(st, fld(pointee(sym(a, "P")), "size"), "I")
            ex.unsigned_terms.add(ln)
            ex.N.bound_below(ln, 0, True)
    R = Run("coffe_output_init", [sym(a, "P") for a in ARGS], tus=("output.c",), contracts=con, pre=pre)
    return R, Files(R)


def member(base_, path, sort):
    for x in path.split("."):
        base_ = fld(base_, x)
    return base_


def filename(R, t, last, timestamp):
    """the text is <directory><prefix><last>, <directory><timestamp>_<last> for the prefix $TIME"""
    st0 = State()
    outp, pre, tst = [R.ex.read(st0, fld(idx(P(f), num(0, "I")), "#text"), "P") for f in ("output_path", "output_prefix", "timestamp")]
    d = mk("app", ("dir", outp), "P")

    def choose(b, k):
        if b.op == "app" and b.args[0] == "strcmp" and k == 0 and set(map(str, b.args[1:])) == {str(pre), str(cat(piece("$TIME")))}:
            return timestamp
        raise Unsupported("the name of a file depends on %s" % str(b)[:100])
    got = ground(t, choose)
    want = [d] + ([tst, piece("_" + last)] if timestamp else [pre, piece(last)])
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        return "the file is %s" % [str(x)[:60] for x in got]
    return None


def result_name(out):
    R, F = output_run(out)
    if len(F.order) != 1:
        return "%d result files" % len(F.order)
    f = F.files[F.order[0]]
    if not F.certain(f["pc"]) or not f["closed"]:
        return "the result file is %s" % ("not closed" if not f["closed"] else "written if %s" % str(f["pc"])[:80])
    for ts in (False, True):
        w = filename(R, f["name"], ROWS[out][1], ts)
        if w:
            return w
    mp = R.events("make_path")
    if len(mp) != 1 or R.order("make_path", "fopen"):
        return "the directory is not made before the file"
    return None


def result_rows(out):
    R, F = output_run(out)
    f = F.files[F.order[0]]
    arr, _, cols = ROWS[out]
    tab = pointee(sym(arr, "P"))
    st0 = State()
    size = R.ex.read(st0, fld(tab, "size"), "I")
    rows = [b for b in f["body"] if b[0]]
    k = [i for i, b in enumerate(f["body"]) if b[0]]
    if not rows or k != list(range(k[0], k[0] + len(k))):
        return "the rows are not written one after the other"
    heads = {b[0] for b in rows}
    if len(heads) != 1 or len(rows[0][0]) != 1:
        return "the rows are written in %d loops" % len(heads)
    K, lo, hi = rows[0][0][0]
    if lo is not num(0, "I") or R.same(hi, size, "number of rows"):
        return "rows %s to %s" % (lo, str(hi)[:60])
    R.ex.bounds[K] = (lo, hi)
    got = []
    for _, t, pc in rows:
        if not F.certain(pc):
            return "a row is written if %s" % str(pc)[:80]
        got += ground(t, lambda b, k: (_ for _ in ()).throw(Unsupported("a row depends on %s" % b)))
    got = ground(cat(*got), None)
    if not got or not ispiece(got[-1]) or not got[-1].args[1].endswith("\n") or got[-1].args[1].count("\n") != 1 or got[-1].args[1].strip():
        return "the row does not end in one newline"
    vals = [x for x in got if not ispiece(x)]
    for i, x in enumerate(got[:-1]):
        if (i % 2 == 1) != ispiece(x) or (i % 2 == 1 and (x.args[1].strip() or not x.args[1])):
            return "the columns are not separated by blanks"
    if len(vals) != len(cols):
        return "%d columns" % len(vals)
    elem = idx_of(R, tab, K)
    for x, c in zip(vals, cols):
        isint = c.split(".")[-1][0] == "l"
        want = R.ex.read(st0, member(elem, c, None), "I" if isint else "R")
        if x.op != "app" or x.args[0] != "put":
            return "column %s is %s" % (c, str(x)[:60])
        kind = x.args[1]
        if isint != (kind == "d") or (not isint and int(kind[1:]) < 9):
            return "column %s is written as %s" % (c, kind)
        w = R.same(x.args[2], want, "column " + c)
        if w:
            return w
    return None


def idx_of(R, tab, K):
    arr = R.ex.read(State(), fld(tab, "array"), "P")
    return pointee(R.ex.padd(arr, K))


def result_header(out):
    """comment lines: the contributions that are on, and the names of the columns"""
    R, F = output_run(out)
    f = F.files[F.order[0]]
    k = [i for i, b in enumerate(f["body"]) if b[0]]
    head = [b for b in f["body"] if not b[0]]
    if [b for b in f["body"][:k[0]] if b[0]] or len(head) != k[0]:
        return "comment lines after the rows"
    flags = {}
    for l in LABELS:
        flags[R.ex.read(State(), P0("correlation_contrib." + l), "I")] = l
    names = [NAMES[c.split(".")[-1]] for c in ROWS[out][2]]
    for on in itertools.product((0, 1), repeat=len(LABELS)):
        have = dict(zip(LABELS, on))

        def choose(b, k):
            if b in flags and k == 0:
                return not have[flags[b]]
            raise Unsupported("the header depends on %s" % str(b)[:80])
        ps = []
        for _, t, pc in head:
            if not F.certain(pc):
                return "a comment line is written if %s" % str(pc)[:80]
            ps += ground(t, choose)
        s = literal(ps)
        lines = s.split("\n")
        if lines[-1] or any(not x.startswith("#") for x in lines[:-1]):
            return "the header is %r" % s
        if [x.strip() for x in lines[-2].lstrip("#").split(",")] != names:
            return "the columns are called %r" % lines[-2]
        if out != "COVARIANCE_AVERAGE_MULTIPOLES":
            w = set(lines[0].split(":")[-1].split())
            if w != {l for l in LABELS if have[l]}:
                return "with %s the header says %r" % ([l for l in LABELS if have[l]], lines[0])
        if out == "COVARIANCE_AVERAGE_MULTIPOLES":
            break
    return None


def other_files(out):
    R, F = output_run(out)
    bgs = R.events("background")
    if len(bgs) != 1 or not F.certain(bgs[0][2]):
        return "the background is written %d times" % len(bgs)
    b = bgs[0][1]
    if b[2] is not PAR or b[3] is not sym("bg", "P"):
        return "the background of something else"
    cw = R.events("config_write")
    if len(cw) != 1:
        return "the settings are written %d times" % len(cw)
    conf = R.ex.read(State(), P("conf"), "P")
    if R.same(cw[0][1][0], conf) or R.ex.decide(bor(cw[0][2], eq(conf, NULL)), R.st) is not TRUE:
        return "the settings which were read are not written: %s" % str(cw[0])[:120]
    for ts in (False, True):
        for t, last in ((b[0], "background.dat"), (cw[0][1][1], "settings.cfg")):
            w = filename(R, t, last, ts)
            if w:
                return w
    return None


COLUMNS = {"z": ("a", "x"), "a": ("a", "y"), "H": ("Hz", "y"), "conformal_H": ("conformal_Hz", "y"),
           "conformal_H_prime": ("conformal_Hz_prime", "y"), "D1": ("D1", "y"), "f": ("f", "y"), "comoving_distance": ("comoving_distance", "y")}


def c_columns(ex, fr, st, v, n):
    ln = toI(v[1])
    cols = []
    for p in v[4:]:
        p = ex.simp(p)
        if p is NULL:
            break
        b = ex.fresh("i", "I")
        ex.bounds[b] = (num(0, "I"), ln)
        try:
            cols.append((b, ex.simp(ex.read(st, pointee(ex.padd(p, b)), "R"))))
        finally:
            del ex.bounds[b]
    else:
        raise Unsupported("the list of columns has no end")
    ev(st, "columns", (text(ex, st, v[0]), ln, text(ex, st, v[2]), text(ex, st, v[3]), tuple(cols)))
    return num(0, "I")


def background_columns(names):
    con = dict(OUTPUT)
    con["write_ncol_null"] = c_columns
    bg, fn, sep = sym("bg", "P"), sym("fn", "P"), sym("sep", "P")

    def pre(ex, st):
        bins = ex.read(st, P("background_bins"), "I")
        ex.unsigned_terms.add(bins)
        ex.N.bound_below(bins, 0, True)
        ex.write(st, P("type_bg_len"), num(len(names), "I"))
        t = ex.read(st, P("type_bg"), "P")
        for i, nm in enumerate(names):
            ex.write(st, pointee(ex.padd(t, num(i, "I"))), clit(nm))
        for f in sorted({c[0] for c in COLUMNS.values()}):     # contract of coffe_background_init: sampled at background_bins redshifts
            s = ex.read(st, fld(fld(pointee(bg), f), "spline"), "P")
            ex.write(st, fld(pointee(s), "size"), bins)
    R = Run("output_background", [fn, sep, PAR, bg], tus=("output.c",), contracts=con, pre=pre)
    e = R.one("columns")
    bins = R.ex.read(State(), P("background_bins"), "I")
    if R.same(e[1], bins):
        return "%s rows" % e[1]
    if e[0] is not text(R.ex, State(), fn):
        return "the file is %s" % e[0]
    if len(e[4]) != len(names):
        return "%d columns for %s" % (len(e[4]), names)
    for nm, (b, t) in zip(names, e[4]):
        f, ax = COLUMNS[nm]
        s = R.ex.read(State(), fld(fld(pointee(bg), f), "spline"), "P")
        a = R.ex.read(State(), fld(pointee(s), ax), "P")
        R.ex.bounds[b] = (num(0, "I"), bins)
        try:
            want = R.ex.read(State(), pointee(R.ex.padd(a, b)), "R")
            t = R.ex.simp(t)
            if t.op == "ite" and R.ex.decide(t.args[0], R.st) is TRUE:
                t = t.args[1]
            w = R.same(t, want, "column " + nm)
        finally:
            del R.ex.bounds[b]
        if w:
            return w
    h = literal(ground(e[2], None))
    if not h.startswith("#") or not h.endswith("\n") or h.count("\n") != 1 or \
            [re.sub(r"\W*\0.*$", "", x).strip() for x in h[1:].split(")")[1:]] != list(names):
        got = [x for x in h[1:].split(")")[1:]]
        if len(got) != len(names) or any(re.match(r"\w*", g).group(0) != n for g, n in zip(got, names)):
            return "the header is %r" % h
    return None


def va_contracts(rest):
    """the arguments after the last named one, taken one after the other"""
    at = fld(pointee(mk("app", ("new", "va"), "P")), "#pos")

    def start(ex, fr, st, v, n):
        ex.write(st, at, num(0, "I"))
        return num(0, "I")

    def take(ex, fr, st, v, n):
        k = ex.simp(ex.read(st, at, "I"))
        if k.op != "num" or not 0 <= val(k) < len(rest):
            raise Unsupported("an argument which was not given is taken")
        ex.write(st, at, num(val(k) + 1, "I"))
        return rest[int(val(k))]
    return {"__builtin_va_start": start, "va_start": start, "va_arg": take, "va_end": noop, "__builtin_va_end": noop}


def columns_written(count):
    """write_ncol_null with that many columns: the header, then one row per index, its elements in the order of the columns"""
    cols = [mk("app", ("new", "column%d" % i), "P") for i in range(count)]
    for title in (1, 0):
        fn, ln, hd, sep = sym("filename", "P"), sym("len", "I"), mk("app", ("new", "header"), "P") if title else NULL, sym("sep", "P")
        con = dict(OUTPUT)
        con.pop("write_ncol_null", None)
        con.update(va_contracts(cols[1:] + [NULL]))

        def pre(ex, st):
            ex.unsigned_terms.add(ln)
            ex.N.bound_below(ln, 0, True)
        R = Run("write_ncol_null", [fn, ln, hd, sep, cols[0] if cols else NULL], tus=("common.c",), contracts=con, pre=pre)
        F = Files(R)
        if not count:
            if F.order:
                return "without columns a file is written"
            continue
        if len(F.order) != 1:
            return "%d files are written" % len(F.order)
        f = F.files[F.order[0]]
        st0 = State()
        w = R.same(f["name"], text(R.ex, st0, fn), "name of the file")
        if w:
            return w
        if not f["closed"]:
            return "the file is not closed"
        body = f["body"]
        if title:
            if not body or body[0][0] or not (body[0][2] is bnot(eq(NULL, F.order[0])) or F.certain(body[0][2])) or body[0][1] is not cat(text(R.ex, st0, hd)) and R.same(body[0][1], text(R.ex, st0, hd)):
                return "the first line is not the header"
            body = body[1:]
        opened = bnot(eq(NULL, F.order[0]))
        if not body or any(len(b[0]) != 1 or not (b[2] is opened or F.certain(b[2])) for b in body) or len({b[0] for b in body}) != 1:
            return "the rows are not written by one loop"
        K, lo, hi = body[0][0][0]
        if lo is not num(0, "I") or R.same(hi, ln, "rows"):
            return "rows %s to %s" % (lo, hi)
        R.ex.bounds[K] = (lo, hi)
        parts = ground(cat(*[b[1] for b in body]), None)
        blank = text(R.ex, st0, sep)
        if not parts or not ispiece(parts[-1]) or parts[-1].args[1] != "\n":
            return "a row does not end in a newline"
        vals, after = [], []
        for x in parts[:-1]:
            if x.op == "app" and x.args[0] == "put":
                vals.append(x)
                after.append(0)
            elif x is blank and vals and not after[-1]:
                after[-1] = 1
            else:
                return "a row contains %s" % str(x)[:80]
        if len(vals) != count or not all(after[:-1]):
            return "%d columns are written" % len(vals)
        for i, x in enumerate(vals):
            if x.args[1] == "d" or int(x.args[1][1:]) < 9:
                return "column %d is written as %s" % (i, x.args[1])
            w = R.same(x.args[2], R.ex.read(st0, pointee(R.ex.padd(cols[i], K)), "R"), "column %d" % i)
            if w:
                return w
    return None


def columns_any():
    for count in range(21):
        w = columns_written(count)
        if w:
            return "%d columns: %s" % (count, w)
    return None


# ---- the main program -----------------------------------------------------------

INITS = ["background", "integrals", "corrfunc", "multipoles", "average_multipoles", "covariance", "output"]
CALLS = {"CORRFUNC": ["integrals", "corrfunc"], "MULTIPOLES": ["integrals", "multipoles"],
         "AVERAGE_MULTIPOLES": ["integrals", "average_multipoles"], "COVARIANCE_MULTIPOLES": ["covariance"],
         "COVARIANCE_AVERAGE_MULTIPOLES": ["covariance"]}
RESULT = {"corrfunc": 2, "multipoles": 3, "average_multipoles": 4}


def c_getopt(opts):
    def h(ex, fr, st, v, n):
        k = len([e for e in st.events if e[0] == "getopt"])
        ev(st, "getopt", (v[2],))
        if k >= len(opts):
            return num(-1, "I")
        o, a = opts[k]
        spec = lit(v[2])
        if o not in spec or (a is not None) != (spec[spec.index(o) + 1:][:1] == ":"):
            return num(ord("?"), "I")
        if a is not None:
            ex.write(st, var("global:optarg"), a)
        return num(ord(o), "I")
    return h


def main_run(opts, out):
    tu = load("main.c", ('PACKAGE_STRING="x"',))
    con = dict(OUTPUT)
    con["getopt"] = c_getopt(opts)
    seen = {}

    def called(name):
        def h(ex, fr, st, v, n):
            ev(st, name, tuple(v))
            seen.setdefault(name, []).append(ex.simp(ex.read(st, fld(pointee(v[0]), "nthreads"), "I")))
            # the tables nobody filled yet
            for a, f in ([(v[1], "flag")] if name == "background" else [(v[2], "size")] if name == "integrals" else [(x, "size") for x in v[2:]] if name == "output" else []):
                seen.setdefault("empty", []).append((name, ex.simp(ex.read(st, fld(pointee(a), f), "I"))))
            return num(0, "I")
        return h
    for f in INITS:
        con["coffe_%s_init" % f] = called(f)

    def c_parser(ex, fr, st, v, n):
        ev(st, "parser", (text(ex, st, v[0]), v[1]))
        ex.write(st, fld(pointee(v[1]), "output_type"), num(tu.enumname[out], "I"))
        ex.write(st, fld(pointee(v[1]), "nthreads"), sym("whatever", "I"))
        return num(0, "I")
    con["coffe_parser_init"] = c_parser
    for nm in list(tu.functions) + ["coffe_%s_free" % f for f in INITS + ["average_covariance", "parameters"]]:
        if nm.endswith("_free"):
            con[nm] = record(nm)
    con["atoi"] = lambda ex, fr, st, v, n: app("atoi", (v[0],), "I")
    con["strtol"] = lambda ex, fr, st, v, n: app("atoi", (v[0],), "I")
    con["omp_get_max_threads"] = lambda ex, fr, st, v, n: app("maxthreads", (), "I")
    ex = Executor(Program([tu]), con)
    ex.loop_rules.append(fold_rule)
    st, v = ex.call_function(tu, tu.functions["main"], [sym("argc", "I"), sym("argv", "P")], State())
    return ex, st, v, seen


def main_calls(out):
    fname, nth = FAR, mk("app", ("new", "threads"), "P")
    for opts, want in (([("s", fname), ("n", nth)], app("atoi", (nth,), "I")), ([("n", nth), ("s", fname)], app("atoi", (nth,), "I")),
                       ([("s", fname)], app("maxthreads", (), "I"))):
        ex, st, v, seen = main_run(opts, out)
        if st is None:
            return "the program never finishes"
        got = [e[0] for e in st.events if e[0] in INITS + ["parser"]]
        if got != ["parser", "background"] + CALLS[out] + ["output"]:
            return "the calls are %s" % got
        ok = lt(num(0, "I"), want)
        args = {}
        for e in st.events:
            if e[0] in INITS + ["parser"]:
                args[e[0]] = e[1]
                w = real_valid(bor(bnot(ok), e[2]))
                if w is not None:
                    return "%s is called if %s" % (e[0], str(e[2])[:100])
        if args["parser"][0] is not text(ex, State(), fname):
            return "the settings file is %s" % args["parser"][0]
        par = args["parser"][1]
        for nm in got[1:]:
            if args[nm][0] is not par:
                return "%s has other parameters" % nm
            for n_ in seen[nm]:
                if n_ is not want and not ex.same(n_, want):
                    return "%s uses %s threads" % (nm, n_)
        for nm, x in seen["empty"]:
            if x is not num(0, "I"):
                return "a table handed to %s is not empty before it is filled: %s" % (nm, x)
        bg, o = args["background"][1], args["output"]
        if any(args[nm][1] is not bg for nm in got[2:]):
            return "another background"
        for nm in CALLS[out]:
            if nm == "integrals":
                continue
            if nm == "covariance":
                if (args[nm][2], args[nm][3]) != (o[5], o[6]):
                    return "the covariance written is another one"
            else:
                if args[nm][2] is not args["integrals"][2]:
                    return "%s uses other integrals" % nm
                if args[nm][3] is not o[RESULT[nm]]:
                    return "the result written is not the one computed"
        if len(set(o)) != len(o):
            return "one table for two results"
    return None


def main_empty():
    """-h, -v, -C and no settings file compute and write nothing"""
    for opts in ([("h", None)], [("v", None)], [("C", None)], [], [("n", FAR)], [("s", FAR), ("h", None)], [("s", FAR), ("v", None)]):
        ex, st, v, seen = main_run(opts, "CORRFUNC")
        if st is None:
            return "the program never finishes"
        got = [e[0] for e in st.events if e[0] in INITS + ["parser"] and ex.decide(e[2], st) is not FALSE]
        if got:
            return "with %s the calls are %s" % ([o for o, _ in opts], got)
    return None


# ---- the settings ---------------------------------------------------------------

ALWAYS_I = {"verbose": "verbose", "output_type": "output_type", "background_sampling": "background_bins", "bessel_sampling": "bessel_bins",
            "integration_method": "integration_method", "integration_sampling": "integration_bins",
            "covariance_integration_method": "covariance_integration_method", "flatsky_local": "flatsky_local",
            "flatsky_local_nonlocal": "flatsky_local_nonlocal", "flatsky_nonlocal": "flatsky_nonlocal", "b_derivative": "b_derivative",
            "f_derivative": "f_derivative", "b_tilde_derivative": "b_tilde_derivative", "f_tilde_derivative": "f_tilde_derivative",
            "have_window": "have_window", "only_cross_correlations": "only_cross_correlations"}
ALWAYS_R = {"omega_m": "Omega0_m", "omega_baryon": "Omega0_baryon", "omega_gamma": "Omega0_gamma", "w0": "w0", "wa": "wa"}
OPTIONAL = dict([("interpolation", "interp_method")] + [(a + b + c, a + b + c) for a in ("read_", "degree_")
                for b in ("galaxy_bias", "magnification_bias", "evolution_bias") for c in "12"])
TEXTS = {"output_path": "output_path", "output_prefix": "output_prefix", "input_power_spectrum": "file_power_spectrum"}
COV = ["COVARIANCE_MULTIPOLES", "COVARIANCE_AVERAGE_MULTIPOLES"]
ARRAYS = {
    "CORRFUNC": {"z_mean": "z_mean", "deltaz": "deltaz", "mu": "mu"},
    "MULTIPOLES": {"z_mean": "z_mean", "deltaz": "deltaz", "multipoles": "multipole_values"},
    "AVERAGE_MULTIPOLES": {"z_min": "zmin", "z_max": "zmax", "multipoles": "multipole_values"},
    "COVARIANCE_MULTIPOLES": {"z_mean": "z_mean", "deltaz": "deltaz", "multipoles": "multipole_values", "density1": "density1",
                              "density2": "density2", "fsky": "fsky", "pixelsize": "pixelsize"},
    "COVARIANCE_AVERAGE_MULTIPOLES": {"zmin": "zmin", "zmax": "zmax", "multipoles": "multipole_values", "density1": "density1",
                                      "density2": "density2", "fsky": "fsky", "pixelsize": "pixelsize"},
}
BIASES = ["galaxy_bias1", "galaxy_bias2", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]


def c_range(ex, fr, st, v, n):
    return app("range", (toR(v[0]), toR(v[1]), toI(v[2])), "P")


def c_spline(ex, fr, st, v, n):
    b = ex.fresh("i", "I")
    ln = toI(v[3])
    ex.bounds[b] = (num(0, "I"), ln)
    try:
        x, y = [ex.simp(ex.read(st, pointee(ex.padd(p, b)), "R")) for p in v[1:3]]
    finally:
        del ex.bounds[b]
    ev(st, "spline", (v[0], b, x, y, ln, toI(v[4])))
    ex.write(st, fld(pointee(v[0]), "spline"), mk("app", ("new", "spline%d" % len(st.events)), "P"))
    return num(0, "I")


def c_read(S):
    def h(ex, fr, st, v, n):
        t = text(ex, st, v[0])
        ev(st, "read_2col", (t,))
        if "file" in S.absent:
            return num(1, "I")
        ln = app("rows", (t,), "I")
        ex.unsigned_terms.add(ln)
        ex.N.bound_below(ln, 0, True)
        ex.write(st, pointee(v[1]), app("col1", (t,), "P"))
        ex.write(st, pointee(v[2]), app("col2", (t,), "P"))
        ex.write(st, pointee(v[3]), ln)
        return num(0, "I")
    return h


def parse_contracts(S):
    con = dict(OUTPUT)
    con.update({"coffe_parse_default_parameters": record("defaults"), "parse_int": S.scalar("I"), "parse_double": S.scalar("R"),
                "parse_int_array": S.array("I"), "parse_double_array": S.array("R"), "parse_string_array": S.array("P"),
                "parse_string": S.string, "parse_bias": S.bias, "config_lookup": S.lookup, "config_init": noop,
                "config_set_auto_convert": noop, "config_set_option": noop, "coffe_generate_range": c_range, "coffe_init_spline": c_spline,
                "read_2col": c_read(S), "coffe_get_time": lambda ex, fr, st, v, n: app("now", (), "P"),
                "config_read_file": lambda ex, fr, st, v, n: (ev(st, "config_read", (v[0], text(ex, st, v[1]))), num(0 if "settings" in S.absent else 1, "I"))[1],
                "coffe_resolution_window": lambda ex, fr, st, v, n: app("W", (toR(v[0]),), "R"),
                "ceil": lambda ex, fr, st, v, n: app("ceil", (toR(v[0]),), "R")})
    return con


TU = []


def enum(n):
    if not TU:
        TU.append(load("parser.c"))
    return TU[0].enumname[n]


class Parsed(object):
    def __init__(self, out, absent=("separations_step",), ints=None, labels=("den",)):
        d = {"output_type": enum(out), "verbose": 0, "have_window": 0, "covariance_integration_method": enum("COFFE_COVARIANCE_INTEGRATION_STANDARD")}
        d.update(ints or {})
        self.S = Settings(d, absent, labels)
        self.out = out
        par = PAR

        def pre(ex, st):
            ex.write(st, P("galaxy_bias_analytic"), num(0, "I"))    # what the defaults leave there
        self.R = Run("coffe_parser_init", [FAR, par], tus=("parser.c",), contracts=parse_contracts(self.S), pre=pre)
        self.ex, self.st = self.R.ex, self.R.st

    def want(self, name, sort):
        return self.S.number(name, sort)

    def field(self, f, sort):
        return self.R.read(member(pointee(PAR), f, None), sort)

    def initial(self, f, sort):
        return self.ex.read(State(), member(pointee(PAR), f, None), sort)

    def same(self, got, want, what):
        w = self.R.same(got, want, what)
        if w is None:
            return None
        if got.sort in "IR" and real_valid(bor(bnot(self.st.pc), eq(got, want))) is None:
            return None
        return w


def returns(*a, **k):
    try:
        Parsed(*a, **k)
        return True
    except Unsupported as e:
        if NEVER in str(e):
            return False
        raise


def stored(out):
    for win, fft in ((0, False), (1, True)):
        p = Parsed(out, ints={"have_window": win, "covariance_integration_method":
                              enum("COFFE_COVARIANCE_INTEGRATION_FFTLOG" if fft else "COFFE_COVARIANCE_INTEGRATION_STANDARD")})
        I, Rl = dict(ALWAYS_I), dict(ALWAYS_R)
        I.update(OPTIONAL)
        if fft:
            I.update({"covariance_integration_bins": "covariance_integration_bins", "covariance_interpolation_method": "covariance_interpolation_method"})
        if win:
            Rl["window_size"] = "window_size"
        if out in COV:
            I["covariance_window"] = "covariance_window"
        for names, sort in ((I, "I"), (Rl, "R")):
            for nm, f in names.items():
                w = p.same(p.field(f, sort), p.want(nm, sort), "%s (setting %s)" % (f, nm))
                if w:
                    return w
        for nm, f in TEXTS.items():
            t = p.ex.simp(p.ex.read(p.st, fld(idx(P(f), num(0, "I")), "#text"), "P"))
            if t is not app("cfg", (clit(nm),), "P"):
                return "%s is %s" % (f, str(t)[:100])
    return None


def arrays(out):
    p = Parsed(out)
    for nm, f in ARRAYS[out].items():
        ln = "multipole_values_len" if f == "multipole_values" else f + "_len"
        w = p.same(p.field(f, "P"), app("cfgarray", (clit(nm),), "P"), f) or p.same(p.field(ln, "I"), app("cfglen", (clit(nm),), "I"), ln)
        if w:
            return w
    t = p.field("type_bg_len", "I")
    if t is not num(1, "I"):
        return "type_bg_len is %s for a list of one name" % t
    q = p.field("type_bg", "P")
    if text(p.ex, p.st, p.ex.simp(p.ex.read(p.st, pointee(q), "P"))) is not cat(piece("den")):
        return "the names of the background columns are lost"
    return None


def optional(out):
    names = sorted(OPTIONAL)
    for gone in [[n] for n in names] + [names]:
        p = Parsed(out, absent=["separations_step"] + gone)
        for nm in names:
            f = OPTIONAL[nm]
            want = p.initial(f, "I") if nm in gone else p.want(nm, "I")
            w = p.same(p.field(f, "I"), want, "%s without %s" % (f, ", ".join(gone)))
            if w:
                return w
    return None


def required(out):
    need = sorted(ALWAYS_I) + sorted(ALWAYS_R) + sorted(TEXTS) + ["separations_min", "separations_max", "k_min", "k_max"]
    if out in COV:
        need.append("covariance_window")
    for nm in need:
        if returns(out, absent=["separations_step", nm]):
            return "the program goes on without %s" % nm
    if returns(out, absent=["separations_step", "window_size"], ints={"have_window": 1}):
        return "the program goes on without window_size"
    if returns(out, absent=["separations_step", "settings"]):
        return "the program goes on without a settings file"
    return None


def widths(out):
    """deltaz: one for each mean redshift; without the setting, the default one for all of them"""
    p = Parsed(out)
    n = app("cfglen", (clit("z_mean"),), "I")
    w = real_valid(bor(bnot(p.st.pc), eq(app("cfglen", (clit("deltaz"),), "I"), n)))
    if w is not None:
        return "deltaz and z_mean may have different lengths"
    if out in COV:
        return None
    p = Parsed(out, absent=["separations_step", "deltaz"])
    d0 = p.ex.read(State(), pointee(p.initial("deltaz", "P")), "R")
    w = p.same(p.field("deltaz_len", "I"), n, "deltaz_len")
    if w:
        return w
    b = p.ex.fresh("i", "I")
    p.ex.bounds[b] = (num(0, "I"), n)
    got = p.R.read(pointee(p.ex.padd(p.field("deltaz", "P"), b)), "R")
    if got.op == "ite" and p.ex.decide(got.args[0], p.st) is TRUE:
        got = got.args[1]
    return p.same(got, d0, "deltaz[i]")


def separations(out):
    lo, hi, n, step = [app("cfg", (clit("separations_" + x),), s) for x, s in (("min", "R"), ("max", "R"), ("sampling", "I"), ("step", "R"))]
    p = Parsed(out)
    w = p.same(p.field("sep", "P"), app("range", (lo, hi, n), "P"), "sep") or p.same(p.field("sep_len", "I"), n, "sep_len")
    if w:
        return w
    p = Parsed(out, absent=["separations_sampling"])
    ln = p.field("sep_len", "I")
    if real_valid(bor(bnot(p.st.pc), lt(num(0), step))) is not None:
        return "a step which is not positive is taken"
    got = p.field("sep", "P")
    if got.op != "app" or got.args[0] != "range":
        return "sep is %s" % str(got)[:100]
    a, b, m = got.args[1:]
    w = p.same(a, lo, "first separation") or p.same(m, ln, "number of separations")
    if w:
        return w
    # the spacing of coffe_generate_range is (b - a)/m
    if not p.ex.same(add(b, neg(a)), mul(toR(ln), step)):
        return "the last separation is %s" % str(b)[:100]
    c = app("ceil", (div(add(hi, neg(lo)), step),), "R")
    t = [x for x in subterms(ln) if x.op == "app" and x.args[0] == "ceil"]
    if len(t) != 1 or not p.ex.same(t[0], c) or not p.ex.same(toR(ln), toR(toI(t[0]))) and not str(ln).startswith(("trunc", "toI", "int")):
        return "the number of separations is %s" % str(ln)[:120]
    if returns(out, absent=[]):
        return "both a step and a sampling are taken"
    if returns(out, absent=["separations_step", "separations_sampling"]):
        return "neither a step nor a sampling is taken"
    return None


def derived(out):
    p = Parsed(out)
    m, g, b = [p.want(n, "R") for n in ("omega_m", "omega_gamma", "omega_baryon")]
    nu = p.initial("Omega0_nu", "R")
    return p.same(p.field("Omega0_de", "R"), add(num(1), neg(add(m, g))), "Omega0_de") or \
        p.same(p.field("Omega0_cdm", "R"), add(m, neg(b), neg(nu)), "Omega0_cdm") or \
        p.same(p.field("flag", "I"), num(1, "I"), "flag") or \
        (None if real_valid(bor(bnot(p.st.pc), lt(add(*[toR(p.want(x, "I")) for x in ("b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative")]), num(2)))) is None
         else "two derivatives are taken at the same time")


def lengths(out):
    p = Parsed(out)
    ln = lambda x: app("cfglen", (clit(x),), "I")
    if out == "AVERAGE_MULTIPOLES":
        if real_valid(bor(bnot(p.st.pc), eq(ln("z_min"), ln("z_max")))) is not None:
            return "z_min and z_max may have different lengths"
        return None
    for nm in ARRAYS[out]:
        if nm == "multipoles":
            continue
        if real_valid(bor(bnot(p.st.pc), eq(ln("density1"), ln(nm)))) is not None:
            return "%s may have another length than density1" % nm
    return None


def biases(out):
    for gone in ((), ("interpolation",)):
        p = Parsed(out, absent=("separations_step",) + tuple(gone))
        meth = p.initial("interp_method", "I") if gone else p.want("interpolation", "I")
        es = [e for e in p.st.events if e[0] == "bias"]
        if len(es) != len(BIASES):
            return "%d biases are read" % len(es)
        for nm in BIASES:
            e = [x for x in es if x[1][3] is addr(P(nm))]
            if len(e) != 1:
                return "%s is read %d times" % (nm, len(e))
            f, s, fn, _, m, flag = e[0][1]
            if (f, s) != ("input_" + nm, nm):
                return "%s is read from %s and %s" % (nm, f, s)
            if fn is not addr(idx(P("file_" + nm), num(0, "I"))):
                return "the file of %s goes to %s" % (nm, fn)
            w = p.same(m, meth, "interpolation of " + nm) or p.same(flag, p.want("read_" + nm, "I"), "flag of " + nm)
            if w:
                return w
            if real_valid(bor(bnot(p.st.pc), e[0][2])) is not None:
                return "%s is read if %s" % (nm, str(e[0][2])[:100])
    return None


def spectrum(out):
    """the spectrum in the file (smoothed if a window is asked for), the range cut to that of the table"""
    f = app("cfg", (clit("input_power_spectrum"),), "P")
    for win in (0, 1):
        p = Parsed(out, ints={"have_window": win})
        w = spectrum_of(p, f, win)
        if w:
            return w
    p = Parsed(out, absent=["separations_step", "file"])
    es = [e[1] for e in p.st.events if e[0] == "spline" and e[1][0] is addr(P("power_spectrum"))]
    if es:
        return "without a file the spectrum is replaced"
    return cut(p)


def spectrum_of(p, f, win):
    es = [e[1] for e in p.st.events if e[0] == "spline" and e[1][0] is addr(P("power_spectrum"))]
    if len(es) != 1:
        return "the spectrum is set %d times" % len(es)
    s, b, x, y, ln, m = es[0]
    n = app("rows", (f,), "I")
    p.ex.bounds[b] = (num(0, "I"), n)
    try:
        k, v = [p.ex.read(State(), pointee(p.ex.padd(app(c, (f,), "P"), b)), "R") for c in ("col1", "col2")]
        if win:
            W = app("W", (mul(p.want("window_size", "R"), k),), "R")
            v = mul(v, W, W)
        y = p.ex.simp(y)
        if y.op == "ite" and p.ex.decide(y.args[0], p.st) is TRUE:
            y = y.args[1]
        w = p.R.same(x, k, "k") or p.R.same(y, v, "P(k)") or p.R.same(ln, n, "number of points") or p.R.same(m, p.want("interpolation", "I"), "interpolation")
    finally:
        del p.ex.bounds[b]
    return w or cut(p)


def cut(p):
    sp = p.ex.read(p.st, fld(P("power_spectrum"), "spline"), "P")
    x, n = p.ex.read(p.st, fld(pointee(sp), "x"), "P"), p.ex.read(p.st, fld(pointee(sp), "size"), "I")
    y = p.ex.read(p.st, fld(pointee(sp), "y"), "P")
    lo, hi = [p.ex.read(p.st, pointee(p.ex.padd(x, i)), "R") for i in (num(0, "I"), add(n, num(-1, "I")))]
    kmin, kmax = p.want("k_min", "R"), p.want("k_max", "R")
    for f in ("k_min", "k_min_norm"):
        w = p.same(p.field(f, "R"), ite(lt(kmin, lo), lo, kmin), f)
        if w:
            return w
    for f in ("k_max", "k_max_norm"):
        w = p.same(p.field(f, "R"), ite(lt(hi, kmax), hi, kmax), f)
        if w:
            return w
    es = [e[1] for e in p.st.events if e[0] == "spline" and e[1][0] is addr(P("power_spectrum_norm"))]
    if len(es) != 1:
        return "the second copy of the spectrum is set %d times" % len(es)
    s, b, gx, gy, ln, m = es[0]
    p.ex.bounds[b] = (num(0, "I"), n)
    try:
        def strip(t):
            t = p.ex.simp(t)
            return t.args[1] if t.op == "ite" and p.ex.decide(t.args[0], p.st) is TRUE else t
        kx, ky = [p.ex.read(p.st, pointee(p.ex.padd(a, b)), "R") for a in (x, y)]
        return p.R.same(strip(gx), kx, "k of the copy") or p.R.same(strip(gy), ky, "P(k) of the copy") or p.R.same(ln, n, "length of the copy")
    finally:
        del p.ex.bounds[b]


def labels_all(out):
    """for a list of any length: a contribution is on exactly when its name is in the list"""
    p = Parsed(out, labels=None)
    name = clit("correlation_contributions")
    arr, ln = app("cfgarray", (name,), "P"), app("cfglen", (name,), "I")
    flags = {}
    for l in LABELS:
        got = flags[l] = p.ex.simp(p.field("correlation_contrib." + l, "I"))
        if got.op != "ite" or (got.args[1], got.args[2]) != (num(1, "I"), num(0, "I")) or got.args[0].op != "app" or got.args[0].args[0] != "exists":
            return "contribution %s is %s" % (l, str(got)[:100])
        names, lo, hi, b = got.args[0].args[1:]
        if lo is not num(0, "I") or p.same(hi, ln, "number of names"):
            return "contribution %s looks at the names %s to %s" % (l, lo, str(hi)[:60])
        is_ = {}
        j = [x for x in subterms(b) if x.op == "bound" and x.args[0] == names[0] or x.op == "sym" and x.args[0] == names[0]]
        if len(j) != 1:
            return "contribution %s does not depend on the names" % l
        t = text(p.ex, State(), p.ex.read(State(), pointee(p.ex.padd(arr, j[0])), "P"))
        for q in LABELS:
            is_[q] = eq(num(0, "I"), app("strcmp", (t, cat(piece(q))), "I"))
        one = band(*[bnot(band(is_[q], is_[r])) for q in LABELS for r in LABELS if q < r])      # a text is not two names
        r = int_valid(implies(one, band(implies(b, is_[l]), implies(is_[l], b))))
        if r is not None:
            return "contribution %s is on if %s" % (l, str(b)[:100])
    got, init = p.field("divergent", "I"), p.initial("divergent", "I")
    if int_valid(eq(got, ite(bor(*[lt(num(0, "I"), flags[l]) for l in RENORM]), num(1, "I"), init))) is not None:
        return "divergent is %s" % str(got)[:200]
    return None


# ---- the helpers of the parser, on their bodies ----------------------------------

CONF = sym("conf", "P")


def c_lookup(name, sort, present):
    def h(ex, fr, st, v, n):
        ev(st, name, (v[0], text(ex, st, v[1])))
        if not present:
            return num(0, "I")
        val_ = app("cfg", (text(ex, st, v[1]),), sort)
        ex.write(st, pointee(v[2]), val_)
        return num(1, "I")
    return h


def scalar_helper(fn, lib, sort):
    for safe in (0, 1):
        for present in (0, 1):
            con = dict(OUTPUT)
            con[lib] = c_lookup(lib, sort, present)
            out, nm = sym("value", "P"), FAR
            try:
                R = Run(fn, [CONF, nm, out, num(safe, "I")], tus=("parser.c",), contracts=con)
            except Unsupported as e:
                if NEVER in str(e) and safe and not present:
                    continue
                raise
            if safe and not present:
                return "a missing required setting is passed over"
            e = R.one(lib)
            if e[0] is not CONF or e[1] is not text(R.ex, State(), nm):
                return "another setting is read"
            w = R.same(toI(R.v), num(0 if present else 1, "I"), "returned")
            if w:
                return w
            if sort == "P":
                got = R.ex.simp(R.ex.read(R.st, where(out), "P"))
                want = text(R.ex, State(), out) if not present else text(R.ex, State(), app("cfg", (text(R.ex, State(), nm),), "P"))
            else:
                got = R.read(pointee(out), sort)
                want = app("cfg", (text(R.ex, State(), nm),), sort) if present else R.ex.read(State(), pointee(out), sort)
            w = R.same(got, want, "value")
            if w:
                return w
    return None


def array_helper(fn, getter, sort):
    for present in (0, 1):
        con = dict(OUTPUT)
        S = mk("app", ("new", "setting"), "P")
        ln = app("cfglen", (S,), "I")
        con["config_lookup"] = lambda ex, fr, st, v, n: (ev(st, "lookup", (v[0], text(ex, st, v[1]))), S if present else NULL)[1]

        def length(ex, fr, st, v, n):
            ex.unsigned_terms.add(ln)
            ex.N.bound_below(ln, 0, True)
            return ln
        con["config_setting_length"] = length
        con[getter] = lambda ex, fr, st, v, n: app("elem", (v[0], toI(v[1])), sort)
        con["strlen"] = lambda ex, fr, st, v, n: app("strlen", (v[0],), "I")
        vals, lens = sym("values", "P"), sym("values_len", "P")
        R = Run(fn, [CONF, FAR, vals, lens], tus=("parser.c",), contracts=con)
        e = R.one("lookup")
        if e[0] is not CONF or e[1] is not text(R.ex, State(), FAR):
            return "another setting is read"
        w = R.same(toI(R.v), num(0 if present else 1, "I"), "returned")
        if w:
            return w
        if not present:
            w = R.same(R.read(pointee(vals), "P"), R.ex.read(State(), pointee(vals), "P")) or \
                R.same(R.read(pointee(lens), "I"), R.ex.read(State(), pointee(lens), "I"))
            if w:
                return w
            continue
        w = R.same(R.read(pointee(lens), "I"), ln, "length")
        if w:
            return w
        b = R.ex.fresh("i", "I")
        R.ex.bounds[b] = (num(0, "I"), ln)
        got = R.read(pointee(R.ex.padd(R.read(pointee(vals), "P"), b)), sort)
        if got.op == "ite" and R.ex.decide(got.args[0], R.st) is TRUE:
            got = got.args[1]
        w = R.same(got, app("elem", (S, b), sort), "element")
        if w:
            return w
        al = [x[1] for x in R.st.events if x[0] in ("malloc", "coffe_malloc", "calloc")]
        if not al:
            return "no memory for the elements"
    return None


def texts_helper():
    """parse_string_array: copies of the texts of the setting, each in memory of its own that holds it"""
    for present in (0, 1):
        con = dict(OUTPUT)
        S = mk("app", ("new", "setting"), "P")
        ln = app("cfglen", (S,), "I")
        con["config_lookup"] = lambda ex, fr, st, v, n: (ev(st, "lookup", (v[0], text(ex, st, v[1]))), S if present else NULL)[1]

        def length(ex, fr, st, v, n):
            ex.unsigned_terms.add(ln)
            ex.N.bound_below(ln, 0, True)
            return ln
        con["config_setting_length"] = length
        con["config_setting_get_string_elem"] = lambda ex, fr, st, v, n: app("elem", (v[0], toI(v[1])), "P")
        con["strlen"] = lambda ex, fr, st, v, n: app("strlen", (text(ex, st, v[0]),), "I")
        vals, lens = sym("values", "P"), sym("values_len", "P")
        R = Run("parse_string_array", [CONF, FAR, vals, lens], tus=("parser.c",), contracts=con)
        e = R.one("lookup")
        if e[0] is not CONF or e[1] is not text(R.ex, State(), FAR):
            return "another setting is read"
        w = R.same(toI(R.v), num(0 if present else 1, "I"), "returned")
        if w:
            return w
        if not present:
            w = R.same(R.read(pointee(vals), "P"), R.ex.read(State(), pointee(vals), "P")) or \
                R.same(R.read(pointee(lens), "I"), R.ex.read(State(), pointee(lens), "I"))
            if w:
                return w
            continue
        w = R.same(R.read(pointee(lens), "I"), ln, "length")
        if w:
            return w
        b = R.ex.fresh("i", "I")
        R.ex.bounds[b] = (num(0, "I"), ln)
        q = R.read(pointee(R.ex.padd(R.read(pointee(vals), "P"), b)), "P")
        src = app("elem", (S, b), "P")
        if q.op != "app" or q.args[0] != "new" or b not in q.args:
            return "an element is %s" % str(q)[:100]
        w = R.same(text(R.ex, R.st, q), text(R.ex, State(), src), "text")
        if w:
            return w
        al = [(k[0], x[1][0]) for e in R.st.events if e[0] == "loop" for k in [e[1]] for x in k[3] if x[0] in ("malloc", "coffe_malloc")]
        if len(al) != 1:
            return "%d pieces of memory for a text" % len(al)
        need = add(app("strlen", (text(R.ex, State(), src),), "I"), num(1, "I"))
        unit = [x for x in subterms(al[0][1]) if x.op == "sym" and str(x.args[0]) == "sizeof<char>"]
        size = subst(al[0][1], dict([(al[0][0], b)] + [(u, num(1, "I")) for u in unit]))
        if int_valid(le(need, size)) is not None:
            return "a text gets %s bytes" % str(size)[:80]
        outer = [x[1][0] for x in R.st.events if x[0] in ("malloc", "coffe_malloc")]
        if len(outer) != 1 or not any(R.ex.same(outer[0], mul(u, ln)) for u in subterms(outer[0]) if u.op == "sym"):
            return "memory for the list: %s" % [str(x)[:60] for x in outer]
    return None


def bias_helper():
    con = {}
    for flag in (0, 1):
        S = Settings(absent=[])
        con = dict(OUTPUT)
        con.update({"read_2col": c_read(S), "coffe_init_spline": c_spline,
                    "parse_string": lambda ex, fr, st, v, n: (ex.write(st, where(v[2]), app("cfg", (text(ex, st, v[1]),), "P")), num(0, "I"))[1],
                    "parse_double": lambda ex, fr, st, v, n: (ex.write(st, pointee(v[2]), app("cfg", (text(ex, st, v[1]),), "R")), num(0, "I"))[1],
                    "parse_bias_default": lambda ex, fr, st, v, n: (ev(st, "flat", (toR(v[0]), v[1], toI(v[2]))), num(0, "I"))[1]})
        a = [CONF, FAR, sym("filename", "P"), mk("app", ("new", "single"), "P"), sym("spline", "P"), sym("method", "I"), num(flag, "I")]
        R = Run("parse_bias", a, tus=("parser.c",), contracts=con)
        st0 = State()
        if flag:
            f = app("cfg", (text(R.ex, st0, a[1]),), "P")
            if R.events("flat"):
                return "a constant bias instead of the file"
            s, b, x, y, ln, m = R.one("spline")
            R.ex.bounds[b] = (num(0, "I"), app("rows", (f,), "I"))
            k, v = [R.ex.read(st0, pointee(R.ex.padd(app(c, (f,), "P"), b)), "R") for c in ("col1", "col2")]
            w = R.same(s, a[4], "spline") or R.same(x, k, "redshifts") or R.same(y, v, "bias") or R.same(ln, app("rows", (f,), "I"), "length") or R.same(m, a[5], "method")
            if w:
                return w
            con["read_2col"] = c_read(Settings(absent=["file"]))
            try:
                Run("parse_bias", a, tus=("parser.c",), contracts=con)
                return "a file which cannot be read is passed over"
            except Unsupported as e:
                if NEVER not in str(e):
                    raise
        else:
            if R.events("spline"):
                return "a file instead of a constant"
            v, s, m = R.one("flat")
            w = R.same(v, app("cfg", (text(R.ex, st0, a[3]),), "R"), "bias") or R.same(s, a[4], "spline") or R.same(m, a[5], "method")
            if w:
                return w
    return None


def bias_default():
    con = dict(OUTPUT)
    con["coffe_init_spline"] = c_spline
    v, s, m = sym("value", "R"), sym("spline", "P"), sym("method", "I")
    R = Run("parse_bias_default", [v, s, m], tus=("parser.c",), contracts=con)
    s_, b, x, y, ln, m_ = R.one("spline")
    if s_ is not s or R.same(m_, m) or ln.op != "num" or val(ln) < 5:
        return "spline %s of %s points" % (s_, ln)
    last = None
    for i in range(int(val(ln))):
        r = {b: num(i, "I")}
        xi, yi = [R.ex.simp(subst(t, r)) for t in (x, y)]
        if xi.op != "num" or (last is not None and val(xi) <= last) or (i == 0 and val(xi) != 0):
            return "redshift %d is %s" % (i, xi)
        last = val(xi)
        w = R.same(yi, v, "value %d" % i)
        if w:
            return w
    return None if last >= 10 else "the last redshift is %s" % last


# ---- the defaults ---------------------------------------------------------------

def documented():
    """DEFAULT_SETTINGS.cfg of the repository"""
    d = {}
    for l in open(os.path.join(REPO, "DEFAULT_SETTINGS.cfg")):
        if "=" in l:
            a, b = l.split("=", 1)
            d[a.strip()] = b.strip()
    return d


DEFAULTS = {"omega_m": "Omega0_m", "omega_baryon": "Omega0_baryon", "omega_gamma": "Omega0_gamma", "omega_cdm": "Omega0_cdm", "h": "h", "w0": "w0",
            "wa": "wa", "N_ur": "N_ur", "T_cmb": "T_cmb", "m_ncdm": "m_ncdm", "YHe": "YHe", "sigma8": "sigma8", "A_s": "A_s", "n_s": "n_s",
            "k_min": "k_min", "k_max": "k_max", "integration_1d_prec": "integration_1d_prec",
            "k_per_decade_for_bao": "class_precision.k_per_decade_for_bao", "k_per_decade_for_pk": "class_precision.k_per_decade_for_pk",
            "start_large_k_at_tau_h_over_tau_k": "class_precision.start_large_k_at_tau_h_over_tau_k",
            "tol_perturb_integration": "class_precision.tol_perturb_integration",
            "radiation_streaming_trigger_tau_over_tau_k": "class_precision.radiation_streaming_trigger_tau_over_tau_k",
            "ur_fluid_trigger_tau_over_tau_k": "class_precision.ur_fluid_trigger_tau_over_tau_k"}
DEFAULTS_I = {"N_ncdm": "N_ncdm", "background_sampling": "background_bins", "covariance_cosmic": "covariance_cosmic",
              "covariance_mixed": "covariance_mixed", "covariance_poisson": "covariance_poisson",
              "covariance_integration_sampling": "covariance_integration_bins", "has_density": "correlation_contrib.den",
              "has_rsd": "correlation_contrib.rsd", "has_lensing": "correlation_contrib.len", "has_d1": "correlation_contrib.d1",
              "has_d2": "correlation_contrib.d2", "has_g1": "correlation_contrib.g1", "has_g2": "correlation_contrib.g2",
              "has_g3": "correlation_contrib.g3", "has_g4": "correlation_contrib.g4", "has_g5": "correlation_contrib.g5",
              "has_flatsky_local": "flatsky_local", "has_flatsky_local_nonlocal": "flatsky_local_nonlocal",
              "has_flatsky_nonlocal": "flatsky_nonlocal", "has_only_cross_correlations": "only_cross_correlations",
              "integration_sampling": "integration_bins", "l_max_g": "class_precision.l_max_g", "l_max_ur": "class_precision.l_max_ur",
              "verbose": "verbose", "has_binned_covariance": "covariance_window"}
DEFAULTS_A = {"deltaz": ("deltaz", "R"), "fsky": ("fsky", "R"), "mu": ("mu", "R"), "number_density1": ("density1", "R"),
              "number_density2": ("density2", "R"), "pixelsize": ("pixelsize", "R"), "z_mean": ("z_mean", "R"), "l": ("multipole_values", "I"), "z_min": ("zmin", "R"),
              "z_max": ("zmax", "R")}
DEFAULTS_E = {"covariance_integration_method": ("covariance_integration_method", {"standard": "COFFE_COVARIANCE_INTEGRATION_STANDARD", "fftlog": "COFFE_COVARIANCE_INTEGRATION_FFTLOG"}),
              "covariance_interpolation_method": ("covariance_interpolation_method", {"bicubic": "COFFE_INTERP2D_BICUBIC", "bilinear": "COFFE_INTERP2D_BILINEAR"}),
              "integration_1d_type": ("integration_1d_type", {"gsl": "COFFE_INTEGRATION_GSL", "double_exponential": "COFFE_INTEGRATION_DOUBLE_EXPONENTIAL"}),
              "pk_type": ("pk_type", {"linear": "COFFE_PK_LINEAR"})}
_D = {}


def defaults_run():
    if "R" not in _D:
        con = dict(OUTPUT)
        for f in ("coffe_new_fit_coefficients_array", "coffe_new_class_struct", "coffe_new_spline", "coffe_new_spline2d"):
            con[f] = noop
        con.update({"coffe_init_spline": c_spline, "coffe_generate_range": c_range, "parse_bias_default":
                    lambda ex, fr, st, v, n: (ev(st, "flat", (toR(v[0]), v[1], toI(v[2]))), num(0, "I"))[1],
                    "coffe_get_time": lambda ex, fr, st, v, n: app("now", (), "P"),
                    "omp_get_max_threads": lambda ex, fr, st, v, n: app("maxthreads", (), "I")})
        _D["R"] = Run("coffe_parse_default_parameters", [PAR], tus=("parser.c",), contracts=con)
        _D["doc"] = documented()
    return _D["R"], _D["doc"]


def lst(s):
    return [x.strip() for x in s.strip("[]").split(",") if x.strip()]


def near(t, s, what):
    if t.op != "num":
        return "%s is %s" % (what, str(t)[:100])
    a, b = val(t), Fraction(s)
    return None if abs(a - b) <= Fraction(1, 10 ** 12) * max(abs(b), Fraction(1, 10 ** 6)) else "%s is %s, documented %s" % (what, float(a), s)


def defaults_numbers():
    R, d = defaults_run()
    for names, sort in ((DEFAULTS, "R"), (DEFAULTS_I, "I")):
        for nm, f in names.items():
            w = near(R.read(member(pointee(PAR), f, None), sort), d[nm], f)
            if w:
                return w
    t = R.read(P("integration_method"), "I")
    if t.op != "num" or not 0 <= val(t) <= 2:
        return "integration_method is %s, none of the methods" % t
    for nm, (f, codes) in DEFAULTS_E.items():
        w = near(R.read(P(f), "I"), str(R.tu.enumname[codes[d[nm]]]), f)
        if w:
            return w
    return None


def defaults_arrays():
    R, d = defaults_run()
    for nm, (f, sort) in DEFAULTS_A.items():
        xs = lst(d[nm])
        w = near(R.read(P(f + "_len"), "I"), str(len(xs)), f + "_len")
        if w:
            return w
        p = R.read(P(f), "P")
        for i, x in enumerate(xs):
            w = near(R.read(pointee(R.ex.padd(p, num(i, "I"))), sort), x, "%s[%d]" % (f, i))
            if w:
                return w
    for i, x in enumerate(lst(d["covariance_populations"])):
        w = near(R.read(P("covariance_pop%d" % (i + 1)), "I"), x, "covariance_pop%d" % (i + 1))
        if w:
            return w
    xs = [Fraction(x) for x in lst(d["sep"])]
    p, n = R.read(P("sep"), "P"), R.read(P("sep_len"), "I")
    if p.op != "app" or p.args[0] != "range" or any(x.op != "num" for x in p.args[1:]) or near(n, str(len(xs)), "sep_len") or val(p.args[3]) != len(xs):
        return "sep is %s" % str(p)[:100]
    a, b, m = map(val, p.args[1:])
    if any(a + (b - a) * i / m != x for i, x in enumerate(xs)):
        return "sep is %s" % str(p)
    return None


def defaults_bias():
    R, d = defaults_run()
    for nm in ["galaxy_bias3", "galaxy_bias4"] + BIASES:
        e = [x[1] for x in R.st.events if x[0] == "flat" and x[1][1] is addr(P(nm))]
        if len(e) != 1:
            return "%s is set %d times" % (nm, len(e))
        for x in lst(d[nm + "_values"]):
            w = near(e[0][0], x, nm)
            if w:
                return w
        w = R.same(e[0][2], R.read(P("interp_method"), "I"), "interpolation of " + nm)
        if w:
            return w
    for nm in BIASES:
        if R.read(P("read_" + nm), "I") is not num(0, "I"):
            return "read_%s is on" % nm
    return None


def defaults_spectrum():
    """the tabulated spectrum, k in 1/Mpc and P in Mpc^3"""
    R, d = defaults_run()
    tab = []
    for f in ("WAVENUMBER_HEADER.dat", "POWER_SPECTRUM_HEADER.dat"):
        s = open(os.path.join(REPO, "src", f)).read()
        tab.append([Fraction(x) for x in re.split(r"[,\s]+", s) if x])
    h = Fraction(d["h"])
    es = [e[1] for e in R.st.events if e[0] == "spline"]
    one = [e for e in es if e[0] is addr(P("power_spectrum"))]
    if len(one) != 1:
        return "the spectrum is set %d times" % len(one)
    s, b, x, y, ln, m = one[0]
    if ln.op != "num" or val(ln) != len(tab[0]) or len(tab[0]) != len(tab[1]):
        return "%s points" % ln
    for i in range(len(tab[0])):
        xi, yi = [R.ex.simp(subst(t, {b: num(i, "I")})) for t in (x, y)]
        if xi.op != "num" or yi.op != "num" or abs(val(xi) / (tab[0][i] * h) - 1) > 1e-12 or abs(val(yi) * h ** 3 / tab[1][i] - 1) > 1e-12:
            return "point %d is %s, %s" % (i, str(xi)[:60], str(yi)[:60])
    return None


def tabulated():
    return [[float(x) for x in re.split(r"[,\s]+", open(os.path.join(REPO, "src", f)).read()) if x] for f in ("WAVENUMBER_HEADER.dat", "POWER_SPECTRUM_HEADER.dat")]


def expectations():
    """the documented defaults as plain numbers"""
    d = documented()
    out = {f: float(d[n]) for n, f in DEFAULTS.items()}
    out.update({f: int(float(d[n])) for n, f in DEFAULTS_I.items()})
    out.update({f: [float(x) for x in lst(d[n])] for n, (f, s) in DEFAULTS_A.items()})
    out.update({f: enum(codes[d[n]]) for n, (f, codes) in DEFAULTS_E.items()})
    out.update({"read_" + b: 0 for b in BIASES})
    out.update({"covariance_pop%d" % (i + 1): int(x) for i, x in enumerate(lst(d["covariance_populations"]))})
    out["sep"] = [float(x) for x in lst(d["sep"])]
    k, p = tabulated()
    h = float(d["h"])
    return out, {b: float(lst(d[b + "_values"])[0]) for b in BIASES + ["galaxy_bias3", "galaxy_bias4"]}, [x for a, b in zip(k, p) for x in (a * h, b / h ** 3)]


# ---------------------------------------------------------------------------------

def run(c, scratch):
    c.technique = "contract-based deductive verification"
    c.assume("stdio, string.h and libconfig behave as documented; texts are not longer than their buffers (COFFE_MAX_STRLEN)",
             "fgets, strtok and atof as in C: a file is a sequence of lines (of fewer than COFFE_MAX_STRLEN characters), cut at the separators",
             "stat, mkdir and strtok as in POSIX; a directory that is missing can be made",
             "the spectrum and every length are taken from the settings in the units the library uses (1/Mpc, Mpc)",
             "builds with CUBA, CLASS and ARB are not covered")
    for f, w in (("main", "parse, background, the routines of the output type, write; the given number of threads"),
                 ("coffe_parser_init", "every setting in its parameter; missing required ones refused, missing optional ones keep the default"),
                 ("coffe_parse_default_parameters", "the documented defaults"), ("parse_int", "value of the setting"), ("parse_double", "value of the setting"),
                 ("parse_string", "value of the setting"), ("parse_int_array", "elements of the setting, in order"), ("parse_double_array", "elements of the setting, in order"),
                 ("parse_string_array", "copies of the texts of the setting, in order"),
                 ("read_2col", "the first two columns of every line which is no comment, in order; their number"),
                 ("output_make_path", "missing directories made one after the other; the path ends in one slash; the empty path is the current directory"),
                 ("parse_bias", "table of the file, or a constant"), ("parse_bias_default", "constant over redshifts 0 to 10 and more"),
                 ("coffe_output_init", "result, background and settings files of the output type"), ("output_corrfunc", "one row per result, in order"),
                 ("output_multipoles", "one row per result, in order"), ("output_average_multipoles", "one row per result, in order"),
                 ("output_covariance", "one row per result, in order"), ("output_background", "the named columns, in order"),
                 ("output_correlation_contributions_header", "the names of the contributions that are on")):
        c.function(f, w)
    opened = []

    def ob(name, fn, backend=BACK):
        if not attempt(c, name, fn, backend):
            opened.append((name, c.obls[-1][4]))

    for o in OUT:
        tag = o.lower() + ": "
        ob(tag + "the routines called, their tables and the number of threads", lambda: main_calls(o))
        ob(tag + "name of the result file", lambda: result_name(o))
        ob(tag + "one row per result, in order, its coordinates and value", lambda: result_rows(o))
        ob(tag + "comment lines: contributions and columns", lambda: result_header(o))
        ob(tag + "settings and background are written next to it", lambda: other_files(o))
        ob(tag + "each setting is stored in its parameter", lambda: stored(o), BACKZ)
        ob(tag + "the lists of the output type are stored", lambda: arrays(o), BACKZ)
        ob(tag + "a missing optional setting keeps the default", lambda: optional(o), BACKZ)
        ob(tag + "a missing required setting ends the program", lambda: required(o))
        ob(tag + "separations: sampling or step", lambda: separations(o), BACKZ)
        ob(tag + "density parameters, derivatives", lambda: derived(o), BACKZ)
        ob(tag + "bias: file or constant, of each population", lambda: biases(o), BACKZ)
        ob(tag + "spectrum of the file, range of wavenumbers", lambda: spectrum(o), BACKZ)
        if o in ("CORRFUNC", "MULTIPOLES", "COVARIANCE_MULTIPOLES"):
            ob(tag + "redshift bins: one width each", lambda: widths(o), BACKZ)
        ob(tag + "a contribution is on exactly when it is named", lambda: labels_all(o), BACKZ)
        if o in COV or o == "AVERAGE_MULTIPOLES":
            ob(tag + "lists of one length", lambda: lengths(o), BACKZ)
    ob("nothing is computed without a settings file, or for -h, -v, -C", main_empty)
    for fn, l, s in (("parse_int", "config_lookup_int", "I"), ("parse_double", "config_lookup_float", "R"), ("parse_string", "config_lookup_string", "P")):
        ob("%s: value, absence" % fn, lambda: scalar_helper(fn, l, s))
    for fn, l, s in (("parse_int_array", "config_setting_get_int_elem", "I"), ("parse_double_array", "config_setting_get_float_elem", "R")):
        ob("%s: elements, absence" % fn, lambda: array_helper(fn, l, s))
    ob("parse_string_array: texts, absence", texts_helper, BACKZ)
    ob("write_ncol_null: header, one row per index, none to twenty columns", columns_any)
    ob("read_2col: rows, columns, number of rows, for files of any length", readfile.two_columns, readfile.BACK)
    ob("read_2col: no row is overwritten", readfile.ranks, readfile.BACK)
    ob("output_make_path: directories made, form of the path, for any number of components", makepath.make_path, makepath.BACK)
    ob("parse_bias: file or constant", bias_helper)
    ob("parse_bias_default: constant", bias_default)
    ob("defaults: numbers and methods", defaults_numbers)
    ob("defaults: lists", defaults_arrays)
    ob("defaults: bias", defaults_bias)
    ob("defaults: tabulated spectrum", defaults_spectrum)
    # the loops over names given by the user are unrolled
    short = []
    for name, fn, what in (("background: the named columns in the order given", names_columns, "single names, all pairs, all of them in two orders"),):
        try:
            w = fn()
        except ERR as e:
            w = "%s: %s" % (type(e).__name__, str(e)[:200])
        if w is None:
            c.bound(name, what)
        else:
            c.open(name, w)
            opened.append((name, w))

    def replay():
        from replay import build as b, cli as r
        drv, main = r.programs(scratch, b)
        d, bias, spec = expectations()
        return base.run("cli", {"scratch": scratch, "drv": drv, "main": main, "seed": c.seed, "tier": c.tier, "defaults": d, "bias": bias, "spectrum": spec}, timeout=400)
    c.replay = (replay, "the compiled program on settings files, its output files read back")
    # texts and their characters are ghosts in the contracts: the program is also run, on every run of the check
    fallback(c, opened + [("the program on files, texts and directories", "run as it is")], *c.replay)


def names_columns():
    ns = sorted(COLUMNS)
    for l in [[n] for n in ns] + [list(p) for p in itertools.permutations(ns, 2)] + [ns, ns[::-1]]:
        w = background_columns(l)
        if w:
            return w
    return None
