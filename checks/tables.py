"""P07: the tables returned to the user hold, for every requested point, its value at its own coordinates."""
from dv.cast import load
from dv.sym import Program, Executor, State, Unsupported
from dv.prove import equal
from dv.term import *
from specs.tables import TABLES, TABLE, KINDS, integrate_for
from replay.build import build, BuildError
from replay import base
from .common import *


def run_table(name, verbose):
    f, fn, out, ax1, ax2 = TABLE[name]
    tu = load(f)
    con = dict(TABLES)
    con["coffe_integrate"] = integrate_for(tu.enumname)
    ex = Executor(Program([tu]), con)
    par, bg, it, res = [sym(x, "P") for x in ("par", "background", "integral", "result")]
    st = State()
    P = lambda n: fld(pointee(par), n)
    ex.write(st, P("verbose"), num(verbose, "I"))
    st, v = ex.call_function(tu, tu.functions[fn], [par, bg, it, res], st)
    if st is None:
        raise Unsupported("%s never returns" % fn)
    lens = [ex.read(st, P(x), "I") for x in (ax1[0], ax2[0], "sep_len")]
    for x in lens:
        ex.unsigned_terms.add(x)
    ix = [sym(x, "I") for x in ("i", "j", "k")]
    for x, n in zip(ix, lens):
        ex.bounds[x] = (num(0, "I"), n)
    cell = add(mul(add(mul(ix[0], lens[1]), ix[1]), lens[2]), ix[2])
    arr = ex.read(st, fld(pointee(res), "array"), "P")
    el = pointee(ex.padd(arr, cell))
    return ex, st, tu, (par, bg, it), P, lens, ix, el, res, v


def same(ex, a, b):
    a, b = ex.simp(a), ex.simp(b)
    if ex.same(a, b):
        return None
    return "is %s, contract says %s" % (str(a)[:150], str(b)[:150])


def obligations(c, name):
    f, fn, out, ax1, ax2 = TABLE[name]
    got = {}

    def setup():
        got["r"] = run_table(name, 0)
    opened = []
    try:
        setup()
    except ERR as e:
        nm = "%s: summary of every loop" % fn
        c.open(nm, "%s: %s" % (type(e).__name__, str(e)[:300]))
        return [nm]
    ex, st, tu, objs, P, lens, ix, el, res, v = got["r"]
    par, bg, it = objs

    def ob(nm, fnc):
        if not attempt(c, "%s: %s" % (fn, nm), fnc, INV):
            opened.append("%s: %s" % (fn, nm))
    ob("size = product of the axis lengths", lambda: same(ex, ex.read(st, fld(pointee(res), "size"), "I"), mul(*lens)))
    src = lambda a, i, s: ex.read(st, pointee(ex.padd(ex.read(st, P(a), "P"), i)), s)
    coords = {}
    for (field, a, s), i in [(x, ix[0]) for x in ax1[1]] + [(x, ix[1]) for x in ax2[1]] + [(("separation", "sep", "R"), ix[2])]:
        want = src(a, i, s)
        coords[field] = want
        ob("coords.%s of cell (i,j,k)" % field,
           lambda field=field, s=s, want=want: same(ex, ex.read(st, fld(fld(el, "coords"), field), s), want))
    o = tu.enumname[out]
    if out == "CORRFUNC":
        a = (coords["z_mean"], coords["separation"], coords["mu"])
    elif out == "MULTIPOLES":
        a = (coords["z_mean"], coords["separation"], coords["l"])
    else:
        a = (coords["z_min"], coords["z_max"], coords["separation"], coords["l"])
    want = add(*[app("XI%d" % o, (par, bg, it) + a + (num(tu.enumname[k], "I"),), "R") for k in KINDS])
    ob("value of cell (i,j,k) = local + single + double at its own coordinates",
       lambda: same(ex, ex.read(st, fld(el, "value"), "R"), want))
    ob("the inputs are not modified", lambda: frame(ex, st, objs))
    return opened


def frame(ex, st, objs):
    for k, ws in st.store.items():
        r = k
        while r[0] not in ("var", "obj"):
            r = r[0]
        if r[0] == "obj" and r[1] in objs:
            if k[1] == "verbose":
                continue
            return "writes %s" % (k,)
        if r[0] == "var" and r[1].startswith("global:"):
            return "writes %s" % r[1]
    return None


def tables(c, scratch):
    c.assume("contract assumed for coffe_integrate: proved against its own code in P06",
             "coffe_malloc returns fresh memory of the requested size or ends the program",
             "machine integers are treated as mathematical (table sizes stay far below 2^64)",
             "clock, printf and the GSL error-handler calls have no effect on the results")
    def replay():
        lib = build(scratch, shims=("shim.c", "shim_tables.c"), wrap=["coffe_integrate"])
        n, bad = 0, []
        for s in range(c.seed, c.seed + (1 if c.tier == "quick" else 4)):
            a, b = base.run("tables", {"lib": lib, "seed": s})
            n += a
            bad += b
        return n, bad
    c.replay = (replay, "replayed on the compiled table builders over a stand-in coffe_integrate")

    opened = []
    for name in TABLE:
        f, fn, out, ax1, ax2 = TABLE[name]
        c.function(fn, "array[(i*M+j)*S+k] = {coords of point (i,j,k), local+single+double integrated value at them}; size = N*M*S; assigns only the result")
        opened += obligations(c, name)

    fallback(c, opened, *c.replay)
