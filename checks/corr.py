"""P01-P05: the correlation-function integrands of functions.c."""
import os
import random
import re
import time
from fractions import Fraction

from dv.cast import load, FrontEndError
from dv.sym import Program, Executor, State, Unsupported
from dv.nf import Norm, TooBig, NFError
from dv.prove import equal, FLAGS as FLAGNAMES
from dv import term as T
from dv.term import *
from checks.common import forced
from specs.contracts import CORR
from specs.corr import Corr, LOCAL, INTEG
from specs import funcs as FS
from replay import corr as RC
from replay import build as RB

ALL = LOCAL + INTEG
DER = ("b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative")
BACK = "nf (exact polynomial normal form)"
ASSUME = [
    "machine arithmetic is treated as real arithmetic (rounding, overflow and -ffast-math reassociation are not modelled)",
    "contract assumed for gsl_spline_eval/gsl_spline2d_eval: a deterministic function of table and abscissa",
    "contract assumed on the Bessel tables at their lookups: r^(n-l) I^n_l satisfy j_(l-1)+j_(l+1)=(2l+1)j_l/x and the l=2,4 tables vanish at r=0; the stored renormalisation is symmetric in its arguments",
    "precondition: par->pk_type == COFFE_PK_LINEAR and HAVE_CLASS undefined (the configuration that is built)",
    "precondition: par->divergent != 0 (both front ends set it whenever a term needing I^4_0 is on)",
    "precondition: the result of an integrand is finite (the gsl_finite failure branch is not taken)",
]


class Engine(object):
    def __init__(self, c):
        self.c = c
        self.tu = load("functions.c")
        self.P = Program([self.tu])
        self.S = Corr()

    def run(self, name, args):
        ex = Executor(self.P, CORR)
        d = self.tu.functions.get(name)
        if d is None:
            raise Unsupported("no function %s in functions.c" % name)
        st, v = ex.call_function(self.tu, d, args, State())
        return v

    def norm(self, zero=(), one=(), cone=False):
        S = self.S
        N = Norm()
        for f in zero:
            N.define_as(S.p(f, "I"), num(0, "I"))
        for f in one:
            N.define_as(S.p(f, "I"), num(1, "I"))
        N.opaque(S.chi_mean, "X")
        e = []
        if cone:
            N.define_as(S.costheta, num(1))
            N.define_as(app("fabs", (S.mu,), "R"), num(1))
        names = (("chi1", S.chi1), ("chi2", S.chi2)) + (() if cone else (("costheta", S.costheta),))
        for nm, t in names:
            e.append(N.opaque(t, nm))
        return N, e


_lib = {}


def library(scratch):
    if scratch not in _lib:
        try:
            _lib[scratch] = RB.build(scratch)
        except RB.BuildError as e:
            _lib[scratch] = None
            print("replay library does not build: %s" % str(e)[:300])
    return _lib[scratch]


ENTRY = {"functions_nonintegrated": "sh_nonint", "functions_single_integrated": "sh_single",
         "functions_double_integrated": "sh_double",
         "functions_flatsky_lensing_lensing_multipoles": "sh_flat_ll",
         "functions_flatsky_density_lensing_multipoles": "sh_flat_dl"}


def points(fn, case, rnd, flags, ints, n):
    """points at which the real code is run"""
    out = []
    for k in range(n):
        z = rnd.uniform(0.9, 1.6)
        mu = rnd.choice([rnd.uniform(-1, 1), rnd.uniform(-1, 1), rnd.choice([-1, 1]) * rnd.uniform(0.9, 0.9989),
                         rnd.choice([0.0, 1.0, -1.0, 0.5])])
        sep = rnd.choice([rnd.uniform(0.5, 8), rnd.uniform(1, 5)])
        x = rnd.choice([rnd.uniform(0.05, 0.98), rnd.uniform(0.3, 0.9)])
        x2 = rnd.choice([rnd.uniform(0.05, 0.98), x * rnd.uniform(0.9, 1.1) if x < 0.85 else 0.6])
        if case == "z1":
            z, mu, sep, x = 1.2, 1.0, 8.0, 0.5
        elif case == "z2":
            z, mu, sep, x = 1.2, -1.0, 8.0, 0.5
        elif case == "zero":
            z, mu, sep, x, x2 = 1.2, 1.0, 8.0, 0.5, 0.25
        elif fn == "functions_single_integrated" and abs(mu) == 1 and abs(x - 0.5) < 1e-9:
            x = 0.61
        env = {"z_mean": z, "mu": mu, "sep": sep, "x": x, "x1": x, "x2": x2}
        if fn == "functions_nonintegrated":
            a = [z, mu, sep]
        elif fn == "functions_single_integrated":
            a = [z, mu, sep, x]
        elif fn == "functions_double_integrated":
            a = [z, mu, sep, x, x2]
        elif fn == "functions_flatsky_lensing_lensing_multipoles":
            a = [z, sep, case, x]
        else:
            a = [z, sep, case]
        fl = list(flags) if not callable(flags) else flags(rnd)
        out.append({"entry": ENTRY[fn], "args": a, "env": env, "flags": fl, "ints": dict(ints)})
        if case in ("z1", "z2", "zero") and k >= 3:
            break
    return out


def replay(c, scratch, fn, case, spec, flags, ints, n=60, tol=1e-6):
    """first disagreement between the real code and the specification, or None; raises on failure"""
    lib = library(scratch)
    if lib is None:
        raise RuntimeError("replay library unavailable")
    rnd = random.Random(c.seed * 7919 + hash_str(fn + str(case) + str(flags if not callable(flags) else "")))
    pts = points(fn, case, rnd, flags, ints, n)
    seed = -c.seed if ints.get("_equal_bias") else c.seed
    got = RC.run_points(lib, seed, pts)
    m = RC.Model(seed)
    want = [RC.spec_value(spec, m, p) for p in pts]
    for p, g, w in zip(pts, got, want):
        if not (abs(g - w) <= tol * max(abs(g), abs(w)) + 1e-300):
            # cancellation: compare with the size of the separate parts
            sc = abs(w)
            if len(p["flags"]) > 1 or True:
                sc = max([sc] + [abs(x) for x in want]) * 1e-3
            if not (abs(g - w) <= tol * max(sc, abs(w))):
                return {"entry": fn, "arguments": p["args"], "flags": p["flags"], "ints": p["ints"],
                        "model_seed": seed, "real_code": g, "specification": w}
    return None


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def flags_of(label):
    return [s for s in ALL if re.search(r"\b%s\b" % s, label)]


def decide(c, E, scratch, fn, case, code, spec, setup, ints, dev=None, expand_err=None, pairs=None, among=None):
    """one contract (function x case): the group obligations, then replay of what stays open.
    dev: (known finding id, deviated specification)"""
    name = "%s[%s]" % (fn, case)
    t = time.time()
    bad = None
    if code is not None:
        try:
            N, ex = setup()
            groups = []
            bad = equal(N, code, spec, ex, collect=groups)
            secs = time.time() - t
            for p in (pairs or [("always", "always")]):
                if not any(set(flags_of(b[0])) == set(p) or not flags_of(b[0]) for b in bad):
                    c.ok("%s: term %s-%s equals its derived correlator" % (name, p[0], p[1]), BACK,
                         secs / max(1, len(pairs or [1])))
        except (Unsupported, NFError, RecursionError, KeyError, AttributeError, TypeError, ValueError) as e:
            expand_err = "%s: %s" % (type(e).__name__, e)
            bad = None
    extra = bad == []
    if extra:
        if not forced(c):
            return
        bad = None
    if dev is not None and bad:
        ident, dspec, text = dev
        N, ex = setup()
        bad2 = equal(N, code, dspec, ex)
        lab2 = set(b[0] for b in bad2)
        fixed = [b for b in bad if b[0] not in lab2]
        if fixed and ident in c.known:
            c.finding(ident, text)
            c.ok("%s: %s: equals the recorded deviation %s" % (name, fixed[0][0], ident), BACK, 0.0)
            bad, spec = bad2, dspec
    elif dev is not None and bad is None:
        spec = dev[1]
    if bad is None:
        # the function is outside the verifier's reach: bounded stand-in on every pair
        if not extra:
            c.open(name, expand_err)
        todo = [(list(p) if p[0] != p[1] else [p[0]], "") for p in (pairs or [])] + [(random_flags, "")]
    else:
        for b in bad:
            c.open("%s: %s" % (name, b[0]), b[2])
        todo = [(flags_of(b[0]) or random_flags, b[0]) for b in bad[:40]]
        if len(bad) > 12:
            todo.append((random_flags, "all"))
    for fl, lab in todo:
        if among is not None:
            fl = [f for f in fl if f in among] if not callable(fl) else list(among)
        try:
            ii = dict(ints)
            n = 60
            fail = None
            combos = [ii]
            if "only_cross" not in ii:
                combos = [ii, dict(ii, only_cross_correlations=1)]
            for i2 in combos:
                fail = replay(c, scratch, fn, case, spec, fl, i2, n)
                if fail:
                    break
        except RC.Died as e:
            c.violation("%s: %s" % (name, lab or fl), {"crash": str(e), "flags": fl if not callable(fl) else "random"})
            return
        except Exception as e:
            if extra:
                continue
            c.bound("%s: %s" % (name, lab), "replay unavailable: %s" % str(e)[:200])
            print("  replay unavailable for %s %s: %s" % (name, lab, str(e)[:200]))
            continue
        if fail:
            c.violation("%s: %s" % (name, lab or fl), {"input": fail, "obligation_group": lab})
            if len(c.violations) >= 3:
                return
        elif extra:
            c.agreed("%s: %s" % (name, "+".join(fl) if not callable(fl) else "random flags"), 60 * len(combos))
        else:
            c.bound("%s: %s" % (name, lab or "random flags"),
                    "real code equals the specification at %d points (bounded, not proved)" % (60 * len(combos)))
            if bad is not None and definite(lab):
                c.violation("%s: %s" % (name, lab), {"verifier_output": [b[2] for b in bad if b[0] == lab],
                                                     "condition": lab, "note": "the difference appears only under this condition"},
                            failing_input=False)


def definite(lab):
    """the open group hangs on a condition over the inputs that the specification does not have"""
    return "[" in lab


def random_flags(rnd):
    k = rnd.choice([1, 2, 2, 3, 10])
    return sorted(rnd.sample(ALL, k))


def code_of(c, E, fn, args):
    try:
        return E.run(fn, args), None
    except (Unsupported, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
        return None, "%s: %s" % (type(e).__name__, e)


def engine(c):
    try:
        return Engine(c)
    except FrontEndError as e:
        raise


BASE = {}


def nonintegrated(c, scratch):
    c.assume(*ASSUME)
    E = engine(c)
    S = E.S
    fn = "functions_nonintegrated"
    c.function(fn, "sum over the enabled pairs of local sources (two-point correlator derived from the operator table) x D1 D1")
    code, err = code_of(c, E, fn, [S.par, S.bg, S.integral, S.z_mean, S.mu, S.sep])
    prs = [(a, b) for i, a in enumerate(LOCAL) for b in LOCAL[i:]]
    text = "functions_nonintegrated: the d1-d1 term has the wrong sign of its quadrupole (I^2_2) part"
    for flat in (False, True):
        z = DER + ("pk_type",) + (() if flat else ("flatsky_local",))
        o = ("divergent",) + (("flatsky_local",) if flat else ())
        decide(c, E, scratch, fn, "flat-sky" if flat else "full-sky", code, FS.nonint(S, flat),
               lambda: (lambda N, e: (N, [e]))(*E.norm(z, o)),
               {"flatsky_local": 1 if flat else 0}, pairs=prs, expand_err=err,
               dev=("F-d1d1-sign", FS.nonint(S, flat, d1d1_sign=-1), text))
    # Fisher derivatives of the flat-sky density/RSD terms (one population: equal galaxy biases)
    dr = [("den", "den"), ("den", "rsd"), ("rsd", "rsd")]
    for k, wrt, power in (("b_derivative", "b", 2), ("f_derivative", "f", 2), ("b_tilde_derivative", "b", 1), ("f_tilde_derivative", "f", 1)):
        def setup(k=k, wrt=wrt):
            N, e = E.norm(tuple(x for x in DER if x != k) + ("pk_type",), ("divergent", "flatsky_local", k))
            if wrt == "b":
                N.define_as(S.pars("galaxy_bias2", S.z_mean), S.pars("galaxy_bias1", S.z_mean))
            for fl in ("d1", "d2", "g1", "g2", "g3"):
                N.define_as(S.p("correlation_contrib." + fl, "I"), num(0, "I"))
            return N, [e]
        decide(c, E, scratch, fn, k, code, FS.nonint(S, True, dr, deriv=wrt, growth=powi(S.bgs("D1", S.z_mean), power)), setup,
               {"flatsky_local": 1, k: 1, "_equal_bias": int(wrt == "b")}, pairs=dr, expand_err=err, among=("den", "rsd"))


def single(c, scratch):
    c.assume(*ASSUME)
    c.assume("precondition: not both r21 = 0 and r22 = 0 (impossible for sep > 0, 0 < x < 1)",
             "the code's rsd-len term replaces the coefficient of I^0_4 by its |mu|=1 value for |mu| >= 0.999; the contract admits it")
    E = engine(c)
    S = E.S
    fn = "functions_single_integrated"
    x = sym("x")
    c.function(fn, "sum over enabled (local, integrated) pairs, both orderings, of the derived correlator at lambda = x chi")
    code, err = code_of(c, E, fn, [S.par, S.bg, S.integral, S.z_mean, S.mu, S.sep, x])
    Sg = FS.Single(S, x)
    prs = [(a, b) for a in LOCAL for b in INTEG]

    def gen(flat):
        def setup():
            N, e = E.norm(DER + ("pk_type",) + (() if flat else ("flatsky_local_nonlocal",)),
                          ("divergent",) + (("flatsky_local_nonlocal",) if flat else ()))
            l = [N.opaque(Sg.l1, "lambda1"), N.opaque(Sg.l2, "lambda2")]
            r = [N.opaque(Sg.r21, "r21"), N.opaque(Sg.r22, "r22")]
            N.bound_below(sym("r21"))
            N.bound_below(sym("r22"))
            return N, [r, l, e]
        return setup
    for flat in (False, True):
        decide(c, E, scratch, fn, "flat-sky" if flat else "full-sky", code, Sg.total(), gen(flat),
               {"flatsky_local_nonlocal": 1 if flat else 0}, pairs=prs, expand_err=err)

    def zero(which):
        def setup():
            N, e = E.norm(DER + ("pk_type", "flatsky_local_nonlocal"), ("divergent",), cone=True)
            ca, cb = (S.chi1, S.chi2) if which == 1 else (S.chi2, S.chi1)
            la, lb = (Sg.l2, Sg.l1) if which == 1 else (Sg.l1, Sg.l2)   # la == ca; lb generic
            N.define_as(la, ca)
            N.opaque(lb, "lambda")
            N.bound_below(powi(sub(sym("lambda"), cb), 2))
            a, b = ("chi1", "chi2") if which == 1 else ("chi2", "chi1")
            return N, [[(sym_atom(N, "x"), N.nf(div(sym(a), sym(b)))),
                        (sym_atom(N, "lambda"), N.nf(div(powi(sym(a), 2), sym(b))))], e]
        return setup
    for w in (1, 2):
        decide(c, E, scratch, fn, "z%d" % w, code, Sg.total(w == 1, w == 2), zero(w), {"flatsky_local_nonlocal": 0},
               pairs=prs, expand_err=err)


def sym_atom(N, name):
    (m, _), = N.nf(sym(name)).items()
    return m[0][0]


def double(c, scratch):
    c.assume(*ASSUME)
    c.assume("separations with 0 < r^2 <= 1e-12 Mpc^2 between the two lines of sight are outside the contract (the code uses its limit there)")
    E = engine(c)
    S = E.S
    fn = "functions_double_integrated"
    x1, x2 = sym("x1"), sym("x2")
    c.function(fn, "sum over enabled pairs of integrated sources of the derived correlator at lambda_i = x_i chi_i; its limit at zero separation")
    code, err = code_of(c, E, fn, [S.par, S.bg, S.integral, S.z_mean, S.mu, S.sep, x1, x2])
    D = FS.Double(S, x1, x2)
    prs = [(a, b) for i, a in enumerate(INTEG) for b in INTEG[i:]]

    def gen(flat):
        def setup():
            N, e = E.norm(DER + ("pk_type",) + (() if flat else ("flatsky_nonlocal",)),
                          ("divergent",) + (("flatsky_nonlocal",) if flat else ()))
            l = [N.opaque(D.l1, "lambda1"), N.opaque(D.l2, "lambda2")]
            r = [N.opaque(D.r2, "r2")]
            N.bound_below(sym("r2"), Fraction(1, 10 ** 12))
            return N, [r, l, e]
        return setup
    for flat in (False, True):
        decide(c, E, scratch, fn, "flat-sky" if flat else "full-sky", code, D.total(False), gen(flat),
               {"flatsky_nonlocal": 1 if flat else 0}, pairs=prs, expand_err=err)

    def zero():
        N, e = E.norm(DER + ("pk_type", "flatsky_nonlocal"), ("divergent",), cone=True)
        N.define_as(D.l1, sym("lambda"))
        N.define_as(D.l2, sym("lambda"))
        return N, [[(sym_atom(N, "x1"), N.nf(div(sym("lambda"), sym("chi1")))),
                    (sym_atom(N, "x2"), N.nf(div(sym("lambda"), sym("chi2"))))], e]
    decide(c, E, scratch, fn, "zero", code, D.total(True), zero, {"flatsky_nonlocal": 0}, pairs=prs, expand_err=err)


def flatsky(c, scratch):
    c.assume(*ASSUME)
    E = engine(c)
    S = E.S
    x = sym("x")
    fn = "functions_flatsky_lensing_lensing_multipoles"
    c.function(fn, "flat-sky lensing-lensing multipole integrand for l = 0, 2, 4, 6, 8")
    for l in (0, 2, 4, 6, 8):
        code, err = code_of(c, E, fn, [S.par, S.bg, S.integral, S.z_mean, S.sep, num(l, "I"), x])
        decide(c, E, scratch, fn, l, code, FS.flat_len_len(S, l, x),
               lambda: (lambda N, e: (N, [e]))(*E.norm(DER + ("pk_type",), ("divergent",))), {}, pairs=[("len", "len")], expand_err=err)
    fn = "functions_flatsky_density_lensing_multipoles"
    c.function(fn, "flat-sky density-lensing multipole for l = 0..8 (odd ones vanish)")
    for l in range(9):
        code, err = code_of(c, E, fn, [S.par, S.bg, S.integral, S.z_mean, S.sep, num(l, "I")])
        decide(c, E, scratch, fn, l, code, FS.flat_den_len(S, l),
               lambda: (lambda N, e: (N, [e]))(*E.norm(DER + ("pk_type",), ("divergent",))), {}, pairs=[("den", "len")], expand_err=err)
