"""P06: the projection layer coffe_integrate (signal.c)."""
import time
from dv.cast import load
from dv.sym import Program, Executor, State, Unsupported
from dv.nf import Norm, TooBig, NFError
from dv.prove import equal
from dv.term import *
from checks.common import forced
from specs.signal import SIGNAL, Signal
from replay.build import build, BuildError
from replay.signal import run, WRAP

BACK = "nf (exact polynomial normal form, linear functionals)"
KINDS = (("local", "NONINTEGRATED"), ("single", "SINGLE_INTEGRATED"), ("double", "DOUBLE_INTEGRATED"))
OUTS = ("CORRFUNC", "MULTIPOLES", "AVERAGE_MULTIPOLES")


def obligations(c, scratch):
    """(name, proved?, reason, kind, out, l)"""
    tu = load("signal.c")
    P = Program([tu])
    for kind, kc in KINDS:
        for out in OUTS:
            for l, nm in ((num(0, "I"), "l=0"), (sym("l", "I"), "every l>=1")):
                t = time.time()
                Sg = Signal(l)
                S = Sg.S
                why = None
                try:
                    ex = Executor(P, SIGNAL)
                    if l.op == "sym":
                        ex.N.bound_below(l, 1, False)
                    _, v = ex.call_function(tu, tu.functions["coffe_integrate"],
                                            [S.par, S.bg, S.integral, S.z_mean, Sg.zmin, Sg.zmax, S.sep, S.mu, l,
                                             num(tu.enumname[kc], "I"), num(tu.enumname[out], "I")], State())
                    N = Norm()
                    if l.op == "sym":
                        N.bound_below(l, 1, False)
                    bad = equal(N, v, Sg.spec(kind, out))
                    if bad:
                        why = "; ".join("%s: %s" % (b[0], b[2]) for b in bad[:4])
                except (Unsupported, NFError, KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as e:
                    why = "%s: %s" % (type(e).__name__, e)
                yield kind, out, nm, why, time.time() - t


def projection(c, scratch):
    c.assume("gsl_integration_qag and the gsl_monte_* integrators: the integral of the given integrand over [a,b] and over the given box; numerical error is not modelled (coffe_integrate_* are discharged against them, the double exponential rule is discharged)",
             "machine arithmetic is treated as real arithmetic",
             "the integrands functions_* are taken at their contracts (P01-P04)",
             "l >= 0")
    c.function("coffe_integrate", "value = integral functional of the enabled integrand with weight (2l+1) P_l(mu), redshift weight H0/(H_conf (1+z)) for averages")
    openo = []
    for kind, out, nm, why, secs in obligations(c, scratch):
        name = "coffe_integrate[%s,%s,%s]" % (kind, out, nm)
        if why is None:
            c.ok(name, BACK, secs)
        else:
            c.open(name, why)
            openo.append((kind, out, nm, why))
    if not openo and forced(c):
        try:
            n, bad = 0, []
            lib = build(scratch, shims=("shim.c", "shim_signal.c"), wrap=WRAP)
            for s in range(c.seed, c.seed + 4):
                m, b = run(lib, s, list(range(len(KINDS))), list(range(len(OUTS))))
                n += m
                bad += b
        except BuildError as e:
            print("  replay unavailable: %s" % str(e)[:300])
        if bad:
            c.violation("(forced replay)", {"failing_inputs": bad[:6]})
        elif n:
            c.agreed("the compiled coffe_integrate over stand-in integrands", n)
    if openo:
        kinds = sorted(set([k[0] for k in KINDS].index(o[0]) for o in openo))
        outs = sorted(set(OUTS.index(o[1]) for o in openo))
        n, bad = 0, []
        try:
            lib = build(scratch, shims=("shim.c", "shim_signal.c"), wrap=WRAP)
            for s in range(c.seed, c.seed + (1 if c.tier == "quick" else 4)):
                m, b = run(lib, s, kinds, outs)
                n += m
                bad += b
        except BuildError as e:
            print("  replay unavailable: %s" % str(e)[:300])
            for o in openo:
                c.bound("coffe_integrate[%s,%s,%s]" % o[:3], "replay unavailable")
            return
        except RuntimeError as e:
            bad.append({"crash": str(e)})
        if bad:
            c.violation("coffe_integrate[%s,%s,%s]" % openo[0][:3],
                        {"open_obligations": [list(o) for o in openo], "failing_inputs": bad[:6]})
        else:
            for o in openo:
                c.bound("coffe_integrate[%s,%s,%s]" % o[:3],
                        "replayed on the compiled coffe_integrate over stand-in integrands: all 1024 combinations of effects, %d evaluations" % n)
            hard = [o for o in openo if "[" in o[3] and "residual" in o[3]]
            if hard:
                c.violation("coffe_integrate[%s,%s,%s]" % hard[0][:3],
                            {"open_obligations": [list(o) for o in hard], "note": "the difference appears only under the stated condition"},
                            failing_input=False)
