"""Contracts of the table-building layer (corrfunc.c, multipoles.c, average_multipoles.c)."""
from dv.term import *
from dv.sym import STD, Unsupported

KINDS = ("NONINTEGRATED", "SINGLE_INTEGRATED", "DOUBLE_INTEGRATED")


def integrate_for(enum):
    def integrate(ex, fr, st, v, n):
        """contract of coffe_integrate (P06): a function of the arguments its output type uses"""
        z, zmin, zmax, sep, mu = [toR(x) for x in v[3:8]]
        l, kind, out = [toI(x) for x in v[8:11]]
        if out.op != "num":
            raise Unsupported("output type is not constant")
        o = int(val(out))
        if o == enum["CORRFUNC"]:
            a = (z, sep, mu)
        elif o == enum["MULTIPOLES"]:
            a = (z, sep, l)
        elif o == enum["AVERAGE_MULTIPOLES"]:
            a = (zmin, zmax, sep, l)
        else:
            raise Unsupported("output type %d" % o)
        return app("XI%d" % o, tuple(v[:3]) + a + (kind,), "R")
    return integrate


TABLES = dict(STD)
TABLES["print_parameters"] = lambda ex, fr, st, v, n: num(0, "I")

# name, file, init function, output type, axis 1 (length field, [(coords field, source array)]), axis 2
TABLE = {
    "corrfunc": ("corrfunc.c", "coffe_corrfunc_init", "CORRFUNC",
                 ("z_mean_len", [("z_mean", "z_mean", "R")]), ("mu_len", [("mu", "mu", "R")])),
    "multipoles": ("multipoles.c", "coffe_multipoles_init", "MULTIPOLES",
                   ("z_mean_len", [("z_mean", "z_mean", "R")]), ("multipole_values_len", [("l", "multipole_values", "I")])),
    "average_multipoles": ("average_multipoles.c", "coffe_average_multipoles_init", "AVERAGE_MULTIPOLES",
                           ("zmin_len", [("z_min", "zmin", "R"), ("z_max", "zmax", "R")]),
                           ("multipole_values_len", [("l", "multipole_values", "I")])),
}
