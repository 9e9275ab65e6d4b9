"""What the attributes of the Python class mean: kind of value, accepted range, the C field that carries it.

The C fields are the ones the contracts of the C side (P01-P11) refer to.
"""
INF = float("inf")
NUM, INT, FLT = ("int", "float"), ("int",), ("float",)
B31 = 2147483647
SCALAR = {}          # attribute -> (C field, types, lo, hi)
for _a in ("w0", "wa", "n_s", "sigma8", "A_s", "T_cmb", "N_ur", "m_ncdm", "YHe"):
    SCALAR[_a] = (_a, NUM, -100, 100)
SCALAR.update(
    omega_cdm=("Omega0_cdm", NUM, -100, 100), omega_m=("Omega0_m", NUM, -100, 100), omega_baryon=("Omega0_baryon", NUM, -100, 100),
    omega_gamma=("Omega0_gamma", NUM, -100, 100), h=("h", NUM, 0, 100), N_ncdm=("N_ncdm", INT, -100, 100),
    k_min=("k_min", NUM, 0, 1e-3), k_max=("k_max", NUM, 0.1, 1e3), integrals_fftlog_sampling=("bessel_bins", INT, 2, 1000000),
    covariance_integration_sampling=("covariance_integration_bins", INT, 8, 1000000), integration_1d_prec=("integration_1d_prec", FLT, 0, 1),
    integration_sampling=("integration_bins", INT, 0, B31), background_sampling=("background_bins", INT, 5, B31))
#: may be refused although the value is in the range
BUDGET = ("omega_cdm", "omega_m", "omega_baryon", "omega_gamma")
#: ignored when equal to the present value to within 1e-5 (relative) or 1e-8
TOLERANT = ("omega_cdm", "omega_m", "omega_baryon", "omega_gamma", "h", "w0", "wa", "n_s", "sigma8", "T_cmb", "N_ur", "m_ncdm", "YHe", "N_ncdm")
PRECISION = {a: "class_precision." + a for a in (
    "k_per_decade_for_bao", "k_per_decade_for_pk", "start_large_k_at_tau_h_over_tau_k", "l_max_g", "l_max_ur", "tol_perturb_integration",
    "radiation_streaming_trigger_tau_over_tau_k", "ur_fluid_trigger_tau_over_tau_k")}
BOOL = dict(verbose="verbose", has_only_cross_correlations="only_cross_correlations", covariance_cosmic="covariance_cosmic",
            covariance_mixed="covariance_mixed", covariance_poisson="covariance_poisson", has_binned_covariance="covariance_window",
            has_flatsky_local="flatsky_local", has_flatsky_local_nonlocal="flatsky_local_nonlocal", has_flatsky_nonlocal="flatsky_nonlocal",
            has_density="correlation_contrib.den", has_rsd="correlation_contrib.rsd", has_lensing="correlation_contrib.len",
            **{"has_%s%d" % (e, i): "correlation_contrib.%s%d" % (e, i) for e, r in (("d", (1, 2)), ("g", (1, 2, 3, 4, 5))) for i in r})
ENUM = {        # attribute -> (C field, {C constant: name})
    "integration_1d_type": ("integration_1d_type", {"COFFE_INTEGRATION_GSL": "gsl", "COFFE_INTEGRATION_DOUBLE_EXPONENTIAL": "exponential"}),
    "covariance_integration_method": ("covariance_integration_method", {"COFFE_COVARIANCE_INTEGRATION_STANDARD": "standard", "COFFE_COVARIANCE_INTEGRATION_FFTLOG": "fftlog"}),
    "covariance_interpolation_method": ("covariance_interpolation_method", {"COFFE_INTERP2D_BILINEAR": "bilinear", "COFFE_INTERP2D_BICUBIC": "bicubic"}),
    "pk_type": ("pk_type", {"COFFE_PK_LINEAR": "linear", "COFFE_PK_LINEAR_CLASS": "linear_class", "COFFE_PK_NONLINEAR_HALOFIT": "halofit", "COFFE_PK_NONLINEAR_HMCODE": "hmcode"})}
#: attribute -> (C array, C length, element conversion, accepts(element), constants at which the answer may change)
LIST = dict(
    sep=("sep", "sep_len", "float", lambda x: 0 < x < 10000, (0, 10000)), mu=("mu", "mu_len", "float", lambda x: -1 < x < 1, (-1, 1)),
    l=("multipole_values", "multipole_values_len", "int", lambda x: 0 <= x < 10, (0, 10)),
    z_mean=("z_mean", "z_mean_len", "float", lambda x: 0 <= x < 10, (0, 10)), z_min=("zmin", "zmin_len", "float", lambda x: 0 <= x < 10, (0, 10)),
    z_max=("zmax", "zmax_len", "float", lambda x: 0 <= x < 10, (0, 10)), deltaz=("deltaz", "deltaz_len", "float", lambda x: 0 <= x < 10, (0, 10)),
    number_density1=("density1", "density1_len", "float", lambda x: 0 <= x < 10, (0, 10)),
    number_density2=("density2", "density2_len", "float", lambda x: 0 <= x < 10, (0, 10)),
    pixelsize=("pixelsize", "pixelsize_len", "float", lambda x: 0 < x < 1000, (0, 1000)), fsky=("fsky", "fsky_len", "float", lambda x: 0 < x <= 1, (0, 1)))
POPULATIONS = ("covariance_pop1", "covariance_pop2", "covariance_pop3", "covariance_pop4")
BIAS = tuple("galaxy_bias%d" % i for i in (1, 2, 3, 4)) + tuple("%s_bias%d" % (k, i) for k in ("magnification", "evolution") for i in (1, 2))
#: fields no getter shows that a setter sets along
HIDDEN = {"k_min": {"k_min_norm"}, "k_max": {"k_max_norm"}}
#: attributes that follow from others (P17 says how)
OMEGAS = {"omega_m", "omega_cdm", "omega_baryon", "omega_gamma", "omega_nu", "omega_de"}
DERIVED = {"omega_cdm": {"omega_m", "omega_de"}, "omega_m": {"omega_cdm", "omega_de"}, "omega_baryon": {"omega_cdm", "omega_de"}, "omega_gamma": {"omega_de"},
           "h": {"omega_nu", "omega_cdm", "omega_de"}, "m_ncdm": {"omega_nu", "omega_cdm", "omega_de"}}


# -- evaluation of path conditions on concrete witnesses
class Free(Exception):
    """outside the vocabulary of witnesses: both truth values are possible"""


class Raises(Exception):
    pass


TYPES = {"int": int, "float": float, "bool": bool, "str": str, "list": list, "tuple": tuple}


class Sym:
    """an enumeration constant of C"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Sym) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return self.n


def const(x):
    return Sym(x) if isinstance(x, str) and x.startswith("ccoffe.") else x


def ev(t, args, ix=None):
    k = t[0]
    if k == "c":
        return const(t[1])
    if k == "arg":
        return args[t[1]]
    if k == "#":
        return ix
    if k in ("list", "tuple"):
        return [ev(x, args, ix) for x in t[1:]]
    if k == "dict":
        return {ev(a, args, ix): ev(b, args, ix) for a, b in zip(t[1], t[2])}
    if k == "name" and t[1] in TYPES:
        return TYPES[t[1]]
    if k == "seq":
        n = ev(t[1], args, ix)
        return [ev(t[2], args, i) for i in range(n)]
    if k == "item":
        v, i = ev(t[1], args, ix), ev(t[2], args, ix)
        try:
            return v[i]
        except Exception:
            raise Raises
    if k != "app":
        raise Free
    op, a = t[1], t[2:]
    if op == "cases":
        for cond, v in a:
            if all(bool(ev(c, args, ix)) == b for c, b in cond):
                return ev(v, args, ix)
        raise Raises
    if op == "and":
        return all(ev(x, args, ix) for x in a)
    if op == "cmp":
        o, x, y = a[0][1], ev(a[1], args, ix), ev(a[2], args, ix)
        try:
            return {"<": lambda: x < y, "<=": lambda: x <= y, "==": lambda: x == y, "is": lambda: x is y, "in": lambda: x in y}[o]()
        except (TypeError, KeyError):
            raise Raises
    v = [ev(x, args, ix) for x in a if x[0] != "kw"]
    if len(v) != len(a):
        raise Free
    f = {"isinstance": lambda x, y: isinstance(x, tuple(y) if isinstance(y, list) else y), "float": float, "int": int, "len": len, "bool": bool, "not": lambda x: not x,
         "all": all, "any": any, "list": list, "iter": list, "tuple": list, "set": set, "in": lambda x, y: x in y, "lookup": lambda d, x: d[x], ".__index__": lambda x: x.__index__(), "neg": lambda x: -x,
         "np.array": list, "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}.get(op)
    if f is None:
        raise Free
    if op in ("all", "any") and len(v) != 1:
        v = [v]
    try:
        return f(*v)
    except Exception:
        raise Raises


def holds(pc, args):
    """True / False / None (depends on something else) / 'raises'"""
    res = True
    for c, b in pc.items():
        try:
            if bool(ev(c, args)) != b:
                return False
        except Free:
            res = None
        except Raises:
            return "raises"
    return res


def constants(t, out=None):
    """numbers compared with in t"""
    out = set() if out is None else out
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            out.add(t[1])
        else:
            for x in t:
                constants(x, out)
    return out


def regions(cs):
    """a witness for each point and each open interval between the constants"""
    cs = sorted(set(cs))
    if not cs:
        return [0.5]
    w = [cs[0] - 1.5, cs[-1] + 1.5] + list(cs)
    w += [a + (b - a) * 0.37 for a, b in zip(cs, cs[1:])]
    return w
