"""Scenarios on the rebuilt module (run by the interpreter it was built for).  argv: package dir, set of scenarios,
worker index, number of workers.  Prints one JSON line per scenario: {"n": evaluations} or {"bad": description}."""
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
import numpy as np
import coffe

BASE = dict(background_sampling=400, sep=[20., 100.], mu=[0.1, 0.5], l=[0, 2], z_mean=[1.0], deltaz=[0.2], z_min=[0.8],
            z_max=[1.2], number_density1=[1e-3], number_density2=[2e-3], pixelsize=[10.], fsky=[0.5],
            integration_sampling=1000, integrals_fftlog_sampling=2000,
            covariance_integration_sampling=200, covariance_populations=[1, 2, 3, 4], has_density=True, has_rsd=True)
FLAT = dict(has_lensing=True, has_d1=True, has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True)
RANGE = dict(k_min=1e-4, k_max=1.)      # the divergent integral is slow otherwise
DIV = dict(RANGE, has_d2=True)
BULK = ("corrfunc", "multipoles", "average_multipoles", "covariance", "average_covariance")
X = np.linspace(0, 15, 40)
K = np.geomspace(1.1e-5, 150, 300)


def PK(f):
    return f * 2e4 * (K / 0.02) / (1 + (K / 0.02) ** 2.6)


def bias(k, f):
    return ("set_%s" % k, [X.tolist(), (f * (1 + 0.1 * X)).tolist()])


SPECTRUM = {f: ("set_power_spectrum_linear", [K.tolist(), PK(f).tolist()]) for f in (1, 2)}
SET = [(k, v) for k, v in dict(
    omega_m=0.33, omega_baryon=0.06, omega_gamma=2e-4, omega_cdm=0.2, h=0.72, w0=-0.9, wa=0.1, n_s=0.9, sigma8=0.9, A_s=2.5e-9,
    T_cmb=2.9, N_ur=2.5, m_ncdm=0.3, YHe=0.25, N_ncdm=2, k_min=2e-5, k_max=100., sep=[30.], mu=[0.2, 0.4, 0.6], l=[0, 1, 4],
    z_mean=[0.9], deltaz=[0.15], z_min=[0.7], z_max=[1.1], number_density1=[3e-3], number_density2=[1e-4], pixelsize=[8.],
    fsky=[0.3], covariance_populations=[1, 2, 2, 1], covariance_cosmic=False, covariance_mixed=False,
    covariance_poisson=False, covariance_integration_method="fftlog", covariance_interpolation_method="bilinear",
    covariance_integration_sampling=260, integrals_fftlog_sampling=1500, integration_1d_prec=1e-3,
    integration_1d_type="exponential", integration_sampling=1500, background_sampling=300, has_binned_covariance=True,
    has_density=False, has_rsd=False, has_lensing=True, has_d1=True, 
    has_only_cross_correlations=True, has_flatsky_local=True, has_flatsky_local_nonlocal=True, has_flatsky_nonlocal=True,
    k_per_decade_for_bao=80., l_max_g=14).items()]
SET += [bias(b, f) for b, f in (("galaxy_bias1", 1.5), ("galaxy_bias2", 1.7), ("galaxy_bias3", 1.9), ("galaxy_bias4", 2.1),
                                ("magnification_bias1", 0.3), ("magnification_bias2", 0.5), ("evolution_bias1", 0.4),
                                ("evolution_bias2", 0.6))] + [SPECTRUM[1]]


def apply(c, steps):
    for k, v in steps:
        if k.startswith("set_"):
            getattr(c, k)(*v)
        elif k == "read":
            outputs(c, v)
        else:
            setattr(c, k, v)
    return c


def one(c, o, **kw):
    if o in BULK:
        r = getattr(c, "compute_%s_bulk" % o)(**kw)
        return [[float(y) for _, y in sorted(x.to_dict().items())] for x in r]
    if o == "point":
        return [[c.compute_corrfunc(z=1.0, r=50., mu=0.3, **kw)]]
    if o == "pole":
        return [[c.compute_multipole(z=1.0, r=50., l=2, **kw)]]
    if o == "integral":
        return [[c.integral(r=70., n=n, l=l)] for n, l in ((0, 0), (0, 2), (2, 0), (3, 1))]
    if o == "pk":
        return [[c.power_spectrum(0.1, 0.5)]]
    if o == "growth":
        return [[c.growth_factor(0.7), c.comoving_distance(0.7)]]
    raise KeyError(o)


def outputs(c, which, **kw):
    r = {}
    for o in which:
        try:
            r[o] = one(c, o, **kw)
        except ValueError as e:
            r[o] = "ValueError"
    return r


def differ(a, b):
    for o in a:
        if isinstance(a[o], str) or isinstance(b[o], str):
            if a[o] != b[o]:
                return o, a[o], b[o]
            continue
        x, y = np.array(a[o]), np.array(b[o])
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-7, atol=1e-300):
            return o, np.array(x).tolist(), np.array(y).tolist()


ALL = BULK + ("point", "pole", "integral", "pk", "growth")


def scenarios():
    S = []
    for s in SET:
        # the routine of the covariances discards both: each of them has to be the last one computed
        S.append(("base", BASE, [("read", ALL), s], ("average_covariance",) + tuple(o for o in ALL if o != "average_covariance")))
        S.append(("base", BASE, [("read", ("covariance",)), s], ("covariance",)))
    div = [s for s in SET if s[0] in ("z_mean", "deltaz", "z_max", "z_min", "has_d2", "sep", "l", "has_lensing", "h") or "bias" in s[0]]
    for s in div:
        S.append(("flat-sky", dict(BASE, **FLAT), [("read", BULK), s], BULK))
    for s in (("z_mean", [0.8]), ("deltaz", [0.1]), ("z_max", [1.3]), ("h", 0.7)):
        S.append(("divergent", dict(BASE, **DIV), [("read", ("average_multipoles", "multipoles")), s], ("average_multipoles", "multipoles")))
    for s in (("covariance_interpolation_method", "bilinear"), ("covariance_integration_sampling", 260), ("covariance_integration_method", "standard")):
        for o in ("covariance", "average_covariance"):
            S.append(("fftlog", dict(BASE, covariance_integration_method="fftlog"), [("read", (o,)), s], (o,)))
    S.append(("divergent later", dict(BASE, **RANGE), [("read", ("integral", "multipoles")), ("has_d2", True)], ("multipoles", "corrfunc")))
    S.append(("divergent no more", dict(BASE, **DIV), [("read", ("multipoles",)), ("has_d2", False)], ("multipoles", "corrfunc", "covariance")))
    S.append(("order of outputs", dict(BASE, **FLAT), [("read", ("multipoles",))], BULK[::-1] + ("point", "pole")))
    S.append(("order of outputs", dict(BASE, **FLAT), [("read", ("corrfunc", "average_multipoles"))], ("pole", "multipoles", "corrfunc", "point", "average_multipoles")))
    S.append(("spectrum twice", BASE, [SPECTRUM[1], ("read", ALL), SPECTRUM[2]], ALL))
    S.append(("spectrum, contribution", BASE, [SPECTRUM[1], ("read", BULK), ("has_d1", True)], BULK))
    S.append(("spectrum, precision", BASE, [SPECTRUM[1], ("read", BULK), ("integration_1d_prec", 1e-4), ("background_sampling", 300)], BULK))
    S.append(("spectrum, failed", BASE, [SPECTRUM[1], ("read", BULK), ("!set_power_spectrum_linear", [K.tolist(), ["x"] * len(K)])], BULK))
    for k, v in (("sep", [10., "x"]), ("l", [0, 40]), ("l", [0, 1.5]), ("h", "x"), ("covariance_populations", [2, 2, 2, 7]), ("z_mean", [-1.])):
        S.append(("refused value", BASE, [("read", BULK), ("!" + k, v)], BULK))
    return S


AGAIN = ("order of outputs", "spectrum twice", "divergent")


def fresh(S):
    tag, base, steps, outs = S
    c = coffe.Coffe()
    c.set_parameters(**base)
    plain = []
    for k, v in steps:
        if k.startswith("!"):
            try:
                apply(c, [(k[1:], v)])
            except (ValueError, TypeError):
                continue
            return {"bad": "%s = %r was accepted" % (k[1:], str(v)[:60])}
        apply(c, [(k, v)])
        if k != "read":
            plain.append((k, v))
    before = look(c)
    got = outputs(c, outs)
    if changed(before, look(c)):
        return {"bad": "[%s] computing %s changed %s" % (tag, list(outs), sorted(changed(before, look(c))))}
    d = coffe.Coffe()
    d.set_parameters(**base)
    apply(d, plain)
    want = {}
    for o in outs:
        want.update(outputs(d, (o,), **(dict(recompute=True) if o in BULK + ("point", "pole") and tag in AGAIN else {})))
    w = differ(got, want)
    if w:
        return {"bad": "[%s] %s: after %s, %s is %s; with the same settings and recompute=True it is %s" % (
            tag, str({k: v for k, v in base.items() if BASE.get(k) != v}), str([(k, str(v)[:60]) for k, v in steps]), w[0], str(w[1])[:160], str(w[2])[:160])}
    return {"n": len(outs)}


def guard(fn, S):
    """in a process of its own: the C library ends the process on some errors"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = fn(S)
        except Exception as e:
            out = {"bad": "%s: %s: %s" % (str(S)[:200], type(e).__name__, str(e)[:300])}
        os.write(w, json.dumps(out).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    st = os.waitpid(pid, 0)[1]
    os.close(r)
    return json.loads(data) if data else {"bad": "the process ended (status %d) in [%s] %s %s" % (st, S[0], str([(k, str(v)[:60]) for k, v in S[2]]), str(S[3]))}


# -- settings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from specs import settings as SP

PROPS = [n for n in dir(coffe.Coffe) if isinstance(getattr(coffe.Coffe, n, None), property) or type(getattr(coffe.Coffe, n, None)).__name__ == "getset_descriptor"]
PROPS = [n for n in PROPS if not n.startswith("_") and n != "parameters"]
BZ = (0., 0.3, 7.5, 10.)


def look(c):
    r = {n: getattr(c, n) for n in PROPS}
    for b in SP.BIAS:
        r[b] = [getattr(c, b)(z) for z in BZ]
    return {k: (v.tolist() if hasattr(v, "tolist") else list(v) if isinstance(v, (list, tuple)) else v) for k, v in r.items()}


def changed(a, b):
    out = set()
    for k in a:
        x, y = a[k], b[k]
        if x != y and not (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-14 * max(abs(x), abs(y), 1)):
            out.add(k)
    return out


def mids(lo, hi, types):
    xs = [lo, hi, lo + 0.4 * (hi - lo), lo + 0.75 * (hi - lo)]
    return [int(x) for x in xs] if types == SP.INT else [float(x) for x in xs] + ([1] if types == SP.NUM and lo <= 1 <= hi else [])


def near(xs, e, ok):
    """each value and one close to it; an attribute must tell them apart"""
    return [y for x in xs for y in ([x, x * (1 + e)] if isinstance(x, float) and ok(x * (1 + e)) else [x])]


def values(n):
    """-> (accepted, refused)"""
    junk = [None, "abc", [], 2j]
    if n in SP.SCALAR:
        f, types, lo, hi = SP.SCALAR[n]
        eps = 1 if types == SP.INT else 1e-6 * (hi - lo)
        bad = junk + [lo - eps, hi + eps, float("nan"), float("inf")] + ([0.5] if types == SP.INT else [])
        if n in SP.BUDGET:
            return [0.3, 0.25, 0.2501, 0.06, 0.060006] if n != "omega_gamma" else [1e-4, 3e-5, 3.02e-5], junk + [101., -101., float("nan")] + ([1.5] if n != "omega_baryon" else [])
        good = mids(lo, hi, types)
        if n == "h":
            good = [0.5, 0.71, 1, 2.]
        if n == "m_ncdm":
            good = [0., 0.06, 0.3, 1.]
        if types != SP.INT:
            good = near(good, 1e-4 if n in SP.TOLERANT else 1e-9, lambda x: lo <= x <= hi)
        elif n not in SP.TOLERANT:
            good += [good[-1] - 1, good[-1] - 2]
        return [v for v in good if not (n in ("integration_sampling", "background_sampling", "integrals_fftlog_sampling") and v == -1)], bad
    if n in SP.PRECISION:
        return [12, 40], []
    if n in SP.BOOL:
        return [True, False, 1, 0, True], []
    if n in SP.ENUM:
        return list(SP.ENUM[n][1].values())[::-1], junk[:2] + ["GSL", 17, -1]
    if n in SP.LIST:
        f, l, conv, ok, cs = SP.LIST[n]
        lo, hi = cs
        e = 1 if conv == "int" else 1e-9 * (hi - lo)
        c = [lo, hi, lo + e, hi - e, lo - e, hi + e] + ([2, 3, 1] if conv == "int" else [lo + 0.3 * (hi - lo), lo + 0.8 * (hi - lo), lo + 0.1 * (hi - lo)])
        c = [int(x) for x in c] if conv == "int" else c
        good = [x for x in c if ok(x)]
        close = [[x] for x in near([1.5, 1e-3, 1e-6, 1e-9, 1e-12, 0.37], 1e-9, ok) if ok(x)] if conv == "float" else []
        return close + [good, tuple(good[:1]), np.array(good[::-1]), [], good[-2:]], [5, None, ["x"], [good[0], None]] + [[x] for x in c if not ok(x)] + [good + [x] for x in c if not ok(x)] + [[float("nan")]]
    return [[4, 3, 2, 1], (1, 1, 2, 2), np.array([2, 3, 3, 1])], [[1, 2, 3], [1] * 5, [0, 1, 1, 1], [1, 2, 3, 5], ["x"] * 4, 7, [1, 1, 1, 1.5]]


def setscen():
    R = []
    for n in sorted(set(SP.SCALAR) | set(SP.PRECISION) | set(SP.BOOL) | set(SP.ENUM) | set(SP.LIST) | {"covariance_populations"}):
        R.append(("set", {}, [(n, "")], ("settings",)))
    for b in SP.BIAS:
        R.append(("bias", {}, [(b, "")], ("settings",)))
    R.append(("other", {}, [], ("settings",)))
    return R


def cfield(n):
    return SP.SCALAR[n][0] if n in SP.SCALAR else SP.PRECISION.get(n) or SP.BOOL.get(n) or (SP.ENUM[n][0] if n in SP.ENUM else SP.LIST[n][0] if n in SP.LIST else None)


def cvalue(c, n, v):
    """does the C side hold the value just set"""
    if not hasattr(c, "_vp_probe"):
        return None
    p = c._vp_probe()
    if n == "covariance_populations":
        got, want = [p[f] for f in SP.POPULATIONS], list(v)
    elif n in SP.LIST:
        got, want = p[cfield(n)], list(v)
    elif n in SP.BOOL:
        got, want = p[cfield(n)], int(bool(v))
    elif n in SP.ENUM:
        got, want = p[cfield(n)], p["=" + [k for k, x in SP.ENUM[n][1].items() if x == v][0]]
    else:
        got, want = p[cfield(n)], v
        if n in SP.TOLERANT and np.allclose(got, want):
            return None
    if n in SP.LIST or n == "covariance_populations":
        want = [float(x) for x in want]
        got = [float(x) for x in got]
    return None if got == want or n in SP.BUDGET and abs(got - want) < 1e-12 else "%s = %r leaves par->%s == %r" % (n, v, cfield(n) or "covariance_pop*", got)


def reported(n, v, old):
    if n in SP.BOOL:
        return bool(v)
    if n in SP.ENUM:
        return v if isinstance(v, str) else None
    if n in SP.LIST:
        return [float(x) for x in v]
    if n == "covariance_populations":
        return [int(x) for x in v]
    return v


def setting(T):
    tag, _, steps, _ = T
    n = steps[0][0] if steps else None
    k = 0
    if tag == "set":
        good, bad = values(n)
        for base in ({}, dict(BASE, has_lensing=True, has_g1=True, omega_m=0.35, h=0.7, m_ncdm=0.1)):
            c = coffe.Coffe(**base)
            for v in good:
                old = look(c)
                try:
                    setattr(c, n, v)
                except (ValueError, TypeError) as e:
                    if n in SP.BUDGET:
                        if changed(old, look(c)):
                            return {"bad": "%s = %r was refused, yet it changed %s" % (n, v, sorted(changed(old, look(c))))}
                        continue
                    return {"bad": "%s = %r is refused: %s" % (n, v, str(e)[:100])}
                new = look(c)
                k += 1
                d = changed(old, new) - {n} - SP.DERIVED.get(n, set()) - {"big_" + x for x in SP.DERIVED.get(n, set()) | {n}}
                if d:
                    return {"bad": "%s = %r changed %s" % (n, v, {x: (old[x], new[x]) for x in sorted(d)})}
                want = reported(n, v, old)
                got = new[n]
                if want is not None and got != want and not (n in SP.TOLERANT and np.allclose(v, old[n]) and got == old[n]) and \
                        not (n in SP.BUDGET and abs(got - want) < 1e-12):
                    return {"bad": "%s = %r reads back as %r" % (n, v, got)}
                w = cvalue(c, n, v) if not (n in SP.TOLERANT and np.allclose(v, old[n])) else None
                if w:
                    return {"bad": w}
            for v in bad:
                old = look(c)
                p = c._vp_probe() if hasattr(c, "_vp_probe") else 0
                try:
                    setattr(c, n, v)
                except (ValueError, TypeError, OverflowError):
                    k += 1
                    if changed(old, look(c)) or p and p != c._vp_probe():
                        return {"bad": "%s = %r was refused, yet it changed %s" % (n, v, sorted(changed(old, look(c))))}
                    continue
                return {"bad": "%s = %r was accepted" % (n, v)}
    if tag == "bias":
        c = coffe.Coffe(**BASE)
        x = np.concatenate([np.linspace(0, 2, 21), np.linspace(2.5, 15, 26)])
        for f in (1., 2.):
            old = look(c)
            y = f + 0.3 * x - 0.01 * x ** 2
            getattr(c, "set_" + n)(x.tolist() if f == 1 else x, y.tolist() if f == 1 else tuple(y))
            if changed(old, look(c)) - {n}:
                return {"bad": "set_%s changed %s" % (n, sorted(changed(old, look(c)) - {n}))}
            for xi, yi in zip(x, y):
                k += 1
                if not abs(getattr(c, n)(xi) - yi) <= 1e-9 * abs(yi):
                    return {"bad": "set_%s with value %r at z = %r: evaluates to %r" % (n, yi, xi, getattr(c, n)(xi))}
        z = x.tolist()
        for a, b in ((z[::-1], z), (z[:4], z[:4]), (z, z[:-1]), ([0., 0.] + z[1:], [1.] * (len(z) + 1)), (z[:-1] + [16.], z), ([-1.] + z[1:], z), (["x"] * 9, [1] * 9), (z, [None] * len(z)), (z[:3] + [float("nan")] + z[4:], z)):
            old = look(c)
            try:
                getattr(c, "set_" + n)(a, b)
            except (ValueError, TypeError):
                k += 1
                if changed(old, look(c)):
                    return {"bad": "set_%s refused a sampling, yet it changed %s" % (n, sorted(changed(old, look(c))))}
                continue
            return {"bad": "set_%s accepted %s" % (n, (str(a)[:100], str(b)[:100]))}
    if tag == "other":
        kw = dict(BASE, omega_m=0.33, h=0.7, n_s=0.95, has_g3=True, integration_1d_type="exponential", w0=-0.8)
        a, b, c = coffe.Coffe(**kw), coffe.Coffe(), coffe.Coffe()
        b.set_parameters(**kw)
        for x, v in kw.items():
            setattr(c, x, v)
        for d, m in ((b, "set_parameters"), (c, "one by one")):
            if changed(look(a), look(d)):
                return {"bad": "constructor and %s differ in %s" % (m, sorted(changed(look(a), look(d))))}
        before = look(a)
        p = a.parameters
        if changed(before, look(a)):
            return {"bad": "reading parameters changes %s" % sorted(changed(before, look(a)))}
        for x, v in p.items():
            w = before.get(x)
            v = v.tolist() if hasattr(v, "tolist") else v
            if w != v and not isinstance(v, dict):
                return {"bad": "parameters[%r] is %r, the attribute is %r" % (x, v, w)}
        for x in set(SP.SCALAR) | set(SP.BOOL) | set(SP.LIST) | set(SP.ENUM):
            if x not in p:
                return {"bad": "%s is missing from parameters" % x}
        for kw2 in ({"nonsense": 1}, {"h": 0.5, "nonsense": 1}, {"omega_nu": 0.1}):
            old = look(a)
            try:
                a.set_parameters(**kw2)
            except AttributeError:
                if changed(old, look(a)) - {"h"}:
                    return {"bad": "refused set_parameters(%r) changed something" % kw2}
                continue
            return {"bad": "set_parameters(%r) was accepted" % kw2}
        a.reset_contributions()
        left = [x for x in SP.BOOL if x.startswith("has_") and getattr(a, x)]
        if left:
            return {"bad": "reset_contributions leaves %s" % left}
        a = coffe.Coffe()
        a.set_power_spectrum_linear(K.tolist(), PK(1).tolist())
        for x, y in zip(K[::17], PK(1)[::17]):
            if not abs(a.power_spectrum(x, 0.) / y - 1) < 1e-9:
                return {"bad": "power_spectrum(%r, 0) is %r after set_power_spectrum_linear with %r" % (x, a.power_spectrum(x, 0.), y)}
        if a.k_min != K[0] or a.k_max != K[-1]:
            return {"bad": "range after set_power_spectrum_linear: %r" % ((a.k_min, a.k_max),)}
        k += 20
    return {"n": k}


# -- density parameters
def budgetscen():
    return [("history", {}, [(i, "")], ("budget",)) for i in range(120)]


def consistent(c):
    m, b, n, g, d, cd = (getattr(c, "omega_" + x) for x in ("m", "baryon", "nu", "gamma", "de", "cdm"))
    for x in ("m", "baryon", "nu", "gamma", "de", "cdm"):
        if getattr(c, "omega_" + x) != getattr(c, "big_omega_" + x):
            return "omega_%s is %r, big_omega_%s is %r" % (x, getattr(c, "omega_" + x), x, getattr(c, "big_omega_" + x))
    if not abs(m - cd - b - n) < 1e-12:
        return "omega_m = %r is not omega_cdm + omega_baryon + omega_nu = %r" % (m, cd + b + n)
    if not abs(m + g + d - 1) < 1e-12:
        return "omega_m + omega_gamma + omega_de = %r" % (m + g + d)
    if not abs(n - c.m_ncdm / 93.14 / c.h ** 2) < 1e-12 * max(1, abs(n)):
        return "omega_nu = %r, m_ncdm / 93.14 / h^2 = %r" % (n, c.m_ncdm / 93.14 / c.h ** 2)
    if not d >= -1e-12:
        return "omega_de = %r" % d
    if hasattr(c, "_vp_probe"):
        p = c._vp_probe()
        for f, x in (("Omega0_m", m), ("Omega0_baryon", b), ("Omega0_gamma", g), ("Omega0_cdm", cd), ("h", c.h), ("m_ncdm", c.m_ncdm)):
            if f in p and p[f] != x:
                return "par->%s is %r, the attribute is %r" % (f, p[f], x)


INDEPENDENT = {"omega_m": ("omega_baryon", "omega_gamma", "h", "m_ncdm"), "omega_cdm": ("omega_baryon", "omega_gamma", "h", "m_ncdm"),
               "omega_baryon": ("omega_m", "omega_gamma", "h", "m_ncdm"), "omega_gamma": ("omega_m", "omega_baryon", "h", "m_ncdm"),
               "h": ("omega_m", "omega_baryon", "omega_gamma", "m_ncdm"), "m_ncdm": ("omega_m", "omega_baryon", "omega_gamma", "h")}
RANGES = {"omega_m": (0, 1.1), "omega_cdm": (0, 1.1), "omega_baryon": (0, .3), "omega_gamma": (0, .3), "h": (.3, 1.2), "m_ncdm": (0, 1.5)}


def history(T):
    import random
    i = T[2][0][0]
    rnd = random.Random(i)
    c = coffe.Coffe()
    done = []
    k = 0
    w = consistent(c)
    if w:
        return {"bad": "a new instance: %s" % w}
    for step in range(25):
        n = rnd.choice(sorted(RANGES) + ["other"])
        if n == "other":
            n, v = rnd.choice([("w0", -.9), ("wa", .1), ("n_s", .97), ("sigma8", .8), ("T_cmb", 2.7), ("N_ur", 3.), ("N_ncdm", 2), ("YHe", .25), ("A_s", 2e-9), ("k_min", 1e-5),
                               ("k_max", 20.), ("sep", [10.]), ("has_lensing", True), ("background_sampling", 200), ("pk_type", "linear"), ("z_mean", [1.])])
        elif i % 4 == 3 and n in ("omega_m", "omega_cdm"):
            # right at the limit
            rest = getattr(c, "omega_gamma") + (0 if n == "omega_m" else c.omega_baryon + c.omega_nu)
            v = 1 - rest + rnd.choice([-1e-3, 1e-3, c.omega_nu / 2])
        else:
            v = rnd.choice([rnd.uniform(*RANGES[n])] * 5 + [RANGES[n][0], -0.01 if n != "h" else 2., getattr(c, n) * 1.001])
        old = {x: getattr(c, x) for x in RANGES}
        try:
            setattr(c, n, v)
            ok = True
        except (ValueError, TypeError, ZeroDivisionError):
            ok = False
        done.append("%s = %r%s" % (n, v, "" if ok else " (refused)"))
        k += 1
        w = consistent(c)
        if not ok and n in RANGES and not (n == "h" and v <= 0):
            de = {"omega_m": lambda: 1 - v - c.omega_gamma, "omega_cdm": lambda: 1 - v - c.omega_baryon - c.omega_nu - c.omega_gamma, "omega_gamma": lambda: 1 - v - c.omega_m}.get(n, lambda: 1)()
            if de > 1e-9:
                w = w or "it was refused although dark energy would be %r" % de
        if not w and ok and n in INDEPENDENT and not np.allclose(v, old[n]):
            if abs(getattr(c, n) - v) > 1e-14:
                w = "%s is %r" % (n, getattr(c, n))
            for x in INDEPENDENT[n]:
                if getattr(c, x) != old[x]:
                    w = "%s changed from %r to %r" % (x, old[x], getattr(c, x))
        if not w and not (ok and n in INDEPENDENT):
            for x in old:
                if getattr(c, x) != old[x]:
                    w = "%s changed from %r to %r" % (x, old[x], getattr(c, x))
        if w:
            return {"bad": "after %s: %s" % ("; ".join(done[-6:]), w)}
    if i < 4:
        old = {x: getattr(c, x) for x in PROPS}
        c = coffe.Coffe(**dict(BASE, omega_m=0.31, h=0.7, omega_baryon=0.045, m_ncdm=0.1))
        c.set_power_spectrum_linear(K.tolist(), PK(1).tolist())
        old = look(c)
        outputs(c, ("corrfunc", "growth"))
        if consistent(c) or changed(old, look(c)):
            return {"bad": "computing: %s %s" % (consistent(c), sorted(changed(old, look(c))))}
    return {"n": k}


# -- saving and loading
def tripscen():
    return [("trip", {}, [(i, "")], ("roundtrip",)) for i in range(48)]


def tripped(a, b):
    x, y = look(a), look(b)
    for n in x:
        if n in SP.TOLERANT or n.startswith(("omega_", "big_omega_")):
            if not np.allclose(x[n], y[n], rtol=2e-5, atol=2e-8):
                return "%s is %r, was %r" % (n, y[n], x[n])
        elif n in SP.BIAS:
            if not np.allclose(x[n], y[n], rtol=1e-10, atol=1e-12):
                return "%s at z = %s is %s, was %s" % (n, BZ, y[n], x[n])
        elif changed({n: x[n]}, {n: y[n]}):
            return "%s is %r, was %r" % (n, y[n], x[n])


def trip(T):
    import random
    i = T[2][0][0]
    rnd = random.Random(i)
    c = coffe.Coffe()
    names = sorted(set(SP.SCALAR) | set(SP.BOOL) | set(SP.ENUM) | set(SP.LIST) | set(SP.PRECISION))
    for n in names if i % 2 else rnd.sample(names, 20):
        if n == "verbose" and i % 8:
            continue
        good = values(n)[0]
        try:
            setattr(c, n, rnd.choice(good) if n not in SP.LIST else rnd.choice([good[0], good[-1], good[-2]]))
        except (ValueError, ZeroDivisionError):
            pass
    if i % 3 == 0:
        t = rnd.uniform(0, 1)
        c.omega_gamma = 0
        c.omega_m = 1 - t
        c.omega_gamma = t * rnd.choice([1, 1, .5])
    if i % 3:
        c.covariance_populations = [rnd.randint(1, 4) for _ in range(4)]
    for b in SP.BIAS:
        if rnd.random() < .6:
            x = sorted(set([0.] + [rnd.uniform(0, 10) for _ in range(rnd.randint(4, 30))] + [10. + rnd.uniform(0, 5)]))
            getattr(c, "set_" + b)(x, [rnd.uniform(-1, 3) for _ in x])
            r = getattr(c, b + "_redshifts")()
            v = getattr(c, b + "_values")()
            if len(r) != len(x) or not np.allclose(r, x, rtol=1e-12) or not np.allclose(v, [getattr(c, b)(z) for z in x], rtol=1e-9, atol=1e-12):
                return {"bad": "%s: set at %s, the nodes are %s" % (b, x[:5], list(r[:5]))}
    before = look(c)
    c.to_file("trip%d.cfg" % i)
    if changed(before, look(c)):
        return {"bad": "saving changes %s" % sorted(changed(before, look(c)))}
    w = tripped(c, coffe.Coffe.from_file("trip%d.cfg" % i))
    os.unlink("trip%d.cfg" % i)
    if w:
        return {"bad": "after saving and loading, %s" % w}
    p = c.parameters
    if set(p) != set(SP.SCALAR) | set(SP.BOOL) | set(SP.ENUM) | set(SP.LIST) | set(SP.PRECISION) | {"covariance_populations"}:
        return {"bad": "parameters has the keys %s" % sorted(p)}
    if changed(before, look(c)):
        return {"bad": "reading parameters changes %s" % sorted(changed(before, look(c)))}
    for x, v in p.items():
        v = v.tolist() if hasattr(v, "tolist") else v
        if before[x] != v:
            return {"bad": "parameters[%r] is %r, the attribute is %r" % (x, v, before[x])}
    d = coffe.Coffe()
    d.omega_gamma = 0
    d.set_parameters(**p)
    for x in SP.BIAS:
        before.pop(x)
    for x in before:
        y = getattr(d, x)
        y = y.tolist() if hasattr(y, "tolist") else list(y) if isinstance(y, (list, tuple)) else y
        if not (np.allclose(y, before[x], rtol=2e-5, atol=2e-8) if x in SP.TOLERANT or "omega_" in x else y == before[x]):
            return {"bad": "set_parameters(**parameters): %s is %r, was %r" % (x, y, before[x])}
    d.reset_contributions()
    left = [x for x in SP.BOOL if x.startswith("has_") and getattr(d, x)]
    if left:
        return {"bad": "reset_contributions leaves %s" % left}
    return {"n": len(before)}


# -- outputs

def outscen():
    return [(k, {}, [(i, "")], ("outputs",)) for i in range(6) for k in ("evaluators", "refusals")] + \
           [("points", {}, [(i, "")], ("outputs",)) for i in range(8)] + \
           [("tables", {}, [(i, b)], ("outputs",)) for i in range(2) for b in BULK] + \
           [("divergent", {}, [(i, "")], ("outputs",)) for i in range(10)]


def outrun(T):
    import random
    return globals()["o_" + T[0]](random.Random(str(T[2])), *T[2][0])


def agree_(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(abs(a), abs(b))


def o_evaluators(rnd, i, _):
    from scipy.special import spherical_jn
    c = coffe.Coffe(**dict(BASE, background_sampling=4000, omega_m=rnd.uniform(.2, .5), h=rnd.uniform(.5, .9), w0=rnd.uniform(-1.2, -.8), wa=rnd.uniform(-.2, .2)))
    given = rnd.choice((0, 0.7, 2))
    c.set_power_spectrum_linear(K.tolist(), PK(1).tolist(), given)
    bad = lambda n, a, b: {"bad": "%s is %r, expected %r" % (n, a, b)}
    for _ in range(12):
        z, e = rnd.uniform(.05, 5), 1e-3
        a = c.scale_factor(z)
        chi, Hc = c.comoving_distance, c.hubble_rate_conformal
        for n, x, y, tol in (
                ("scale_factor", a, 1 / (1 + z), 1e-4),
                ("hubble_rate a / hubble_rate_conformal", c.hubble_rate(z) * a, Hc(z), 1e-4),
                ("derivative of comoving_distance", (chi(z + e) - chi(z - e)) / 2 / e, 1 / c.hubble_rate(z), 1e-3),
                ("growth_rate", c.growth_rate(z), -(1 + z) * (np.log(c.growth_factor(z + e)) - np.log(c.growth_factor(z - e))) / 2 / e, 1e-3),
                ("maximum_separation", c.maximum_separation(z, z / 3), 2 * (chi(z + z / 3) - chi(z)), 1e-9)):
            if not agree_(x, y, tol):
                return bad("%s at %r" % (n, z), x, y)
        x, y = c.hubble_rate_conformal_derivative(z), -c.hubble_rate(z) * (Hc(z + e) - Hc(z - e)) / 2 / e
        if not abs(x - y) <= 1e-3 * Hc(z) ** 2:
            return bad("hubble_rate_conformal_derivative at %r" % z, x, y)
        j, w = rnd.randrange(len(K)), rnd.uniform(0, 5)
        D = c.growth_factor
        P0 = PK(1)[j] / (D(given) ** 2 if given else 1)
        if not agree_(c.power_spectrum(K[j], z), P0 * D(z) ** 2) or not agree_(c.power_spectrum(k=float(K[j]), z=0), P0):
            return bad("power_spectrum(%r, %r) of a spectrum given at %r" % (K[j], z, given), c.power_spectrum(K[j], z), P0 * D(z) ** 2)
        if not agree_(c.cross_spectrum(K[j], z, w), P0 * D(z) * D(w)):
            return bad("cross_spectrum(%r, %r, %r)" % (K[j], z, w), c.cross_spectrum(K[j], z, w), P0 * D(z) * D(w))
    k = np.geomspace(c.k_min, c.k_max, 400000)
    P = np.exp(np.interp(np.log(k), np.log(K), np.log(PK(1) / (c.growth_factor(given) ** 2 if given else 1))))
    P *= np.exp(-(k / 10) ** 2)
    for n, l in ((0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)):
        r = rnd.uniform(40, 120)
        f = k ** 2 * P * spherical_jn(l, k * r) / (k * r) ** n / 2 / np.pi ** 2 * (r ** (n - l) if n > l else 1)
        x, y = c.integral(r=r, n=n, l=l), np.sum((f[1:] + f[:-1]) / 2 * np.diff(k))
        if not abs(x - y) <= 2e-2 * abs(y) + 1e-2 * abs(c.integral(r=r, n=n, l=n % 2)):
            return bad("integral(r=%r, n=%d, l=%d)" % (r, n, l), x, y)
    return {"n": 150}


def raises(f, *a, **kw):
    if len(kw) == 1:        # Cython before 3 takes a single argument by position only
        a, kw = tuple(kw.values()), {}
    try:
        f(*a, **kw)
    except (ValueError, TypeError) as e:
        return type(e)


EMPTY = dict(corrfunc=("mu", "sep", "z_mean"), multipoles=("l", "sep", "z_mean"), average_multipoles=("l", "sep", "z_min", "z_max"),
             covariance=("l", "sep", "z_mean", "deltaz", "number_density1", "number_density2", "pixelsize", "fsky"),
             average_covariance=("l", "sep", "z_min", "z_max", "deltaz", "number_density1", "number_density2", "pixelsize", "fsky"))


def o_refusals(rnd, i, _):
    R = dict(z=(0, 15), z1=(0, 15), z2=(0, 15), r=(0, 1500), mu=(-1, 1), l=(0, 10))
    c = coffe.Coffe(**BASE)
    if i < 4:
        # refused, rather than ending the process
        k = .01
        calls = [(getattr(c, n), dict(z=1.)) for n in ("comoving_distance", "hubble_rate", "scale_factor", "hubble_rate_conformal", "hubble_rate_conformal_derivative",
                                                     "growth_factor", "growth_rate")]
        calls += [(c.power_spectrum, dict(k=k, z=1.)), (c.cross_spectrum, dict(k=k, z1=1., z2=.5)), (c.compute_corrfunc, dict(z=1., r=100., mu=.3)),
                  (c.compute_multipole, dict(z=1., r=100., l=2)), (c.integral, dict(r=100., n=2, l=2)), (c.maximum_separation, dict(z_mean=1., deltaz=.1))]
        for f, kw in calls[i::4]:
            w = raises(f, **kw)
            if w:
                return {"bad": "%s(%r) is refused: %s" % (f.__name__, kw, w.__name__)}
            for n in kw:
                lo, hi = dict(R, k=(c.k_min, c.k_max), z_mean=(0, 15), deltaz=(0, kw.get("z_mean")))[n] if f.__name__ != "integral" else dict(r=(0, 25000), n=(-2, 4), l=(0, 4))[n]
                for v, e in ((lo - 1, ValueError), (hi + 1, ValueError), ("abc", TypeError), (None, TypeError)) + (((.5, TypeError),) if n in ("l", "n") else ((np.nan, ValueError),)):
                    w = raises(f, **dict(kw, **{n: v}))
                    if w is not e:
                        return {"bad": "%s(%r) %s" % (f.__name__, dict(kw, **{n: v}), "is accepted" if w is None else "raises %s" % w)}
        for z, d in ((14, 10), (15, 1.), (8., 7.5)):
            if raises(c.maximum_separation, z, d) is not ValueError:
                return {"bad": "maximum_separation(%r, %r) is accepted" % (z, d)}
    for b in BULK[i % 5:i % 5 + 1]:
        f = "compute_%s_bulk" % b
        for n in sorted({x for v in EMPTY.values() for x in v}):
            c = coffe.Coffe(**dict(BASE, **{n: []}))
            w = raises(getattr(c, f))
            if n in EMPTY[b] and w is not ValueError:
                return {"bad": "%s() with an empty %s %s" % (f, n, "is accepted" if w is None else "raises %s" % w)}
            if n not in EMPTY[b] and w:
                return {"bad": "%s() is refused because of an empty %s: %s" % (f, n, w)}
        for n in EMPTY[b][3 if b == "covariance" else 2:] if b not in ("corrfunc", "multipoles") else ():
            c = coffe.Coffe(**dict(BASE, **{n: BASE[n] * 2}))
            if raises(getattr(c, f)) is not ValueError:
                return {"bad": "%s() with two elements in %s is accepted" % (f, n)}
        c = coffe.Coffe(**BASE)
        c.reset_contributions()
        if raises(getattr(c, f)) is not ValueError:
            return {"bad": "%s() without a contribution is accepted" % f}
    for b, n in (("compute_corrfunc", "mu"), ("compute_multipole", "l")):
        c = coffe.Coffe(**BASE)
        c.reset_contributions()
        kw = {"z": 1., "r": 100., n: 0}
        if raises(getattr(c, b), **kw) is not ValueError:
            return {"bad": "%s() without a contribution is accepted" % b}
    for zs, ds in (([9.], [7.]), ([8., 1.], [7.5, .1])):
        c = coffe.Coffe(**dict(BASE, z_mean=zs, deltaz=ds, **{x: BASE[x] * len(zs) for x in ("number_density1", "number_density2", "pixelsize", "fsky")}))
        if raises(c.compute_covariance_bulk) is not ValueError:
            return {"bad": "compute_covariance_bulk() of a bin beyond the tabulated redshifts is accepted"}
    return {"n": 60}


def handlers():
    """the address of the error handler of the process"""
    import ctypes
    for l in open("/proc/self/maps"):
        if "libgsl.so" in l:
            g = ctypes.CDLL(l.split()[-1])
            g.gsl_set_error_handler_off.restype = ctypes.c_void_p
            g.gsl_set_error_handler.argtypes = [ctypes.c_void_p]
            h = g.gsl_set_error_handler_off()
            g.gsl_set_error_handler(h)
            return h or 0


def o_points(rnd, i, _):
    has = [("has_density",), ("has_rsd", "has_d1"), ("has_density", "has_rsd", "has_lensing"), ("has_lensing",)][i % 4]
    b = dict(BASE, integration_1d_prec=1e-4)
    b.update(has_density=False, has_rsd=False)
    b.update({x: True for x in has})
    b.update(sep=[15., 90., 200.], mu=[-.4, .1, .9], l=[0, 2, 3], z_mean=[.8, 1.1], deltaz=[.1, .1], galaxy=None)
    del b["galaxy"]
    c = coffe.Coffe(**b)
    c.set_galaxy_bias1(X.tolist(), (1.3 + .1 * X).tolist())
    n = 0
    h = handlers()
    for f, g, a in (("compute_corrfunc_bulk", "compute_corrfunc", "mu"), ("compute_multipoles_bulk", "compute_multipole", "l")):
        for x in rnd.sample(list(getattr(c, f)()), 5):
            at = {"z": x.z, "r": x.r, a: getattr(x, a)}
            d = coffe.Coffe(**b)
            d.set_galaxy_bias1(X.tolist(), (1.3 + .1 * X).tolist())
            y, n = getattr(d, g)(**at), n + 1
            if not abs(y - x.value) <= 1e-9 * abs(y) + 1e-30:
                return {"bad": "%s(%r) is %r, %s gives %r" % (g, at, y, f, x.value)}
    if handlers() != h:
        return {"bad": "the error handler of the process has changed"}
    return {"n": n}


#: element -> the same output of an instance with only its coordinates
SHOWN = dict(corrfunc=("z", "r", "mu"), multipoles=("z", "r", "l"), average_multipoles=("z_min", "z_max", "r", "l"),
             covariance=("z", "r1", "r2", "l1", "l2"), average_covariance=("z_min", "z_max", "r1", "r2", "l1", "l2"))


COORDS = dict(corrfunc=("z", "r", "mu"), multipoles=("z", "r", "l"), average_multipoles=("z_min", "z_max", "r", "l"),
              covariance=("z", "r1", "r2", "l1", "l2"), average_covariance=("z_min", "z_max", "r1", "r2", "l1", "l2"))


def o_tables(rnd, i, b):
    g = dict(sep=[30., 90.], mu=[.3, -.7, .9], l=[0, 2], z_mean=[.6, 1.4], deltaz=[.1, .15], z_min=[.5, 1.25], z_max=[.7, 1.55], number_density1=[1e-3, 3e-3],
             number_density2=[2e-3, 4e-3], pixelsize=[10., 10.], fsky=[.5, .25])
    if i:
        g.update(sep=[120., 25., 60.], l=[2, 0, 4], z_mean=[1.4, .6], deltaz=[.15, .1], z_min=[1.25, .5], z_max=[1.55, .7])
    if b == "average_covariance":
        g["sep"], g["l"] = g["sep"][:2], g["l"][:2]
    c = coffe.Coffe(**dict(BASE, **g))
    f = "compute_%s_bulk" % b
    t = getattr(c, f)()
    names = SHOWN[b]
    if hasattr(c, "_vp_table"):
        raw, have = c._vp_table()[b], [tuple(getattr(x, n) for n in COORDS[b] + ("value",)) for x in t]
        if raw != have:
            return {"bad": "%s(): the elements are %r, the entries of the table %r" % (f, have[:6], raw[:6])}
    bins = list(zip(g["z_min"], g["z_max"])) if "z_min" in names else [(z,) for z in g["z_mean"]]
    lists = {"mu": g["mu"], "r": g["sep"], "l": g["l"], "r1": g["sep"], "r2": g["sep"], "l1": g["l"], "l2": g["l"]}
    import itertools
    rest = [x for x in names if not x.startswith("z")]
    want = sorted(z + x for z in bins for x in itertools.product(*[lists[x] for x in rest]))
    have = sorted(tuple(getattr(x, n) for n in names) for x in t)
    if len(want) != len(have) or any(abs(p - q) > 1e-9 for x, y in zip(want, have) for p, q in zip(x, y)):
        return {"bad": "%s() of %d bins, %d separations: the coordinates are %r" % (f, len(bins), len(g["sep"]), have[:6])}
    for x in t:
        d = x.to_dict()
        if d != {n: getattr(x, n) for n in names + ("value",)}:
            return {"bad": "to_dict() is %r" % d}
        if repr(d) not in repr(x) or repr(d) not in str(x) or any("<th>%s</th>" % n not in x._repr_html_() or "<td>%s</td>" % d[n] not in x._repr_html_() for n in d):
            return {"bad": "printed as %r, %s" % (x, x._repr_html_())}
    n = 0
    for x in rnd.sample(list(t), 4):
        j = [k for k, z in enumerate(bins) if all(abs(p - getattr(x, q)) < 1e-9 for p, q in zip(z, names))][0]
        one = {k: [g[k][j]] for k in ("z_mean", "deltaz", "z_min", "z_max", "number_density1", "number_density2", "pixelsize", "fsky")}
        for k, v in (("mu", ("mu",)), ("sep", ("r", "r1", "r2")), ("l", ("l", "l1", "l2"))):
            u = [getattr(x, q) for q in v if q in names]
            if u:
                one[k] = sorted(set(u), key=u.index)
        d = coffe.Coffe(**dict(BASE, **one))
        y = [w for w in getattr(d, f)() if all(abs(getattr(w, q) - getattr(x, q)) < 1e-9 for q in names)]
        n += 1
        if len(y) != 1 or not abs(y[0].value - x.value) <= 1e-6 * abs(x.value):
            return {"bad": "%s(): %r of a table, %r on its own" % (f, x, y)}
    return {"n": n}


def o_divergent(rnd, i, _):
    a = ["density", "rsd", "lensing", "d1", "d2", "g1", "g2", "g3", "g4", "g5"][i]
    b = dict(BASE, **RANGE)
    b.update(has_density=False, has_rsd=False, integrals_fftlog_sampling=1000, sep=[100.], l=[0], mu=[.3])
    b["has_" + a] = True
    for f in ("compute_corrfunc_bulk", "compute_multipoles_bulk"):
        c = coffe.Coffe(**b)
        getattr(c, f)()
        got = not raises(c.integral, r=100., n=4, l=0)
        if got != (i > 3):
            return {"bad": "%s() with only has_%s: the divergent integral is %s" % (f, a, "there" if got else "missing")}
    return {"n": 2}


WIDE = dict(BASE, sep=[10. + 9 * i for i in range(14)], mu=[-.9, -.3, .2, .5, .8], l=[0, 1, 2, 3, 4])


def threadscen():
    narrow = dict(BASE, sep=[20. + 12 * i for i in range(8)], l=[0, 2, 4], **RANGE)
    S = [("local", WIDE, BULK[:3]), ("covariance", dict(WIDE, sep=WIDE["sep"][::3], l=[0, 2, 4]), BULK[3:]),
         ("exponential", dict(WIDE, integration_1d_type="exponential", has_d1=True), BULK[:3]),
         ("binned", dict(WIDE, has_binned_covariance=True, sep=WIDE["sep"][::2]), ("covariance",)),
         ("fftlog", dict(WIDE, covariance_integration_method="fftlog"), ("covariance", "average_covariance")),
         ("flat-sky", dict(narrow, **FLAT), BULK),
         ("lensing", dict(narrow, sep=[20., 50., 90., 120.], l=[0, 2], has_lensing=True), BULK[:3]),
         ("divergent", dict(narrow, has_d2=True), BULK[:3]),
         ("integrated", dict(narrow, sep=[20., 70.], l=[0, 2], has_g4=True, has_g5=True, has_d2=True), BULK[:2])]
    return S


def threads(S):
    tag, base, outs = S
    c = coffe.Coffe(**base)
    r = outputs(c, outs)
    return {"n": sum(len(v) for v in r.values()), "r": {k: v if isinstance(v, str) else [[x.hex() for x in y] for y in v] for k, v in r.items()}}


SETS = {"threads": (threadscen, threads), "outputs": (outscen, outrun), "roundtrip": (tripscen, trip), "budget": (budgetscen, history), "fresh": (scenarios, fresh), "settings": (setscen, setting)}

if __name__ == "__main__":
    what, i, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    gen, fn = SETS[what]
    todo = list(enumerate(gen()))
    for j, S in todo[::-1] if "reversed" in sys.argv else todo:
        if j % n == i:
            t = time.time()
            r = guard(fn, S)
            r["t"] = round(time.time() - t, 1)
            r["j"] = j
            r["s"] = "[%s] %s" % (S[0], str([(k, str(v)[:60]) for k, v in S[2]] if S[2] and isinstance(S[2][0], tuple) else S[2]))
            print("R " + json.dumps(r), flush=True)
