#!/usr/bin/env python3-vt
"""Regenerates planted changes (python3-vt tools/mkseeds.py ID...); see tools/seed.py."""
import sys
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/tools')
import seed as S
WANT = sys.argv[1:]
def pt(entry, args, flags, **ints): return {"entry": entry, "args": args, "flags": flags, "ints": ints}
def readf(p): return open('/verif/' + p).read()
CDEMO = '''"""{doc}"""
import glob, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import driver
d = tempfile.mkdtemp()
try:
    srcs = [s for s in sorted(glob.glob("/repo/src/*.c")) if not s.endswith("main.c")] + [H + "/" + s for s in {shims!r}]
    objs = []
    for s in srcs:
        o = d + "/" + os.path.basename(s)[:-2] + ".o"
        subprocess.check_call(["gcc", "-std=gnu99", "-w", "-O1", "-fPIC", "-fopenmp", "-I/repo/src", "-c", s, "-o", o])
        objs.append(o)
    lib = d + "/lib.so"
    subprocess.check_call(["gcc", "-shared", "-fopenmp", "-o", lib] + ["-Wl,--wrap=" + w for w in {wrap!r}] + objs +
                          ["-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"])
    n, bad = {call}
    print(n, "evaluations;", "first disagreement:" if bad else "all agree", bad[:1])
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
'''
def cdemo(id, prop, edits, needs, breaks, driver, shims, wrap, call, doc, extra=()):
    if WANT and id not in WANT: return
    files = [("demo.py", CDEMO.format(doc=doc, shims=list(shims), wrap=list(wrap), call=call)), ("driver.py", driver)]
    files += [(s, readf('replay/' + s)) for s in shims] + list(extra)
    S.write(id, prop, edits, needs, breaks, S.SH, files)
def points(id, *a):
    if WANT and id not in WANT: return
    S.points(id, *a)
def py(id, *a):
    if WANT and id not in WANT: return
    S.py(id, *a)

points("S01", "P01", [("src/functions.c", """3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*f2*(f1 - 1)*(2./3*pow(sep, 2) - (1 - pow(costheta, 2))*pow(chi1, 2))""",
                                          """3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*f2*(f1 - 1)*(2./3*pow(sep, 2) - (1 - pow(costheta, 2))*pow(chi2, 2))""")],
 [pt("sh_nonint", [1.2, 0.4, 5.0], ["rsd", "g3"]), pt("sh_nonint", [1.0, -0.8, 3.0], ["rsd", "g3"])],
 "redshift-space distortion and the g3 potential term both on, |mu| > 0 so that the two comoving distances differ",
 "the g3-rsd half of the pair takes the comoving distance of the wrong source")

cdemo("S07", "P07", [("src/multipoles.c", """    #pragma omp parallel for num_threads(par->nthreads)
    for (size_t i = 0; i < mp->size; ++i){
        mp->array[i].value += coffe_integrate(
            par, bg, integral,
            mp->array[i].coords.z_mean,
            0, 0,
            mp->array[i].coords.separation,
            0,
            mp->array[i].coords.l,
            SINGLE_INTEGRATED, MULTIPOLES
        );""", """    #pragma omp parallel for num_threads(par->nthreads)
    for (size_t i = 0; i < mp->size; ++i){
        /* odd multipoles get no contribution from the line of sight */
        if (mp->array[i].coords.l % 2) continue;
        mp->array[i].value += coffe_integrate(
            par, bg, integral,
            mp->array[i].coords.z_mean,
            0, 0,
            mp->array[i].coords.separation,
            0,
            mp->array[i].coords.l,
            SINGLE_INTEGRATED, MULTIPOLES
        );""")],
 "an odd multipole of two different populations with a singly integrated effect", "odd multipoles lack their singly integrated contribution",
 readf('replay/tables.py'), ["shim.c", "shim_tables.c"], ["coffe_integrate"], 'driver.main({"lib": lib, "seed": 3})',
 "Runs the compiled table builders over a polynomial stand-in for coffe_integrate.")

cdemo("S08", "P08", [("src/covariance.c", """                            covariance_coefficient_pair(par->covariance_pop1,
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt)
                           *coffe_kronecker_delta(
                                par->covariance_pop2,
                                par->covariance_pop3
                            )
                           /par->density2[k]""", """                            covariance_coefficient_pair(par->covariance_pop1,
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt)
                           *coffe_kronecker_delta(
                                par->covariance_pop2,
                                par->covariance_pop3
                            )
                           /par->density1[k]""")],
 "a cross term between the second population of the first estimator and the first of the second, with unequal number densities",
 "the mixed part of the covariance takes the number density of the wrong population in one of its four terms",
 readf('replay/cov.py'), ["shim.c", "shim_cov.c"], ["coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential", "two_sph_bessel"],
 'driver.main({"lib": lib, "seed": 3})',
 "Runs the compiled covariance over fixed quadrature nodes and a stand-in FFTlog.")

cdemo("S09", "P09", [("src/background.c", "        w = coffe_interp_spline(&ipar.w, z);\n", "        w = coffe_interp_spline(&ipar.w, 0);\n")],
 "a dark energy equation of state that changes with redshift (wa != 0)",
 "the derivative of the conformal Hubble rate (and the Doppler amplitude G) takes today's dark energy equation of state at every redshift",
 readf('replay/bg.py'), ["shim.c", "shim_bg.c"], [], 'driver.main({"lib": lib, "seed": 3, "part": "expansion"})',
 "Compares the compiled background with independent quadrature.")
cdemo("S10", "P10", [("src/background.c", "    double result = coffe_interp_spline(&par->w, 1/a - 1)/a;\n", "    double result = coffe_interp_spline(&par->w, 1 - a)/a;\n")],
 "a dark energy equation of state that changes with redshift (wa != 0)",
 "the matter to dark energy ratio in the growth equation integrates the equation of state at the wrong redshift",
 readf('replay/bg.py'), ["shim.c", "shim_bg.c"], [], 'driver.main({"lib": lib, "seed": 3, "part": "growth"})',
 "Compares the compiled background with an independent integration of the growth equation.")

IW = ["coffe_integrate_1d_prec_gsl", "coffe_integrate_1d_prec_double_exponential"]
cdemo("S11", "P11", [("src/integrals.c", "                    temp[i] = par->z_mean[i] + par->deltaz[i];\n", "                    temp[i] = par->z_mean[i];\n")],
 "a potential term (divergent integrals) and a bin of finite width: points beyond the comoving distance of the middle of the farthest bin",
 "the subtraction table of the divergent integral ends at the middle of the farthest redshift bin instead of its far edge",
 readf('replay/integrals.py'), ["shim_integrals.c"], IW, 'driver.main({"lib": lib, "seed": 3, "runs": [[0, 0, 1, 2]], "transforms": 0})',
 "Compares the compiled tables of integrals with direct sums.")
cdemo("S12", "P11", [("src/integrals.c", "    if (local_n >= local_l){\n        /* r^(n - l)", "    if (local_n > local_l){\n        /* r^(n - l)")],
 "a separation below the smallest tabulated one (coincident points, or lines of sight integrated down to zero separation) in a term with I^0_0, I^1_1 or I^2_2",
 "the tables of integrals with equal orders start from zero instead of their finite limit at zero separation",
 readf('replay/integrals.py'), ["shim_integrals.c"], IW, 'driver.main({"lib": lib, "seed": 5, "runs": [[0, 0, 0, 2]]*2, "transforms": 0})',
 "Compares the compiled tables of integrals with direct sums.")

PX = "python/coffe/coffe.pyx"
PYHEAD = '''"""{doc}"""
import sys, warnings
warnings.simplefilter("ignore")
import lazy_dlopen
import numpy as np
import coffe
K = np.geomspace(1.1e-5, 150, 300)
PK = 2e4 * (K / 0.02) / (1 + (K / 0.02) ** 2.6)
X = np.linspace(0, 15, 40)
BASE = dict(background_sampling=400, sep=[20., 100.], mu=[0.1, 0.5], l=[0, 2], z_mean=[1.0], deltaz=[0.2], z_min=[0.8],
            z_max=[1.2], number_density1=[1e-3], number_density2=[2e-3], pixelsize=[10.], fsky=[0.5],
            integration_sampling=1000, integrals_fftlog_sampling=2000, covariance_integration_sampling=200, has_density=True, has_rsd=True)
def make(**kw):
    c = coffe.Coffe()
    c.set_parameters(**dict(BASE, **kw))
    c.set_power_spectrum_linear(K.tolist(), PK.tolist())
    return c
def values(r):
    return np.array([[float(v) for _, v in sorted(x.to_dict().items())] for x in r])
def same(a, b):
    a, b = np.array(a), np.array(b)
    print(a.ravel()[-4:], b.ravel()[-4:])
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=0)
'''
def lay(id, prop, edits, needs, breaks, doc, body):
    py(id, prop, edits, PYHEAD.format(doc=doc) + body, needs, breaks)

lay("S13", "P15", [(PX, """            &self._parameters.galaxy_bias2,
            x_sampling, y_sampling,
            self._parameters.interp_method
        )
        self._free_corrfunc()
        self._free_multipoles()
        self._free_average_multipoles()
""", """            &self._parameters.galaxy_bias2,
            x_sampling, y_sampling,
            self._parameters.interp_method
        )
        self._free_corrfunc()
        self._free_average_multipoles()
""")], "multipoles computed in bulk, then the bias of the second population changed, then the multipoles again",
 "the multipoles of the old bias are returned", "Multipoles after a change of the bias of the second population.", """
a = make()
a.compute_multipoles_bulk()
a.set_galaxy_bias2(X.tolist(), (1.5 + 0.1 * X).tolist())
b = make()
b.set_galaxy_bias2(X.tolist(), (1.5 + 0.1 * X).tolist())
sys.exit(0 if same(values(a.compute_multipoles_bulk()), values(b.compute_multipoles_bulk())) else 1)
""")
lay("S14", "P15", [(PX, """        self._parameters.covariance_integration_bins = int(value)
        self._free_covariance_multipoles()
        self._free_average_covariance_multipoles()
""", """        self._parameters.covariance_integration_bins = int(value)
        if self.covariance_integration_method == 'standard':
            # only the quadrature is sampled
            self._free_covariance_multipoles()
            self._free_average_covariance_multipoles()
""")], "the FFTlog covariance computed, then its sampling changed, then the covariance again",
 "the covariance of the old sampling is returned", "FFTlog covariance after a change of its sampling.", """
m = dict(covariance_integration_method="fftlog")
a = make(**m)
a.compute_covariance_bulk()
a.covariance_integration_sampling = 400
b = make(covariance_integration_sampling=400, **m)
sys.exit(0 if same(values(a.compute_covariance_bulk()), values(b.compute_covariance_bulk())) else 1)
""")
lay("S15", "P16", [(PX, """        if self._parameters.density1_len:
            free(self._parameters.density1)

""", """        if self._parameters.density1_len == len(temp) and np.allclose(temp, self.number_density1):
            # nothing changed, keep the covariance
            return
        if self._parameters.density1_len > 0:
            free(self._parameters.density1)

""")], "a number density below 1e-8 / Mpc^3 changed to another one", "the new density is silently ignored",
 "Small number densities are settings like any others.", """
c = make(number_density1=[4e-9])
c.number_density1 = [1e-9]
print(c.number_density1)
sys.exit(0 if c.number_density1 == [1e-9] else 1)
""")
lay("S16", "P16", [(PX, """        if not all(_> 0 and _ < 10000 for _ in temp):
            raise ValueError

        if self._parameters.sep_len:
            free(self._parameters.sep)

        self._parameters.sep_len = len(temp)
        self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
        for i in range(self._parameters.sep_len):
            self._parameters.sep[i] = temp[i]
""", """        if self._parameters.sep_len:
            free(self._parameters.sep)

        self._parameters.sep_len = len(temp)
        self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
        for i, _ in enumerate(temp):
            if not (_ > 0 and _ < 10000):
                raise ValueError
            self._parameters.sep[i] = _
""")], "a list of separations with one out of range, in a try block", "the refused list partly replaces the separations",
 "A refused list of separations leaves the setting as it was.", """
c = make()
before = list(c.sep)
try:
    c.sep = [40., -1.]
    sys.exit(1)
except ValueError:
    pass
print(c.sep)
sys.exit(0 if list(c.sep) == before else 1)
""")
lay("S17", "P17", [(PX, """            self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
""", """            self._check_omegas(value, self.omega_baryon, self.omega_gamma)
""")], "massive neutrinos and an omega_cdm that uses up the whole budget", "a cosmology with negative dark energy is accepted",
 "Massive neutrinos count in the budget.", """
c = coffe.Coffe()
c.m_ncdm = 2.
try:
    c.omega_cdm = 0.93
except ValueError:
    sys.exit(0)
print(c.omega_de)
sys.exit(0 if c.omega_de >= 0 else 1)
""")
lay("S18", "P17", [(PX, """        if not np.allclose(value, self.omega_baryon):
            # we set the value, rebalance the Omega budget, and free memory
""", """        if value and not np.allclose(value, self.omega_baryon):
            # we set the value, rebalance the Omega budget, and free memory
""")], "no baryons: omega_baryon set to 0", "the baryons stay",
 "A universe without baryons.", """
c = coffe.Coffe(omega_m=0.3)
c.omega_baryon = 0
print(c.omega_m, c.omega_cdm, c.omega_baryon, c.omega_nu)
sys.exit(0 if c.omega_baryon == 0 and abs(c.omega_m - c.omega_cdm - c.omega_baryon - c.omega_nu) < 1e-12 else 1)
""")
lay("S19", "P18", [(PX, """            f.write(f"galaxy_bias4_values = {self.galaxy_bias4_values().tolist()}\\n")
""", """            f.write(f"galaxy_bias4_values = {self.galaxy_bias3_values().tolist()}\\n")
""")], "an instance whose fourth population differs from the third, saved and loaded", "the fourth population gets the bias of the third",
 "The bias of the fourth population is saved.", """
import os, tempfile
c = coffe.Coffe()
c.set_galaxy_bias4(X.tolist(), (2 + 0.1 * X).tolist())
with tempfile.TemporaryDirectory() as d:
    c.to_file(os.path.join(d, "a.cfg"))
    b = coffe.Coffe.from_file(os.path.join(d, "a.cfg"))
print(c.galaxy_bias4(1.), b.galaxy_bias4(1.))
sys.exit(0 if abs(c.galaxy_bias4(1.) - b.galaxy_bias4(1.)) < 1e-6 else 1)
""")
lay("S20", "P18", [(PX, """                if isinstance(value, (list, tuple, np.ndarray)):
                    value = list(value)
""", """                if isinstance(value, (list, tuple, np.ndarray)):
                    value = np.round(value, 6).tolist()
""")], "an instance with number densities of order 1e-7 / Mpc^3, saved and loaded", "small numbers are lost",
 "Small number densities are saved.", """
import os, tempfile
c = coffe.Coffe(number_density1=[1.25e-5, 3e-7])
with tempfile.TemporaryDirectory() as d:
    c.to_file(os.path.join(d, "a.cfg"))
    b = coffe.Coffe.from_file(os.path.join(d, "a.cfg"))
print(c.number_density1, b.number_density1)
sys.exit(0 if list(c.number_density1) == list(b.number_density1) else 1)
""")
lay("S21", "P14", [("src/common.c", """    gsl_rng *random = gsl_rng_alloc(rng);
""", """    static gsl_rng *random = NULL;
    if (random == NULL)
        random = gsl_rng_alloc(rng);
"""), ("src/common.c", """    gsl_rng_free(random);

""", """
""")], "redshift-averaged multipoles computed twice in one process, or with several threads", "the generator goes on where the previous integral left it",
 "The same instance twice in one process.", """
def go():
    c = make()
    return [x.value for x in c.compute_average_multipoles_bulk()]
a, b = go(), go()
print(a, b)
sys.exit(0 if a == b else 1)
""")
lay("S22", "P14", [("src/covariance.c", """        return gsl_sf_bessel_jl(test->ell, s * test->k);
    }
    return 1. / covariance""", """        return gsl_sf_bessel_jl(test->ell, s * test->k);
    }
    /* the same node is asked for once for each of the two separations */
    static struct covariance_params_windowed last;
    static double value;
    if (
        last.k == test->k && last.ell == test->ell &&
        last.s_mean == test->s_mean && last.s_delta == test->s_delta
    ) return value;
    last = *test;
    value = 1. / covariance"""), ("src/covariance.c", """                2, test->ell, test->k,
                test->s_mean - test->s_delta / 2.
            )
        );
}
""", """                2, test->ell, test->k,
                test->s_mean - test->s_delta / 2.
            )
        );
    return value;
}
""")], "the binned covariance with several threads", "threads overwrite each other's remembered value",
 "The binned covariance is the same for one and many threads.", """
import os, subprocess
if len(sys.argv) > 1:
    c = coffe.Coffe(**dict(BASE, sep=[20. + 9 * i for i in range(9)], has_binned_covariance=True))
    print([x.value for x in c.compute_covariance_bulk()])
    sys.exit(0)
out = [subprocess.run([sys.executable, sys.argv[0], "x"], env=dict(os.environ, OMP_NUM_THREADS=n), stdout=subprocess.PIPE).stdout for n in "188"]
print(len(out[0]), out[0] == out[1] == out[2])
sys.exit(0 if out[0] and out[0] == out[1] == out[2] else 1)
""")
lay("S23", "P19", [(PX, """           *ccoffe.coffe_interp_spline(&self._background.D1, z2)
        )
""", """           *ccoffe.coffe_interp_spline(&self._background.D1, z1)
        )
""")], "a cross spectrum between two different redshifts", "the growth to the second redshift is that to the first",
 "The cross spectrum is symmetric in the redshifts.", """
c = coffe.Coffe()
a, b = c.cross_spectrum(.05, .5, 1.5), c.cross_spectrum(.05, 1.5, .5)
print(a, b)
sys.exit(0 if abs(a - b) < 1e-9 * a else 1)
""")
lay("S24", "P19", [(PX, """                r1=self._average_covariance_multipoles.array[i].coords.separation1,
                r2=self._average_covariance_multipoles.array[i].coords.separation2,
                l1=self._average_covariance_multipoles.array[i].coords.l1,
                l2=self._average_covariance_multipoles.array[i].coords.l2,
""", """                r1=self._average_covariance_multipoles.array[i].coords.separation1,
                r2=self._average_covariance_multipoles.array[i].coords.separation2,
                l1=self._average_covariance_multipoles.array[i].coords.l2,
                l2=self._average_covariance_multipoles.array[i].coords.l1,
""")], "the average covariance of two different multipoles at two different separations", "its entries carry the orders of each other",
 "The table agrees with the one of the multipoles in the order of its entries.", """
c = make()
a = [(x.l1, x.l2, x.r1, x.r2) for x in c.compute_average_covariance_bulk()]
b = [(x.l1, x.l2, x.r1, x.r2) for x in c.compute_covariance_bulk()]
print(a == b)
sys.exit(0 if a == b else 1)
""")
TB = dict(driver=None, shims=["shim.c"], wrap=[], call='driver.main({"lib": lib, "seed": 3})')
def tb(id, edits, needs, breaks, doc):
    cdemo(id, "P20", edits, needs, breaks, readf('replay/toolbox.py'), TB["shims"], [], TB["call"], doc)
tb("S25", [("src/tanhsinh.c", "    0.000014908514031870608449,\n", "    0.000014098514031870608449,\n")],
   "an integral by the double exponential rule whose integrand is large near an end of the interval", "one of the weights of the finest level has two digits exchanged",
   "The weights of the double exponential rule are those of the rule.")
tb("S26", [("src/common.c", "            T = gsl_interp_cspline_periodic;\n", "            T = gsl_interp_cspline;\n")],
   "the periodic cubic spline is asked for, and the slope at the two ends matters", "periodic cubic splines are natural ones",
   "Splines are of the type asked for.")
tb("S27", [("src/common.c", "    if (a != 0 && b != 0){\n        return (fabs(a - b) / fabs(a)", "    if (a != 0){\n        return (fabs(a - b) / fabs(a)")],
   "a value is compared to an exact zero", "a tiny value is no longer close to zero: the relative difference decides",
   "Two numbers are close by their relative difference, or by the absolute one when either is zero.")
lay("S28", "P08", [("src/twobessel.c", "	g_l(config->l2, config->nu2, eta_n, g2, halfN2+1);\n", \
"""	if(N1 == N2 && dlnk1 == dlnk2 && config->nu1 == config->nu2) {
		for(j=0; j<=halfN2; j++) {g2[j] = g1[j];}
	}
	else {g_l(config->l2, config->nu2, eta_n, g2, halfN2+1);}
""")], "the covariance of two different multipoles, by the FFTlog method", "the kernel of the first order is reused for the second",
 "The two methods of integration agree.", """
def cov(m):
    c = make(l=[0, 2], sep=[60., 100.], k_min=1e-4, k_max=5.)
    c.covariance_integration_method = m
    c.covariance_integration_sampling = 1200
    return c.compute_covariance_bulk()
a, b = cov("standard"), cov("fftlog")
bad = [(x.l1, x.l2, x.r1, x.r2, x.value, y.value) for x, y in zip(a, b) if x.r1 != x.r2 or x.l1 != x.l2
       if abs(x.value - y.value) > 0.2 * abs(x.value)]
print(len(a), bad[:2])
sys.exit(1 if bad or len(a) != len(b) else 0)
""")
lay("S29", "P11", [("src/twofast.c", "        p = fftw_plan_dft_c2r_1d(output_len, input_y_fft, temp_output_y, flag);\n",
"        p = fftw_plan_dft_c2r_1d(2*(N2 - 1), input_y_fft, temp_output_y, flag);\n")],
 "an odd integrals_fftlog_sampling", "the transform back has one point less than the table",
 "The value of an integral hardly depends on the number of samples.", """
def I(n):
    c = make(integrals_fftlog_sampling=n)
    return np.array([c.integral(r=r, n=0, l=l) for l in (0, 2) for r in (5., 20., 50.)])
a, b = I(1000), I(1001)
d = np.max(np.abs(a - b) / np.abs(a))
print(d)
sys.exit(1 if not d < 2e-3 else 0)
""")
PROGRAM = '''"""{doc}"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
d = tempfile.mkdtemp()
S = dict(verbose=1, output_type=4, background_sampling=200, omega_m=0.3, omega_baryon=0.05, omega_gamma=9e-5, w0=-1.0, wa=0.0, bessel_sampling=200,
         integration_method=2, integration_sampling=1000, covariance_integration_method=1, flatsky_local=0, flatsky_local_nonlocal=0, flatsky_nonlocal=0,
         have_window=0, only_cross_correlations=0, b_derivative=0, f_derivative=0, b_tilde_derivative=0, f_tilde_derivative=0, k_min=1e-4, k_max=1.0,
         input_power_spectrum=d + "/pk", output_path=d + "/out/", output_prefix="r_", output_background=["z", "a"], correlation_contributions=["den", "rsd"],
         separations_min=20.0, separations_max=60.0, separations_sampling=2, multipoles=[0, 2], z_mean=[0.5, 1.0], deltaz=[0.1, 0.2], density1=[1e-3, 2e-3],
         density2=[1e-3, 3e-3], fsky=[0.3, 0.4], pixelsize=[5.0, 5.0], covariance_window=0, galaxy_bias1=1.5, galaxy_bias2=1.2, magnification_bias1=0.0,
         magnification_bias2=0.0, evolution_bias1=0.0, evolution_bias2=0.0)
open(d + "/pk", "w").write("# k P\\\\n" + "".join("%.10e %.10e\\\\n" % (k, 1e4*k/(k + 0.02)**2.5) for k in [10**(-4 + i/20.0) for i in range(81)]))


def value(v):
    return json.dumps(v) if isinstance(v, str) else "[" + ", ".join(map(value, v)) + "]" if isinstance(v, list) else repr(v)


def coffe(opts=(), drop=(), **kw):
    """runs the program; its standard output and its tables"""
    s = dict(S, **kw)
    open(d + "/s.cfg", "w").write("".join("%s = %s;\\\\n" % (k, value(v)) for k, v in s.items() if k not in drop))
    p = subprocess.run([d + "/coffe", "-s", d + "/s.cfg"] + list(opts), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = {{}}
    for f in glob.glob(d + "/out/r_*.dat"):
        t[os.path.basename(f)[2:-4]] = [[float(x) for x in l.split()] for l in open(f) if l.strip() and not l.startswith("#")]
    return p.returncode, p.stdout.decode(errors="replace"), t


try:
    subprocess.check_call(["gcc", "-std=gnu99", "-w", "-O1", "-fopenmp", '-DPACKAGE_STRING="coffe"', "-I/repo/src", "-o", d + "/coffe"] + sorted(glob.glob("/repo/src/*.c")) +
                          ["-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"])
{body}
finally:
    shutil.rmtree(d, ignore_errors=True)
'''
def program(id, edits, needs, breaks, doc, body):
    if WANT and id not in WANT: return
    body = "".join("    " + l + "\n" if l else "\n" for l in body.strip().split("\n"))
    S.write(id, "P12", edits, needs, breaks, S.SH, [("demo.py", PROGRAM.replace("\\\\n", "\\n").format(doc=doc, body=body))])
program("S30", [("src/main.c", """    coffe_parser_init(settings_file, &par);

    /* this goes after the parser since it sets it to the default (1) */
    par.nthreads = n;
""", """    par.nthreads = n;

    coffe_parser_init(settings_file, &par);
""")], "more than one thread asked for with -n", "the parser sets the number of threads back to one",
"The number of threads asked for is the one in use.", """
bad = []
for n in (1, 3, 6):
    rc, out, t = coffe(["-n", str(n)])
    m = re.search(r"threads in use: (\\d+)", out)
    if rc or not m or int(m.group(1)) != n:
        bad.append((n, rc, m and m.group(0)))
print(bad)
sys.exit(1 if bad else 0)
""")
program("S31", [("src/output.c", """        else if (strcmp(par->type_bg[i], "conformal_H") == 0){""", """        else if (strncmp(par->type_bg[i], "conformal_H", strlen("conformal_H")) == 0){""")],
"the derivative of the conformal Hubble rate among the background columns", "its column holds the conformal Hubble rate",
"The background columns are those named in the settings.", """
rc, out, t = coffe(output_background=["z", "H", "conformal_H_prime", "conformal_H"])
b = t["background"]
# H' = a dH_conf/dt = -(1 + z) conformal_H d(conformal_H)/dz, compared away from the ends of the table
bad = []
for i in range(5, len(b) // 2):
    s = (b[i + 1][3] - b[i - 1][3]) / (b[i + 1][0] - b[i - 1][0])
    want = -(1 + b[i][0]) * b[i][3] * s
    scale = b[i][3] ** 2
    if abs(b[i][2] / want) > 1e3 or abs(b[i][2]) > 3 * scale:
        bad.append((b[i], want))
print(rc, bad[:2])
sys.exit(1 if rc or bad else 0)
""")
program("S32", [("src/parser.c", """    if (par->k_min < par->power_spectrum.spline->x[0]){
        fprintf(""", """    par->k_min_norm = par->k_min;
    par->k_max_norm = par->k_max;

    if (par->k_min < par->power_spectrum.spline->x[0]){
        fprintf("""), ("src/parser.c", """        par->k_min_norm = par->k_min;
        par->k_max_norm = par->k_max;
        free(k_norm);
        free(pk_norm);
    }

    /* saving""", """        free(k_norm);
        free(pk_norm);
    }

    /* saving""")],
"a range of wavenumbers wider than the file of the spectrum", "the range is not cut for the spectrum in units of the horizon",
"A range wider than the spectrum in the file is cut to it.", """
rc, out, a = coffe(covariance_integration_method=2, covariance_integration_bins=600, covariance_interpolation_method=2, k_min=1e-4, k_max=10.0)
rc2, out2, b = coffe(covariance_integration_method=2, covariance_integration_bins=600, covariance_interpolation_method=2, k_min=1e-7, k_max=100.0)
a, b = a["covariance_multipoles"], b["covariance_multipoles"]
bad = [(x, y) for x, y in zip(a, b) if not abs(x[-1] - y[-1]) <= 1e-6*abs(x[-1])]
print(rc, rc2, len(a), len(b), bad[:2], out2[-300:])
sys.exit(1 if rc or rc2 or bad or len(a) != len(b) else 0)
""")
