CORR_WHY = ("The stable tests compare whole multipoles at a few separations for one cosmology with coarse tolerances; a wrong term, sign, bias "
  "or factor in one pair of effects is invisible unless that pair is switched on alone, for that population order, at that angle.")
PROVE = "contract-based deductive verification: postcondition of each real C function discharged by symbolic execution + exact normal forms"
TRUST = ("Every obligation is discharged on the current source for all inputs (real arithmetic); clang's AST and /verif/dv are trusted, spline/quadrature "
  "calls are taken at assumed contracts. Where changed code is no longer accepted the obligation is replayed on the compiled function; that stand-in is bounded.")
P("P01", "Local relativistic terms of the correlation function",
  "For every combination of enabled local effects (density, redshift-space distortion, Doppler, the gravitational-potential terms), the non-integrated part of the two-point function (and its flat-sky form) equals the sum over ordered pairs of enabled effects of the theoretical pair correlation. Each pair uses the bias, magnification bias and evolution bias of the population and the redshift it belongs to; only effects that are switched on contribute, and with cross-correlations only, identical pairs are excluded.",
  ["inputs", "configurations"], "all separations, angles, redshifts, biases, cosmologies, and all on/off combinations of effects",
  CORR_WHY, ["src/functions.c"],
  [("pair formulas", "src/functions.c: functions_nonintegrated, functions_flatsky_*"), ("table lookup", "src/integrals.c: find_integral")],
  ["return value of the correlation function evaluators", "Coffe.compute_corrfunc / compute_multipoles"],
  claim=(PROVE, TRUST))
P("P02", "Singly integrated terms of the correlation function",
  "For every combination of effects in which exactly one member of a pair is an integrated effect (lensing, time delay, integrated Sachs-Wolfe), the integrand along the line of sight equals the sum over ordered pairs of enabled local and integrated effects of the theoretical kernel, at every point of the line of sight including where the separation vanishes. Both orders of the pair are present, each with the parameters of its own population and redshift.",
  ["inputs", "configurations"], "all separations, angles, redshifts, line-of-sight positions, biases, cosmologies and combinations of effects",
  CORR_WHY, ["src/functions.c"],
  [("single-integrated kernels", "src/functions.c: functions_single_integrated")],
  ["integrand value", "Coffe.compute_multipoles"], claim=(PROVE, TRUST))
P("P03", "Doubly integrated terms of the correlation function",
  "For every combination of enabled integrated effects (lensing, time delay, integrated Sachs-Wolfe) the double line-of-sight integrand equals the sum over ordered pairs of those effects of the theoretical kernel, everywhere including the limit where the two points coincide. Mixed pairs appear in both orders with the parameters of their own population.",
  ["inputs", "configurations"], "all separations, angles, redshifts, both line-of-sight positions, biases, cosmologies and combinations of effects",
  CORR_WHY, ["src/functions.c"],
  [("double-integrated kernels", "src/functions.c: functions_double_integrated")],
  ["integrand value", "Coffe.compute_multipoles"], claim=(PROVE, TRUST))
P("P04", "Flat-sky lensing multipoles",
  "The flat-sky lensing-lensing and density-lensing multipoles equal the closed-form expansion of the flat-sky two-point function in Legendre polynomials, for every even order supported by the lensing-lensing formula and for every order of the density-lensing formula.",
  ["inputs", "configurations"], "all separations, redshifts, line-of-sight positions and supported multipole orders",
  CORR_WHY, ["src/functions.c"],
  [("closed forms", "src/functions.c: functions_flatsky_lensing_lensing_multipoles, functions_flatsky_density_lensing_multipoles")],
  ["return value", "Coffe.compute_multipoles with flat-sky lensing"], claim=(PROVE, TRUST))
P("P06", "Projection of the correlation function onto outputs",
  "Each output value is the stated functional of the correlation function: its value at the given angle, its Legendre moment with weight (2l+1)/2 over the angle, or the redshift average of that moment over the survey bin; integrated effects are integrated over the line of sight. A contribution enters exactly when the effects it needs are switched on.",
  ["inputs", "configurations"], "all separations, redshift ranges, multipole orders and combinations of effects and outputs",
  "Tests only look at a few multipoles of default settings, where a missing normalisation for one output type, effect class or order does not show.",
  ["src/signal.c"], [("projection", "src/signal.c: coffe_integrate")], ["compute_corrfunc, compute_multipoles, compute_average_multipoles"],
  claim=(PROVE, TRUST))
P("P07", "Tables of results hold every requested point at its own coordinates",
  "The tables of the correlation function, its multipoles and its redshift-averaged multipoles have exactly one row per requested (redshift or redshift bin, angle or multipole order, separation), in the documented order (redshift outermost, separation innermost); each row carries its own coordinates and the sum of the local, singly integrated and doubly integrated contribution at exactly those coordinates, whatever the number of threads and axis lengths, and the parameters are left unmodified.",
  ["inputs", "configurations"], "all axis lengths and values, numbers of threads and cosmologies",
  "Tests request one or two shapes of table; a wrong stride, bound or coordinate shows only for particular unequal axis lengths, orders or output types.",
  ["src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c"],
  [("table builders", "coffe_corrfunc_init, coffe_multipoles_init, coffe_average_multipoles_init")],
  ["compute_corrfunc_bulk, compute_multipoles_bulk, compute_average_multipoles_bulk"], claim=(PROVE, TRUST))
P("P08", "Gaussian covariance of the multipoles",
  "The covariance table has exactly one entry per requested (redshift or redshift bin, multipole l_i, separation s_m, multipole l_j, separation s_n), each at its own coordinates, and its value is the sum of the enabled Poisson, mixed and cosmic-variance parts for those four coordinates, computed with the survey volume, pixel size, sky fraction and number densities of that redshift bin, the galaxy biases of the populations each factor belongs to (zero without the density contribution) and the growth rate (zero without redshift-space distortions). The line-of-sight integrals use the power spectrum (mixed) or its square (cosmic variance) and the spherical Bessel functions of the two orders and separations, averaged over the pixel when the window is on; the windowed Bessel function is the pixel average in closed form for orders up to 6.",
  ["inputs", "configurations"], "all axis lengths, redshifts, populations, densities, orders, separations, both output types, both integration methods, window on or off",
  "Tests use one survey with equal densities, one population and three orders; wrong populations, densities, volumes, strides or orders stay invisible there.",
  ["src/covariance.c"],
  [("table", "src/covariance.c: coffe_covariance_init"), ("coefficients", "covariance_coefficient, covariance_coefficient_pair"),
   ("windowed Bessel", "covariance_windowed_bessel, integral_power_spherical_bessel1*"), ("FFTlog", "covariance_integrate_fftlog")],
  ["compute_covariance_bulk, compute_average_covariance_bulk"], claim=(PROVE, TRUST))
P("P09", "Expansion history and derived tables of the background",
  "For every cosmology the background tables hold, at redshifts spread evenly over [0, 15], the scale factor, the Hubble rate of matter, radiation and dark energy with equation of state w0 + wa z/(1+z), the conformal Hubble rate and its derivative with respect to conformal time, the comoving distance integral, the inverse table z(chi), and the Doppler amplitudes G of the two populations from their own magnification and evolution biases; and, for flat-sky non-local terms, the least-squares polynomial of each of the six biases in the comoving distance from the middle of the bin, with the degree set for that bias. The parameters are not modified.",
  ["inputs", "configurations"], "all cosmologies, numbers of bins, biases, interpolation methods, quadrature methods and fit degrees",
  "Tests use one cosmology with a cosmological constant and unit magnification bias; terms that vanish there are never checked.",
  ["src/background.c", "src/common.c"],
  [("tables", "src/background.c: coffe_background_init"), ("fits", "coffe_get_bias_coefficients, coffe_fit_polynomial"), ("w(z)", "src/common.c: coffe_dark_energy_eos")],
  ["Coffe.hubble_rate, scale_factor, comoving_distance, conformal_hubble_rate, conformal_hubble_rate_derivative"], claim=(PROVE, TRUST))
P("P10", "Linear growth",
  "For every cosmology the growth factor table is the growing solution of the linear growth equation with the cosmology's own dark energy equation of state, started on D = a at a = 1/20 and normalised to 1 today, and the growth rate table is dlnD/dlna of the same solution, at every tabulated redshift.",
  ["inputs", "configurations"], "all cosmologies, numbers of bins and interpolation methods",
  "Tests look at one cosmology with a cosmological constant.",
  ["src/background.c"],
  [("growth equation", "src/background.c: growth_rate_ode, integrand_x"), ("integration and normalisation", "src/background.c: coffe_background_init")],
  ["Coffe.growth_factor, growth_rate"], claim=(PROVE, TRUST))
P("P11", "Integrals of the power spectrum against Bessel functions",
  "For every configuration, coffe_integrals_init builds one table for each pair of orders that the correlation function, its multipoles or the flat-sky terms need; each table holds, at increasing separations from zero, the integral I^n_l of the configured power spectrum over [k_min, k_max] times r^(n-l) when n exceeds l, with the limit r -> 0 as its first entry, and (for the divergent I^4_0) the two-dimensional subtraction term up to the comoving distance of the farthest redshift and the finite limit at zero separation. Looking up a key returns the table filed under exactly those orders, and nothing when it was not built. Parameters and background are not modified, and freeing leaves an empty list.",
  ["inputs", "configurations"], "all spectra, ranges of wavenumbers, numbers of bins, multipoles, redshifts, output types, contribution flags and interpolation methods",
  "Tests compare a few multipoles of one cosmology to stored numbers at the percent level; rarely used tables (divergent, half-integer orders, zero separation) hardly enter.",
  ["src/integrals.c"],
  [("tables", "src/integrals.c: coffe_integrals_init, coffe_integrals_renormalizable"), ("integrands", "integrals_bessel_integrand, integrals_prefactor, integrals_renormalization*"),
   ("lookup", "coffe_find_integral")],
  ["every correlation function"], claim=(PROVE, TRUST))
PYTRUST = ("Obligations quantify over every path of every public method and over every state that satisfies the class invariant; trusted: the Cython parser, /verif/dv/pysym.py, numpy and the Python "
  "object protocol. Which parameter fields a C routine can read is recomputed from clang's AST. Code that leaves the subset is replayed on the rebuilt module; that stand-in is bounded.")
PYPROVE = "contract-based deductive verification: class invariant and method postconditions discharged on all symbolic paths of the real Cython class, over C footprints computed from clang's AST"
P("P12", "The command line program computes what its settings file asks for and writes it",
  "coffe -s FILE [-n N] reads FILE, computes with N threads (all available ones without -n) exactly the output of the output_type named there (1 correlation function, 2 multipoles, 3 redshift-averaged multipoles, 4 covariance of multipoles, 5 of redshift-averaged multipoles) from "
  "the background and, for 1-3, the Bessel integrals of that file, and writes it; without FILE, or for -h, -v, -C, nothing is computed; N < 1 is refused. Every setting is stored in the parameter of its name: a required one that is absent ends the program, an optional one (interpolation, deltaz, read_*, degree_*, "
  "the bias values) keeps its default. The separations are separations_min + i (separations_max - separations_min)/separations_sampling, or separations_min + i separations_step below separations_max; exactly one of the two is given. Each bias is the table of its file when read_* is set, else the constant; the "
  "spectrum is that of its file (smoothed by the window when asked), its range cut to the table. The dark energy density is 1 - omega_m - omega_gamma, that of cold dark matter omega_m - omega_baryon less the neutrinos. Lists that belong together of different lengths, two derivatives at once, unknown methods, windows "
  "outside the range and negative redshifts are refused. The parameters before any setting are the defaults of DEFAULT_SETTINGS.cfg. The result goes to <output_path>/<prefix><type>.dat (prefix: the time stamp and _ for $TIME), replacing an older one, one row per "
  "result in order with its own coordinates and value under a header naming the contributions that are on and the columns; the background columns named in output_background, in that order, to background.dat; a copy of the settings to settings.cfg.",
  ["inputs", "configurations"], "all settings files, numbers and lengths of lists, output types, options of the command line",
  "No test runs the command line program or reads a settings file: the stable tests use the library through Python.",
  ["src/main.c", "src/parser.c", "src/output.c", "src/common.c"],
  [("program", "src/main.c: main"), ("settings", "src/parser.c: coffe_parser_init, coffe_parse_default_parameters, parse_int, parse_double, parse_string, parse_int_array, parse_double_array, parse_bias, parse_bias_default"),
   ("files", "src/output.c: coffe_output_init, output_*; src/common.c: read_2col, write_ncol_null")],
  ["the files written by the program, its exit status"], claim=(PROVE, TRUST))
P("P14", "The number of threads, the schedule and earlier calls never change a result",
  "Every result is, bit for bit, the same whatever the number of OpenMP threads and however the iterations of the parallel loops are scheduled: an iteration writes only its own variables, its own allocations and the elements of the shared tables that carry its own index, it reads nothing another iteration writes, and whatever it calls writes only what the call was handed (no static storage, no cache, no shared scratch, no library planner outside a critical section) and computes from its arguments alone (no clock, random state, thread number). No function of the library keeps anything in static storage between calls, so a result does not depend on what was computed before.",
  ["schedules", "histories"], "all schedules, all numbers of threads, all sizes of tables, all sequences of calls",
  "A race shows under some schedules only, and the tests run a few small tables; a value that depends on an unlucky schedule or an earlier call passes them.",
  ["src/multipoles.c", "src/average_multipoles.c", "src/corrfunc.c", "src/covariance.c", "src/integrals.c", "src/signal.c", "src/functions.c", "src/common.c", "src/tanhsinh.c", "src/twofast.c"],
  [("regions", "coffe_multipoles_init, coffe_average_multipoles_init, coffe_corrfunc_init, coffe_covariance_init, coffe_integrals_init"),
   ("called", "coffe_integrate, covariance_integral, integrals_integrate_function, integrals_renormalization and what they call"), ("planner", "twofast_1bessel, twofast_fft_input")],
  ["every parallel region, every function reached from one, static storage of the library"],
  claim=("contract-based deductive verification: frame (assigns) contracts of every function as a least fixpoint over the clang AST; ownership of each parallel region's iterations discharged against them (z3, mixed-radix index argument)",
         "assumes: distinct parameters do not overlap, rows of pointer arrays are separate, strict aliasing; frames of external functions from their declarations (table in dv/effects.py); shared GSL accelerators are value-neutral; built without CLASS and CUBA"))
P("P15", "Results always belong to the current settings",
  "Whatever sequence of settings, computations and reads was made on one instance, every output equals the output of a fresh instance with the same settings: setting any parameter, bias or spectrum discards each stored intermediate (background, spectrum, integral tables, result tables) that depends on it, also when the setting is refused half-way, and a spectrum given by the user is replaced only when the cosmology or the range of wavenumbers changes.",
  ["histories", "inputs"], "all sequences of public operations of an instance, all values, all orders of outputs",
  "Tests set parameters once and compute once; a stale intermediate shows only for a particular order of a computation, one particular setter and a particular second output.",
  ["python/coffe/coffe.pyx", "src/background.c", "src/integrals.c", "src/covariance.c"],
  [("invalidation", "Coffe setters: _free_background, _free_integrals, _free_corrfunc, ..."), ("guards", "Coffe._background_init, _integrals_init, *_bulk")],
  ["compute_*_bulk, compute_corrfunc, compute_multipole, integral, power_spectrum, background evaluators"], claim=(PYPROVE, PYTRUST))
P("P16", "Settings: what is accepted, where it goes, what is reported back",
  "Every attribute of an instance accepts exactly the values of its documented kind and range (numbers, lists of numbers, named methods, booleans, populations 1-4, increasing bias samples) and refuses anything else, NaN included, with an exception that leaves every setting as it was; an accepted value is reported back by the attribute, reaches the C parameter the computations read for it, and changes no other setting (except the density parameters that follow from it). A bias or power spectrum that is set is the one that is evaluated afterwards. Changes of a cosmological parameter within a relative 1e-5 may be ignored.",
  ["inputs", "histories"], "all attributes, all values of all Python types, all states of the instance",
  "Tests set a few valid values; a wrong boundary, a swapped C field or a partly applied refused value shows only for particular values.",
  ["python/coffe/coffe.pyx"],
  [("setters and getters", "Coffe.<attribute>"), ("biases", "Coffe.set_galaxy_bias1..4, set_magnification_bias1/2, set_evolution_bias1/2"), ("spectrum", "Coffe.set_power_spectrum_linear")],
  ["every attribute of Coffe, evaluation of the biases, Coffe.parameters"], claim=(PYPROVE, PYTRUST))
P("P17", "The density parameters of an instance form one consistent cosmology",
  "In a new instance and after every history of settings, matter is the sum of cold dark matter, baryons and massive neutrinos, matter, radiation and dark energy add up to 1, dark energy is not negative, and massive neutrinos have Omega_nu h^2 = m_ncdm / 93.14 eV; setting one of omega_m, omega_cdm, omega_baryon, omega_gamma, h or m_ncdm gives it that value and keeps the parameters it is independent of (only the derived ones follow); a combination with negative dark energy is refused; no other operation touches them.",
  ["histories", "inputs"], "all sequences of settings and computations, all values",
  "Tests set omega_m or omega_cdm once with massless neutrinos; what follows from the others, or from the order of the settings, is not looked at.",
  ["python/coffe/coffe.pyx", "src/parser.c"],
  [("setters", "Coffe.omega_m, omega_cdm, omega_baryon, omega_gamma, h, m_ncdm; _check_omegas, _balance_content"), ("defaults", "coffe_parse_default_parameters")],
  ["omega_*, big_omega_*, h, m_ncdm attributes"],
  claim=("contract-based deductive verification: class invariant on the density parameters, established by the C defaults and kept by every symbolic path of every public operation (z3, nonlinear real arithmetic)", PYTRUST))
P("P18", "Saving, loading and rebuilding an instance reproduce it",
  "An instance saved with to_file and loaded with from_file has the same value of every writable attribute and the same biases (at their own nodes) as the one saved, for every accepted setting, including empty lists, every option, every population and every physical cosmology, and independently of the order in which options are read; parameters is exactly the dictionary of the writable attributes and reading it changes nothing; set_parameters sets each entry or refuses an unknown name without setting anything; reset_contributions sets every has_ attribute to False. Cosmological parameters within a relative 1e-5 of the default may be read as the default; the power spectrum of the user is not part of the file.",
  ["inputs", "configurations"], "all settings of an instance, all numbers and lengths of lists, all orders of sets of strings",
  "The test saves and loads one default instance, for which an option that is not read, or read wrongly, makes no difference.",
  ["python/coffe/coffe.pyx"],
  [("file interface", "Coffe.to_file, from_file, CoffeConfigParser"), ("biases", "Coffe.*_redshifts, *_values"), ("dictionary", "Coffe.parameters, set_parameters, reset_contributions")],
  ["Coffe.from_file(to_file)", "Coffe.parameters"],
  claim=("contract-based deductive verification: postconditions of the real bodies, extracted on every run and symbolically executed over opaque values against P16's contracts of the attributes", PYTRUST))
P("P19", "Outputs are the right quantity, at the right arguments, under their own names",
  "The evaluators return the tabulated quantity of their name at the argument given (growth factor and rate, Hubble rates, scale factor, distance; the spectrum times the growth factors of the redshifts asked for; the integral of the orders asked for; twice the distance across half a bin for the maximum separation); compute_corrfunc and compute_multipole return the sum of all three parts of the correlation at the point asked for; a bulk result has one element for each entry of the C table, in order, and each attribute, dictionary key and printed column of an element is the coordinate or value of that entry with that name. A value is returned only for numbers within the tabulated ranges and for complete lists of coordinates, tile properties and contributions, anything valid is not refused, the divergent integral takes part exactly when a selected term needs it, and the error handler of the process is left as it was found.",
  ["inputs", "configurations"], "all arguments, all settings, all states of the instance, all sizes of tables",
  "Tests compare values of a few symmetric points; exchanged coordinates, a missing part that is zero there, or a wrong refusal at other settings does not show.",
  ["python/coffe/coffe.pyx", "python/coffe/representation.py"],
  [("evaluators", "Coffe.comoving_distance ... growth_rate, power_spectrum, cross_spectrum, integral, maximum_separation"), ("points", "Coffe.compute_corrfunc, compute_multipole"),
   ("bulk", "Coffe.compute_*_bulk, _check_coords_*, _check_contributions"), ("elements", "representation.Corrfunc ... AverageCovariance")],
  ["evaluators, compute_* methods, elements of their results"],
  claim=("contract-based deductive verification: every symbolic path of the real methods against their value and refusal contracts (z3); representation.py executed over opaque values", PYTRUST))
P("P20", "The numerical toolbox interpolates, integrates and compares what it is given",
  "coffe_init_spline and coffe_init_spline2d build the interpolant of the requested type (akima, bicubic for an unknown one) through exactly the points given, over all of them; coffe_interp_spline(2d) return its value at the arguments given, in their order; "
  "coffe_free_spline(2d) release each part once and leave an empty object. coffe_integrate_1d_prec_gsl returns the integral of func(., parameters) over [a, b] to the relative precision asked for; coffe_integrate_1d_prec_double_exponential the tanh-sinh sum over [a, b] "
  "(nodes tanh(pi/2 sinh t), weights pi/2 cosh t / cosh^2(pi/2 sinh t), t = k/2^L, |t| <= 3), refined to the last level L = 6 unless two levels agree exactly; coffe_integrate_multidimensional the integral over the unit cube of the dimension given with the method given. "
  "coffe_max_array_double returns the largest element; coffe_rescale_array, coffe_multiply_array, coffe_multiply_power_array, coffe_generate_range work element by element on exactly the elements given; coffe_compare_* order as named, coffe_approx_equal compares relatively, absolutely when either "
  "value is zero; coffe_sign is (-1)^m, coffe_kronecker_delta i == j, coffe_dark_energy_eos w0 + wa z/(1+z), coffe_resolution_window 3 j1(x)/x.",
  ["inputs"], "all arrays and lengths, functions and parameters, intervals, precisions, dimensions, types of interpolation and methods of integration",
  "No test calls these helpers; they enter through stored results at the percent level, for one interpolation type, one precision and the adaptive integrator only.",
  ["src/common.c", "src/tanhsinh.c"],
  [("interpolation", "coffe_init_spline, coffe_init_spline2d, coffe_interp_spline, coffe_interp_spline2d, coffe_free_spline, coffe_free_spline2d"),
   ("integration", "coffe_integrate_1d_prec_gsl, coffe_integrate_1d_prec_double_exponential, coffe_integrate_multidimensional, tanhsinh_quad"),
   ("arrays", "coffe_max_array_double, coffe_rescale_array, coffe_multiply_array, coffe_multiply_power_array, coffe_generate_range, coffe_approx_equal")],
  ["return values, arrays written, every result built on them"], claim=(PROVE, TRUST))
