#!/usr/bin/env python3
"""Behaviour-preserving edits on which every check has to stay quiet.

    python3-vt tools/refactor.py [NAME...] [--checks P01,P02]

Each edit is applied to a scratch copy of /repo, built there, and the checks
are run against the copy; anything but exit 0 is reported, and so is every
check that fell back to its bounded replay (quiet, but weaker).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = {}


def edit(name):
    def reg(f):
        EDITS[name] = f
        return f
    return reg


class Tree:
    def __init__(self, root):
        self.root = root

    def read(self, p):
        return open(os.path.join(self.root, p)).read()

    def write(self, p, s):
        open(os.path.join(self.root, p), "w").write(s)

    def sub(self, p, *pairs, count=1):
        s = self.read(p)
        for a, b in pairs:
            if a not in s:
                raise SystemExit("%s: not found: %s" % (p, a[:80]))
            s = s.replace(a, b) if count is None else s.replace(a, b, count)
        self.write(p, s)

    def re(self, p, pat, rep, n=None, flags=re.S):
        s = self.read(p)
        s, k = re.subn(pat, rep, s, flags=flags)
        if not k or (n and k != n):
            raise SystemExit("%s: %d matches of %s" % (p, k, pat[:80]))
        self.write(p, s)


BG = "src/background.c"
COV = "src/covariance.c"
FN = "src/functions.c"
SIG = "src/signal.c"
INT = "src/integrals.c"
CF = "src/corrfunc.c"
MP = "src/multipoles.c"
COM = "src/common.c"
PYX = "python/coffe/coffe.pyx"
REP = "python/coffe/representation.py"


MAIN, PAR, OUT = "src/main.c", "src/parser.c", "src/output.c"


@edit("cli-main")
def _(t):
    "the computation in a function, a switch over the type of output"
    t.sub(MAIN, ("    coffe_background_init(&par, &bg);\n", "    coffe_background_init(&par, &bg);\n    const int has_tables = par.output_type <= AVERAGE_MULTIPOLES && par.output_type >= CORRFUNC;\n"),
          ("""    if (
        par.output_type == CORRFUNC ||
        par.output_type == MULTIPOLES ||
        par.output_type == AVERAGE_MULTIPOLES
    )
        coffe_integrals_init""", """    if (has_tables)
        coffe_integrals_init"""),
          ("""    if (par.output_type == CORRFUNC)
        coffe_corrfunc_init(&par, &bg, &integral, &cf);

    if (par.output_type == MULTIPOLES)
        coffe_multipoles_init(&par, &bg, &integral, &mp);

    if (par.output_type == AVERAGE_MULTIPOLES)
        coffe_average_multipoles_init(&par, &bg, &integral, &ramp);

    if (
        par.output_type == COVARIANCE_MULTIPOLES ||
        par.output_type == COVARIANCE_AVERAGE_MULTIPOLES
    )
        coffe_covariance_init(&par, &bg, &cov_mp, &cov_ramp);
""", """    switch (par.output_type){
        case CORRFUNC:
            coffe_corrfunc_init(&par, &bg, &integral, &cf);
            break;
        case MULTIPOLES:
            coffe_multipoles_init(&par, &bg, &integral, &mp);
            break;
        case AVERAGE_MULTIPOLES:
            coffe_average_multipoles_init(&par, &bg, &integral, &ramp);
            break;
        case COVARIANCE_MULTIPOLES:
        case COVARIANCE_AVERAGE_MULTIPOLES:
            coffe_covariance_init(&par, &bg, &cov_mp, &cov_ramp);
            break;
        default:
            break;
    }
"""))


@edit("cli-labels")
def _(t):
    "contributions looked up in a table of names, the reset by a structure"
    s = t.read(PAR)
    a = s.index("    par->correlation_contrib.den = 0;", s.index("correlation_contributions_len = 0"))
    b = s.index("    for (size_t i = 0; i < correlation_contributions_len; ++i)\n        free")
    s = s[:a] + """    memset(&par->correlation_contrib, 0, sizeof(par->correlation_contrib));
    {
        const struct {
            const char *name;
            int *flag;
        } table[] = {
            {"den", &par->correlation_contrib.den}, {"rsd", &par->correlation_contrib.rsd}, {"len", &par->correlation_contrib.len},
            {"d1", &par->correlation_contrib.d1}, {"d2", &par->correlation_contrib.d2}, {"g1", &par->correlation_contrib.g1},
            {"g2", &par->correlation_contrib.g2}, {"g3", &par->correlation_contrib.g3}, {"g4", &par->correlation_contrib.g4},
            {"g5", &par->correlation_contrib.g5}
        };
        for (size_t i = 0; i < correlation_contributions_len; ++i)
            for (size_t j = 0; j < sizeof(table) / sizeof(*table); ++j)
                if (strcmp(correlation_contributions[i], table[j].name) == 0)
                    *table[j].flag = 1;
    }

""" + s[b:]
    t.write(PAR, s)


@edit("cli-order")
def _(t):
    "settings read in another order, a helper for the flags, locals"
    t.sub(PAR, ("""    parse_int(conf, "flatsky_local", &par->flatsky_local, COFFE_TRUE);
    parse_int(conf, "flatsky_local_nonlocal", &par->flatsky_local_nonlocal, COFFE_TRUE);
    parse_int(conf, "flatsky_nonlocal", &par->flatsky_nonlocal, COFFE_TRUE);
""", """    parse_flag(conf, "flatsky_nonlocal", &par->flatsky_nonlocal);
    parse_flag(conf, "flatsky_local_nonlocal", &par->flatsky_local_nonlocal);
    parse_flag(conf, "flatsky_local", &par->flatsky_local);
"""), ("""    if (
        par->b_derivative
        +
        par->f_derivative
        +
        par->b_tilde_derivative
        +
        par->f_tilde_derivative > 1
    ){""", """    const int derivatives = par->f_derivative + par->b_derivative + par->f_tilde_derivative + par->b_tilde_derivative;
    if (derivatives >= 2){"""),
          ("static int parse_bias(\n", """static void parse_flag(
    config_t *conf,
    const char *name,
    int *flag
)
{
    parse_int(conf, name, flag, COFFE_TRUE);
}

static int parse_bias(
"""))


@edit("cli-spectrum")
def _(t):
    "the window squared by multiplication, the last wavenumber in a local, the copy of the table by memcpy"
    t.sub(PAR, ("""                for (size_t i = 0; i < pk_len; ++i)
                    pk[i] *= pow(
                        coffe_resolution_window(par->window_size * k[i]),
                        2
                    );
""", """                for (size_t i = 0; i < pk_len; ++i){
                    const double window = coffe_resolution_window(k[i] * par->window_size);
                    pk[i] = pk[i] * window * window;
                }
"""), ("""    if (par->k_max > par->power_spectrum.spline->x[
            par->power_spectrum.spline->size - 1
        ]){""", """    const size_t last = par->power_spectrum.spline->size - 1;
    if (par->power_spectrum.spline->x[last] < par->k_max){"""),
          ("""        par->k_max =
            par->power_spectrum.spline->x[
                par->power_spectrum.spline->size - 1
            ];
""", """        par->k_max = par->power_spectrum.spline->x[last];
"""))


@edit("cli-read")
def _(t):
    "read_2col: the file is read by while loops, comments are skipped by continue, rewind"
    t.sub("src/common.c", ("""    error = fseek(data, 0, SEEK_SET);
    if (error){
        print_error_verbose(PROG_POS_ERROR, filename);
        return EXIT_FAILURE;
    }

    *values1 =""", """    rewind(data);

    *values1 ="""), ("""    for (size_t i = 0; i<n; ++i){
        fgets(temp_string, COFFE_MAX_STRLEN, data);
        if (temp_string[0] != '#'){
            temp_token = strtok(temp_string, ",\\t: ");
            *(*values1 + counter) = atof(temp_token);
            temp_token = strtok(NULL, ",\\t: ");
            *(*values2 + counter) = atof(temp_token);
            ++counter;
        }
    }
""", """    while (fgets(temp_string, COFFE_MAX_STRLEN, data) != NULL){
        if (temp_string[0] == '#') continue;
        const char *first = strtok(temp_string, "\\t,: ");
        const char *second = strtok(NULL, "\\t,: ");
        (*values1)[counter] = atof(first);
        (*values2)[counter++] = strtod(second, NULL);
    }
"""))


@edit("cli-output")
def _(t):
    "headers written in one piece, one row by a helper, loops by pointer"
    t.sub(OUT, ("""    snprintf(
        header, COFFE_MAX_STRLEN,
        "# correlation contributions: "
    );
    output_correlation_contributions_header(cc, header);
    strncat(header, "\\n", COFFE_MAX_STRLEN);
    strncat(header, "# z_mean, l, sep, value\\n", COFFE_MAX_STRLEN);

    FILE *data = fopen(filepath, "w");
    fprintf(data, header);
""", """    header[0] = '\\0';
    output_correlation_contributions_header(cc, header);

    FILE *data = fopen(filepath, "w");
    fprintf(data, "# correlation contributions: %s\\n# z_mean, l, sep, value\\n", header);
"""), ("""        fprintf(
            data,
            "%.10e %d %.10e %.10e\\n",
            mp->array[i].coords.z_mean,
            mp->array[i].coords.l,
            mp->array[i].coords.separation,
            mp->array[i].value
        );
""", """        const coffe_multipoles_t *row = &mp->array[i];
        fprintf(data, "%.10e %d ", row->coords.z_mean, row->coords.l);
        fprintf(data, "%.10e %.10e\\n", row->coords.separation, row->value);
"""))


@edit("cli-background")
def _(t):
    "the columns by one helper"
    s = t.read(OUT)
    a = s.index('        if (strcmp(par->type_bg[i], "z") == 0){')
    b = s.index('    strncat(header, "\\n", COFFE_MAX_STRLEN);', a)
    s = s[:a] + """        const gsl_spline *table = NULL;
        const char *unit = "";
        if (strcmp(par->type_bg[i], "z") == 0 || strcmp(par->type_bg[i], "a") == 0) table = bg->a.spline;
        else if (strcmp(par->type_bg[i], "H") == 0){ table = bg->Hz.spline; unit = "[1/Mpc]"; }
        else if (strcmp(par->type_bg[i], "conformal_H") == 0){ table = bg->conformal_Hz.spline; unit = "[1/Mpc]"; }
        else if (strcmp(par->type_bg[i], "conformal_H_prime") == 0){ table = bg->conformal_Hz_prime.spline; unit = "[1/Mpc^2]"; }
        else if (strcmp(par->type_bg[i], "D1") == 0) table = bg->D1.spline;
        else if (strcmp(par->type_bg[i], "f") == 0) table = bg->f.spline;
        else if (strcmp(par->type_bg[i], "comoving_distance") == 0){ table = bg->comoving_distance.spline; unit = "[Mpc]"; }
        if (table != NULL){
            outputs[i] = (double *)coffe_malloc(sizeof(double)*table->size);
            const double *from = strcmp(par->type_bg[i], "z") == 0 ? table->x : table->y;
            for (size_t n = 0; n < table->size; ++n) outputs[i][n] = from[n];
            snprintf(temp_header, COFFE_MAX_STRLEN, "%zu)%s%s%s", i + 1, par->type_bg[i], unit, sep);
            strncat(header, temp_header, COFFE_MAX_STRLEN);
        }
    }
""" + s[b:]
    t.write(OUT, s)


@edit("cli-columns")
def _(t):
    "one pass over the file of two columns, growing the arrays"
    s = t.read(COM)
    a = s.index("    size_t n = 0;\n    char temp_string", s.index("int read_2col("))
    b = s.index("    error = fclose(data);", a)
    s = s[:a] + """    char line[COFFE_MAX_STRLEN];
    size_t room = 16, counter = 0;
    *values1 = (double *)coffe_malloc(sizeof(double)*room);
    *values2 = (double *)coffe_malloc(sizeof(double)*room);
    while (fgets(line, COFFE_MAX_STRLEN, data) != NULL){
        if (line[0] == '#') continue;
        if (counter == room){
            room *= 2;
            *values1 = (double *)realloc(*values1, sizeof(double)*room);
            *values2 = (double *)realloc(*values2, sizeof(double)*room);
        }
        (*values1)[counter] = atof(strtok(line, ",\\t: "));
        (*values2)[counter] = atof(strtok(NULL, ",\\t: "));
        ++counter;
    }
    *len = counter;

""" + s[b:]
    t.write(COM, s)


@edit("cli-defaults")
def _(t):
    "defaults in another order, a helper for the bias"
    t.re(PAR, r'(    par->have_window = 0;\n)(    par->window_size = 0;\n)', r'\2\1')


@edit("bg-helper")
def _(t):
    "quadrature choice and matter density extracted into helpers"
    t.sub(BG, ("""/**
    computes and stores all the background functions
**/""", """static double background_integrate(
    const coffe_parameters_t *par,
    double (*func)(double, void *),
    struct integration_params *ipar,
    const double lower,
    const double upper
)
{
    if (par->integration_1d_type == COFFE_INTEGRATION_GSL)
        return coffe_integrate_1d_prec_gsl(func, ipar, lower, upper, par->integration_1d_prec);
    return coffe_integrate_1d_prec_double_exponential(func, ipar, lower, upper, par->integration_1d_prec);
}

/**
    computes and stores all the background functions
**/"""))
    s = t.read(BG)
    s = re.sub(r"if \(par->integration_1d_type == COFFE_INTEGRATION_GSL\)\{\s*wint_array\[i\].*?\n            \}\n            else\{.*?\n            \}\n",
               "wint_array[i] = exp(3 * background_integrate(par, &integrand_w, &ipar, 0, z));\n", s, count=1, flags=re.S)
    s = re.sub(r"if \(par->integration_1d_type == COFFE_INTEGRATION_GSL\)\{\s*\(temp_bg->comoving_distance\).*?\n        \}\n        else\{.*?\n        \}\n",
               "(temp_bg->comoving_distance)[i] = background_integrate(par, &integrand_comoving, &ipar, 0., z) / (par->h * COFFE_H0);\n", s, count=1, flags=re.S)
    assert s.count("background_integrate(") == 3
    t.write(BG, s)


@edit("bg-doppler")
def _(t):
    "G1 and G2 through one helper; 1 + z hoisted"
    s = t.read(BG)
    s = s.replace("""/**
    computes and stores all the background functions
**/""", """static double doppler(
    const double Hprime, const double H, const double chi, const double s, const double fevo
)
{
    return Hprime / (H * H) + (2 - 5 * s) / (chi * H) + 5 * s - fevo;
}

/**
    computes and stores all the background functions
**/""", 1)
    s = re.sub(r"        if \(z > 1E-10\)\{.*?\n        else\{\n            \(temp_bg->G1\)\[i\] = 0;\n            \(temp_bg->G2\)\[i\] = 0;\n        \}",
               """        (temp_bg->G1)[i] = 0;
        (temp_bg->G2)[i] = 0;
        if (z > 1E-10){
            const double H = temp_bg->conformal_Hz[i];
            const double dH = temp_bg->conformal_Hz_prime[i];
            const double chi = temp_bg->comoving_distance[i];
            temp_bg->G1[i] = doppler(
                dH, H, chi,
                coffe_interp_spline(&par->magnification_bias1, z),
                coffe_interp_spline(&par->evolution_bias1, z)
            );
            temp_bg->G2[i] = doppler(
                dH, H, chi,
                coffe_interp_spline(&par->magnification_bias2, z),
                coffe_interp_spline(&par->evolution_bias2, z)
            );
        }""", s, count=1, flags=re.S)
    t.write(BG, s)


@edit("bg-loops")
def _(t):
    "for into while, normalisation loop backwards, splines initialised in another order"
    t.sub(BG, ("""        for (int i = 0; i < par->background_bins; ++i)
            temp_bg->D1[i] /= D10;""", """        int i = par->background_bins;
        while (i > 0){
            --i;
            temp_bg->D1[i] = temp_bg->D1[i] / D10;
        }"""), ("""        for (size_t i = 0; i <= bins; ++i){
            z = z_max*i/(double)bins;
            z_array[i] = z;
            w_array[i] = coffe_dark_energy_eos(z, par);
        }""", """        size_t j = 0;
        while (j < bins + 1){
            const double zj = z_max*j/(double)bins;
            w_array[j] = coffe_dark_energy_eos(zj, par);
            z_array[j] = zj;
            j++;
        }"""))
    s = t.read(BG)
    blocks = re.findall(r"    coffe_init_spline\(\n        &bg->\w+,.*?\n    \);\n", s, flags=re.S)
    first = s.index(blocks[0])
    last = s.index(blocks[-2]) + len(blocks[-2])
    s = s[:first] + "".join(reversed(blocks[:-1])) + s[last:]
    t.write(BG, s)


@edit("bg-ode")
def _(t):
    "growth equation with named intermediate values"
    t.sub(BG, ("""    f[0] = y[1];
    f[1] = -3./2*(1 - w/(1 + x))*y[1]/a
           +
            3./2*x/(1 + x)*y[0]/pow(a, 2);""", """    const double friction = 1.5 * (1 - w / (1 + x));
    const double source = 1.5 * x / (1 + x);
    f[1] = source * y[0] / (a * a) - friction * y[1] / a;
    f[0] = y[1];"""))


@edit("cov-table")
def _(t):
    "one index for the bin, Kronecker deltas hoisted, loop over a table of orders"
    t.sub(COV, ("""                       *(
                            bin_dependent
                            ?
                            integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                            :
                            integral_pk[0][i*par->multipole_values_len + j][par->sep_len*n + m]
                        )
                       *coeff_mixed_sum""", """                       *integral_pk[bin_dependent ? k : 0][i*par->multipole_values_len + j][par->sep_len*n + m]
                       *coeff_mixed_sum"""),
          ("""                    for (size_t cnt = 0; cnt <= 4; cnt += 2){
                        coeff_mixed_sum +=""", """                    static const int orders[] = {0, 2, 4};
                    for (size_t o = 0; o < 3; ++o){
                        const int cnt = orders[o];
                        coeff_mixed_sum +="""),
          ("""                    const int l1 = par->multipole_values[i];
                    const int l2 = par->multipole_values[j];
""", """                    const int l1 = par->multipole_values[i], l2 = par->multipole_values[j];
                    const int delta24 = coffe_kronecker_delta(par->covariance_pop2, par->covariance_pop4);
"""),
          ("""                           *coffe_kronecker_delta(
                                par->covariance_pop2,
                                par->covariance_pop4
                            )
                           /par->density2[k]""", """                           *delta24
                           /par->density2[k]"""))


@edit("cov-helper")
def _(t):
    "shot noise in a helper, coordinates filled in the loop of the values"
    t.sub(COV, ("""                    if (par->output_type == COVARIANCE_MULTIPOLES){
                        cov_mp->array[index].value = result_mp_or_ramp;
                    }""", """                    if (par->output_type == COVARIANCE_MULTIPOLES){
                        coffe_covariance_t *entry = &cov_mp->array[index];
                        entry->value = result_mp_or_ramp;
                    }"""),
          ("""            cov_mp->array[counter].coords.z_mean = par->z_mean[zi];
            cov_mp->array[counter].coords.l1 = par->multipole_values[l1];
            cov_mp->array[counter].coords.l2 = par->multipole_values[l2];
            cov_mp->array[counter].coords.separation1 = par->sep[r1];
            cov_mp->array[counter].coords.separation2 = par->sep[r2];
            ++counter;""", """            coffe_covariance_t *entry = cov_mp->array + counter++;
            entry->coords.separation2 = par->sep[r2];
            entry->coords.separation1 = par->sep[r1];
            entry->coords.l2 = par->multipole_values[l2];
            entry->coords.l1 = par->multipole_values[l1];
            entry->coords.z_mean = par->z_mean[zi];"""),
          ("""                       *(
                            par->covariance_window
                            ?
                            1.
                            / covariance_volume_no_4pi(
                                separations[m] - par->pixelsize[k] / 2.,
                                separations[m] + par->pixelsize[k] / 2.
                            )
                            :
                            1.
                            / separations[n]
                            / separations[m]
                            / par->pixelsize[k]
                        )
""", """                       *covariance_cell(par, separations[m], separations[n], par->pixelsize[k])
"""),
          ("""/**
    integrand of the windowed spherical Bessel function
**/""", """static double covariance_cell(
    const coffe_parameters_t *par,
    const double r1,
    const double r2,
    const double width
)
{
    if (!par->covariance_window)
        return 1. / (r1 * r2 * width);
    return 1. / covariance_volume_no_4pi(r1 - width / 2., r1 + width / 2.);
}


/**
    integrand of the windowed spherical Bessel function
**/"""))


@edit("cov-transpose")
def _(t):
    "transpose filled by another order of loops; volume in a helper"
    t.sub(COV, ("""        for (size_t i = 0; i < par->multipole_values_len; ++i){
        for (size_t j = 0; j < i; ++j){
        for (size_t m = 0; m < par->sep_len; ++m){
        for (size_t n = 0; n < par->sep_len; ++n){
            integral_pk[index_redshift][i*par->multipole_values_len + j][par->sep_len*n + m] =
                integral_pk[index_redshift][j*par->multipole_values_len + i][par->sep_len*m + n];
            integral_pk2[index_redshift][i*par->multipole_values_len + j][par->sep_len*n + m] =
                integral_pk2[index_redshift][j*par->multipole_values_len + i][par->sep_len*m + n];
        }}}}}""", """        for (size_t j = 0; j < par->multipole_values_len; ++j){
        for (size_t i = j + 1; i < par->multipole_values_len; ++i){
            const size_t lower = i*par->multipole_values_len + j;
            const size_t upper = j*par->multipole_values_len + i;
            for (size_t n = 0; n < par->sep_len; ++n){
            for (size_t m = 0; m < par->sep_len; ++m){
                integral_pk2[index_redshift][lower][par->sep_len*n + m] =
                    integral_pk2[index_redshift][upper][par->sep_len*m + n];
                integral_pk[index_redshift][lower][par->sep_len*n + m] =
                    integral_pk[index_redshift][upper][par->sep_len*m + n];
            }}
        }}}"""), ("""                volume[k] = 4 * M_PI
                   *par->fsky[k]
                   *covariance_volume_no_4pi(
                        coffe_interp_spline(
                            &bg->comoving_distance,
                            par->z_mean[k] - par->deltaz[k]
                        ),
                        coffe_interp_spline(
                            &bg->comoving_distance,
                            par->z_mean[k] + par->deltaz[k]
                        )
                    );""", """                const double r_near = coffe_interp_spline(&bg->comoving_distance, z_mean - par->deltaz[k]);
                const double r_far = coffe_interp_spline(&bg->comoving_distance, z_mean + par->deltaz[k]);
                const double solid_angle = 4 * M_PI * par->fsky[k];
                volume[k] = solid_angle * covariance_volume_no_4pi(r_near, r_far);"""))


@edit("cov-coeff")
def _(t):
    "coefficients by if/else, the pair helper inlined by index pointers"
    t.sub(COV, ("""    switch (ell){
        case 0:
            return bias1 * bias2 + (bias1 + bias2) * growth_rate / 3 + pow(growth_rate, 2) / 5.;
        case 2:
            return 2 * (bias1 + bias2) * growth_rate / 3. + 4 * pow(growth_rate, 2) / 7.;
        case 4:
            return 8 * pow(growth_rate, 2) / 35.;
        default:
            return 0;
    }""", """    const double f2 = growth_rate * growth_rate;
    const double cross = (bias1 + bias2) * growth_rate / 3.;
    if (ell == 0)
        return f2 / 5. + cross + bias1 * bias2;
    if (ell == 2)
        return 2 * cross + 4 * f2 / 7.;
    return ell == 4 ? 8 * f2 / 35. : 0;"""))


@edit("cf-fuse")
def _(t):
    "the three loops over the points fused into one"
    for path, tab in ((CF, "corrfunc"), (MP, "mp")):
        s = t.read(path)
        m = re.findall(r"    #pragma omp parallel for num_threads\(par->nthreads\)\n    for \(size_t i = 0; i < %s->size; \+\+i\)\{\n(.*?)\n    \}\n" % tab, s, flags=re.S)
        assert len(m) == 3
        a = s.index("    #pragma omp parallel for")
        b = s.rindex(m[-1]) + len(m[-1]) + len("\n    }\n")
        s = s[:a] + "    #pragma omp parallel for num_threads(par->nthreads)\n    for (size_t i = 0; i < %s->size; ++i){\n" % tab + "\n".join(m) + "\n    }\n" + s[b:]
        t.write(path, s)


@edit("cf-index")
def _(t):
    "coordinates by index arithmetic, local pointer to the entry, running total"
    s = t.read(CF)
    a = s.index("    {\n    size_t counter = 0;")
    b = s.index("    #pragma omp parallel for")
    s = s[:a] + """    for (size_t i = 0; i < corrfunc->size; ++i){
        coffe_corrfunc_t *point = &corrfunc->array[i];
        point->coords.separation = par->sep[i % par->sep_len];
        point->coords.mu = par->mu[i / par->sep_len % par->mu_len];
        point->coords.z_mean = par->z_mean[i / par->sep_len / par->mu_len];
    }

""" + s[b:]
    t.write(CF, s)
    t.sub(MP, ("""        mp->array[counter].coords.z_mean = par->z_mean[i];
        mp->array[counter].coords.l = par->multipole_values[j];
        mp->array[counter].coords.separation = par->sep[k];
        ++counter;""", """        const size_t at = (i * par->multipole_values_len + j) * par->sep_len + k;
        mp->array[at].coords.separation = par->sep[k];
        mp->array[at].coords.l = par->multipole_values[j];
        mp->array[at].coords.z_mean = par->z_mean[i];"""), ("    size_t counter = 0;\n", ""))


@edit("cf-helper")
def _(t):
    "one helper summing the three parts of a point"
    s = t.read(MP)
    m = re.findall(r"    #pragma omp parallel for num_threads\(par->nthreads\)\n    for \(size_t i = 0; i < mp->size; \+\+i\)\{\n(.*?)\n    \}\n", s, flags=re.S)
    a = s.index("    #pragma omp parallel for")
    b = s.rindex(m[-1]) + len(m[-1]) + len("\n    }\n")
    s = s[:a] + """    #pragma omp parallel for num_threads(par->nthreads)
    for (size_t i = 0; i < mp->size; ++i)
        mp->array[i].value = multipole_value(par, bg, integral, &mp->array[i]);
""" + s[b:]
    k = s.rindex("/**", 0, s.index("int coffe_multipoles_init")) if "/**" in s[:s.index("int coffe_multipoles_init")] else s.index("int coffe_multipoles_init")
    k = s.index("int coffe_multipoles_init")
    s = s[:k] + """static double multipole_value(
    coffe_parameters_t *par,
    coffe_background_t *bg,
    coffe_integral_array_t *integral,
    const coffe_multipoles_t *entry
)
{
    static const enum coffe_integral_type parts[] = {
        NONINTEGRATED, SINGLE_INTEGRATED, DOUBLE_INTEGRATED
    };
    double total = 0;
    for (size_t i = 0; i < 3; ++i)
        total += coffe_integrate(
            par, bg, integral,
            entry->coords.z_mean, 0, 0, entry->coords.separation, 0, entry->coords.l,
            parts[i], MULTIPOLES
        );
    return total;
}

""" + s[k:]
    t.write(MP, s)


@edit("sig-legendre")
def _(t):
    "weights through helpers, order of the factors changed"
    s = t.read(SIG)
    a = s.index("static double corrfunc_single_integrated_integrand(")
    s = s[:a] + """static double legendre_weight(const int l, const double mu)
{
    return l == 0 ? 1. : gsl_sf_legendre_Pl(l, mu);
}


""" + s[a:]
    s = re.sub(r"    if \(l == 0\)\{\n        return functions_nonintegrated\(\n            par, bg, integral,\n            z_mean, mu, sep\n        \);\n    \}\n    else\{.*?\n    \}\n\}",
               "    return legendre_weight(l, mu) * functions_nonintegrated(par, bg, integral, z_mean, mu, sep);\n}", s, count=1, flags=re.S)
    s = re.sub(r"#else\n    if \(params->l == 0\)\{\n        return functions_double_integrated\(\n            par, bg, integral, z, mu, sep, x1, x2\n        \).*?\n    \}\n#endif",
               """#else
    const double volume = COFFE_H0 * par->h / (coffe_interp_spline(&bg->conformal_Hz, z) * (1 + z));
    return volume * legendre_weight(params->l, mu) * functions_double_integrated(par, bg, integral, z, mu, sep, x1, x2);
#endif""", s, count=1, flags=re.S)
    assert s.count("legendre_weight(") == 3
    t.write(SIG, s)


@edit("sig-redshift")
def _(t):
    "redshift of an average point in a helper"
    s = t.read(SIG)
    a = s.index("/* integrand of nonintegrated terms for redshift averaged multipoles */")
    s = s[:a] + """static double average_redshift(
    const struct coffe_integration_parameters_t *params, const double x
)
{
    const coffe_background_t *bg = params->bg;
    const double near = coffe_interp_spline(&bg->comoving_distance, params->z_min) + params->sep/2.;
    const double far = coffe_interp_spline(&bg->comoving_distance, params->z_max) - params->sep/2.;
    const double lower = coffe_interp_spline(&bg->z_as_chi, near);
    const double upper = coffe_interp_spline(&bg->z_as_chi, far);
    return lower * (1 - x) + upper * x;
}


""" + s[a:]
    s, k = re.subn(r"    const double z_min = params->z_min;\n    const double z_max = params->z_max;\n\n    const double z1 =.*?    const double z = \(z2 - z1\)\*var\[0\] \+ z1;",
                   "    const double z = average_redshift(params, var[0]);", s, flags=re.S)
    assert k == 3
    t.write(SIG, s)


@edit("tb-arrays")
def _(t):
    "maximum with fmax from the first element, products through pointers"
    t.sub(COM, ("""        double current = array[0];
        for (size_t i = 1; i < size; ++i){
            if (current < array[i]){
                current = array[i];
            }
        }
        return current;""", """        double largest = array[0];
        for (size_t i = 0; i < size; ++i)
            largest = fmax(largest, array[i]);
        return largest;"""),
          ("        for (size_t i = 0; i < size; ++i) array[i] *= factor;", """        for (size_t i = 0; i < size; ++i){
            const double old = array[i];
            array[i] = factor * old;
        }"""),
          ("        for (size_t i = 0; i < size; ++i) array_out[i] = array1[i] * array2[i];", "        for (size_t i = size; i-- > 0; ) array_out[i] = array2[i] * array1[i];"),
          ("""    for (size_t i = 0; i < steps; ++i){
        result[i] = xmin + (xmax - xmin) * i / steps;""", """    const double range = xmax - xmin;
    for (size_t i = 0; i < steps; ++i){
        result[i] = xmin + range * i / steps;"""))


@edit("tb-spline")
def _(t):
    "interpolation type chosen in a helper, objects filled through locals"
    t.re(COM, r"    const gsl_interp_type \*T;\n    switch\(interpolation_type\)\{\n        case COFFE_INTERP_LINEAR:.*?    interp->spline\n        = gsl_spline_alloc\(T, bins\);\n    interp->accel\n        = gsl_interp_accel_alloc\(\);\n    gsl_spline_init\(interp->spline, xi, yi, bins\);",
         """    gsl_spline *spline = gsl_spline_alloc(interpolation_of(interpolation_type), bins);
    gsl_spline_init(spline, xi, yi, bins);
    interp->accel = gsl_interp_accel_alloc();
    interp->spline = spline;""", 1)
    t.sub(COM, ("int coffe_init_spline(\n", """static const gsl_interp_type *interpolation_of(const enum coffe_interp1d_type kind)
{
    if (kind == COFFE_INTERP_LINEAR) return gsl_interp_linear;
    if (kind == COFFE_INTERP_POLYNOMIAL) return gsl_interp_polynomial;
    if (kind == COFFE_INTERP_CSPLINE) return gsl_interp_cspline;
    if (kind == COFFE_INTERP_CSPLINE_PERIODIC) return gsl_interp_cspline_periodic;
    if (kind == COFFE_INTERP_AKIMA_PERIODIC) return gsl_interp_akima_periodic;
    if (kind == COFFE_INTERP_STEFFEN) return gsl_interp_steffen;
    return gsl_interp_akima;
}


int coffe_init_spline(
"""))


@edit("tb-quad")
def _(t):
    "Monte Carlo bounds in a helper; error estimates dropped; pairs of points of the double exponential rule in a helper"
    t.sub(COM, ("double coffe_integrate_multidimensional(", """static void unit_cube(double *lower, double *upper, const int dims)
{
    for (int axis = 0; axis < dims; ++axis){
        upper[axis] = 1.0;
        lower[axis] = 0.0;
    }
}


double coffe_integrate_multidimensional("""),
          ("""    for (int i = 0; i < dims; ++i){
        lower[i] = 0.0;
        upper[i] = 1.0;
    }
""", "    unit_cube(lower, upper, dims);\n"),
          ("""    gsl_integration_workspace *wspace =
        gsl_integration_workspace_alloc(COFFE_MAX_INTSPACE);
""", """    const size_t space = COFFE_MAX_INTSPACE;
    gsl_integration_workspace *wspace = gsl_integration_workspace_alloc(space);
"""))
    TS = "src/tanhsinh.c"
    t.sub(TS, ("/* Integrate f(c x + d) with the given integration constants. */", """/* contribution of the two points at distance c x from d */
static double pair_of_points(double (*f)(double x, void *ctx), void *ctx, double d, double offset)
{
    return f(d - offset, ctx) + f(d + offset, ctx);
}


/* Integrate f(c x + d) with the given integration constants. */"""))
    s = t.read(TS)
    s, k = re.subn(r"\(\(\*f\)\( ?c \* nodes\[i\] \+ d, ctx\) \+\s+\(\*f\)\(-c \* nodes\[i\] \+ d, ctx\)\)", "pair_of_points(f, ctx, d, c * nodes[i])", s)
    assert k == 2, k
    t.write(TS, s)


@edit("fn-potential")
def _(t):
    "the regularised potential integral and the amplitudes in helpers, terms reordered"
    s = t.read(FN)
    a = s.index("double functions_nonintegrated(")
    s = s[:a] + """static double potential_integral(
    const coffe_integral_array_t *integral,
    const double sep,
    const double chi1,
    const double chi2
)
{
    const coffe_integral_t *entry = coffe_find_integral(integral, 4, 0, COFFE_INTEGER, COFFE_INTEGER);
    return coffe_interp_spline(&entry->result, sep)
        - coffe_interp_spline2d(&entry->renormalization, chi1, chi2);
}

""" + s[a:]
    blk = {}
    for k in ("g1-g1", "g2-g2", "g3-g3"):
        m = re.search(r"    /\* %s term \*/\n    if \(.*?\n    \}\n" % k, s, flags=re.S)
        blk[k] = m.group(0)
    head = s.index(blk["g1-g1"])
    tail = s.index(blk["g3-g3"]) + len(blk["g3-g3"])
    s = s[:head] + """    if (!par->only_cross_correlations){
        const double amplitude = pow(COFFE_H0 * par->h, 4) * 9 * pow(par->Omega0_cdm + par->Omega0_baryon, 2) / 4. / (a1 * a2);
        if (par->correlation_contrib.g3)
            result += amplitude * (f1 - 1) * (f2 - 1) * potential_integral(integral, sep, chi1, chi2);
        if (par->correlation_contrib.g2)
            result += amplitude * (5*s1 - 2) * (5*s2 - 2) * potential_integral(integral, sep, chi1, chi2);
        if (par->correlation_contrib.g1)
            result += amplitude * (1 + G1) * (1 + G2) * potential_integral(integral, sep, chi1, chi2);
    }
""" + s[tail:]
    t.write(FN, s)


@edit("fn-locals")
def _(t):
    "angles and populations computed in another order and through squares"
    t.sub(FN, ("""    const double costheta =
        (2.*chi_mean*chi_mean - sep*sep + mu*mu*sep*sep/2.)
       /(2.*chi_mean*chi_mean - mu*mu*sep*sep/2.);
""", """    const double par2 = pow(mu*sep, 2);
    const double perp2 = sep*sep - par2;
    const double costheta =
        (4.*pow(chi_mean, 2) - 2.*perp2 - par2)
       /(4.*pow(chi_mean, 2) - par2);
"""))


@edit("int-chimax")
def _(t):
    "largest distance by a running maximum, table filled over a flat index"
    t.sub(INT, ("""                double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
                for (size_t i = 0; i < par->z_mean_len; ++i)
                    temp[i] = par->z_mean[i] + par->deltaz[i];
                chi_max = coffe_interp_spline(
                    &bg->comoving_distance,
                    coffe_max_array_double(temp, par->z_mean_len)
                );
                free(temp);""", """                double z_far = par->z_mean[0] + par->deltaz[0];
                for (size_t i = 1; i < par->z_mean_len; ++i){
                    const double z_edge = par->z_mean[i] + par->deltaz[i];
                    if (z_edge > z_far) z_far = z_edge;
                }
                chi_max = coffe_interp_spline(&bg->comoving_distance, z_far);"""),
          ("""            #pragma omp parallel for num_threads(par->nthreads) collapse(2)
            for (size_t j = 0; j <= nbins; ++j){
                for (size_t k = 0; k <= nbins; ++k){
                    result2d[k * (nbins + 1) + j] = integrals_renormalization(
                        &par->power_spectrum_norm,
                        chi_array[j],
                        chi_array[k],
                        par->k_min_norm,
                        par->k_max_norm
                    );
                }
            }""", """            const size_t side = nbins + 1;
            #pragma omp parallel for num_threads(par->nthreads)
            for (size_t at = 0; at < side * side; ++at)
                result2d[at] = integrals_renormalization(
                    &par->power_spectrum_norm,
                    chi_array[at % side],
                    chi_array[at / side],
                    par->k_min_norm,
                    par->k_max_norm
                );"""))


@edit("int-find")
def _(t):
    "lookup without nested branches; Legendre and sign helpers rewritten"
    s = t.read(INT)
    s, k = re.subn(r"    if \(integral != NULL\)\{\n        if \(integral->size != 0\)\{.*?\n    else\{\n        return NULL;\n    \}\n\}", """    if (integral == NULL || integral->size == 0)
        return NULL;
    for (size_t i = 0; i < integral->size; ++i){
        coffe_integral_t *entry = &integral->array[i];
        if (entry->n != n || entry->l != l) continue;
        if (entry->state_n == state_n && entry->state_l == state_l)
            return entry;
    }
    return NULL;
}""", s, count=1, flags=re.S)
    assert k
    t.write(INT, s)
    t.sub(COM, ("    return (abs(m) % 2 == 0 ? 1 : -1);", "    if (m % 2)\n        return -1;\n    return 1;"),
          ("    return (i == j ? 1 : 0);", "    return i == j;"),
          ("""        result +=
            (2. * l + 1)
           *pow(gsl_sf_coupling_3j(2 * n, 2 * m, 2 * l, 0, 0, 0), 2)
           *pow(gsl_sf_coupling_3j(2 * a, 2 * b, 2 * l, 0, 0, 0), 2);""", """        const double left = gsl_sf_coupling_3j(2 * n, 2 * m, 2 * l, 0, 0, 0);
        const double right = gsl_sf_coupling_3j(2 * a, 2 * b, 2 * l, 0, 0, 0);
        result += left * left * right * right * (2. * l + 1);"""))


@edit("int-append")
def _(t):
    "appending an entry to the table of integrals in a helper"
    s = t.read(INT)
    pat = (r"const size_t current_index = integral->size;\n\s*/\* alloc the space \*/\n\s*if \(current_index == 0\)\n.*?\n\s*else\n"
           r"\s*integral->array = \(coffe_integral_t \*\)realloc\(\n.*?\);\n\n\s*coffe_integral_new\(&integral->array\[current_index\]\);\n")
    s, k = re.subn(pat, "const size_t current_index = integrals_append(integral);\n", s, flags=re.S)
    assert k >= 2, k
    a = s.index("/**", s.index("coffe_integral_t *coffe_find_integral("))
    s = s[:a] + """static size_t integrals_append(
    coffe_integral_array_t *integral
)
{
    const size_t at = integral->size;
    if (at == 0)
        integral->array = (coffe_integral_t *)coffe_malloc(sizeof(coffe_integral_t));
    else
        integral->array = (coffe_integral_t *)realloc(
            integral->array,
            sizeof(coffe_integral_t) * (at + 1)
        );
    coffe_integral_new(&integral->array[at]);
    return at;
}


""" + s[a:]
    t.write(INT, s)


@edit("py-refresh")
def _(t):
    "prerequisites of the signal in one method, results built by a loop"
    s = t.read(PYX)
    a = s.index("    def compute_multipoles_bulk(")
    s = s[:a] + '''    def _refresh_signal(self, recompute):
        """Makes sure that everything the signal needs is up to date."""
        if recompute or not self._background.flag:
            self._background_init()
        if recompute or not self._power_spectrum_flag:
            self._power_spectrum_init()
        if recompute or not self._integral.size:
            self._integrals_init()


''' + s[a:]
    a = s.index("    def compute_multipoles_bulk(")
    b = s.index("        if not self._background.flag or recompute:", a)
    c = s.index("        if not self._multipoles.size or recompute:", b)
    s = s[:b] + "        self._refresh_signal(recompute)\n\n" + s[c:]
    a = s.index("        return np.array([\n            Multipoles(", s.index("    def compute_multipoles_bulk("))
    b = s.index("        ])\n", a) + len("        ])\n")
    s = s[:a] + """        result = []
        for i in range(self._multipoles.size):
            result.append(
                Multipoles(
                    l=self._multipoles.array[i].coords.l,
                    r=self._multipoles.array[i].coords.separation,
                    z=self._multipoles.array[i].coords.z_mean,
                    value=self._multipoles.array[i].value,
                )
            )
        return np.array(result)
""" + s[b:]
    t.write(PYX, s)


@edit("py-free")
def _(t):
    "the repeated invalidation of the outputs in one method"
    s = t.read(PYX)
    five = "".join("        self._free_%s()\n" % k for k in
                   ("corrfunc", "multipoles", "average_multipoles", "covariance_multipoles", "average_covariance_multipoles"))
    k = s.count(five)
    assert k > 5
    s = s.replace(five, "        self._free_outputs()\n")
    a = s.index("    def _free_except_power_spectrum(self):")
    s = s[:a] + "    def _free_outputs(self):\n" + five + "\n\n" + s[a:]
    t.write(PYX, s)


@edit("py-check")
def _(t):
    "range check with early returns; spline evaluation with local names"
    t.sub(PYX, ("""    if xmin is not None and not value >= xmin:
        raise ValueError(
            f'Value {value} smaller than xmin ({xmin})'
        )

    if xmax is not None and not value <= xmax:
        raise ValueError(
            f'Value {value} larger than xmax ({xmax})'
        )
""", """    too_small = xmin is not None and not (value >= xmin)
    too_large = xmax is not None and not (value <= xmax)

    if too_small:
        raise ValueError(f'Value {value} smaller than xmin ({xmin})')
    elif too_large:
        raise ValueError(f'Value {value} larger than xmax ({xmax})')
"""), ("""    x_min = dereference(interp.spline).x[0]
    x_max = dereference(interp.spline).x[dereference(interp.spline).size - 1]

    _check_parameter('x', x, (int, float), x_min, x_max)
""", """    last = dereference(interp.spline).size - 1
    _check_parameter(
        'x', x, (int, float),
        xmax=dereference(interp.spline).x[last],
        xmin=dereference(interp.spline).x[0],
    )
"""))


@edit("py-list")
def _(t):
    "list setters through a shared conversion helper"
    s = t.read(PYX)
    conv = """        try:
            _ = iter(value)
        except TypeError as err:
            raise TypeError(f'The value {value} is not iterable') from err

        try:
            temp = [float(_) for _ in value]
        except TypeError as err:
            raise TypeError('Cannot convert all values to floats') from err
"""
    assert s.count(conv) > 3, s.count(conv)
    s = s.replace(conv, "        temp = _to_floats(value)\n")
    a = s.index("def _check_parameter_discrete(")
    s = s[:a] + '''def _to_floats(values):
    """
    Converts an iterable into a list of floats
    """
    try:
        _ = iter(values)
    except TypeError as err:
        raise TypeError(f'The value {values} is not iterable') from err

    try:
        return [float(item) for item in values]
    except TypeError as err:
        raise TypeError('Cannot convert all values to floats') from err


''' + s[a:]
    t.write(PYX, s)


@edit("py-tofile")
def _(t):
    "bias tables written in a loop"
    s = t.read(PYX)
    a = s.index("            # the various biases are handled separately\n")
    b = s.index("    def galaxy_bias1_redshifts(self):")
    s = s[:a] + """            # the various biases are handled separately
            for name, count in (("galaxy", 4), ("magnification", 2), ("evolution", 2)):
                for population in range(1, count + 1):
                    for what in ("redshifts", "values"):
                        attribute = f"{name}_bias{population}_{what}"
                        content = getattr(self, attribute)()
                        f.write(f"{attribute} = {content.tolist()}\\n")


""" + s[b:]
    t.write(PYX, s)


@edit("py-fromfile")
def _(t):
    "options read by a local helper; a set turned into a tuple"
    t.sub(PYX, ("""        for option in options_float:
            if option in config:
                setattr(cosmo, option, config.getfloat(option))
""", """        def assign(options, getter):
            for option in options:
                if option not in config:
                    continue
                setattr(cosmo, option, getter(option))

        assign(options_float, config.getfloat)
"""), ("""        for option in options_int_array:
            if option in config:
                setattr(cosmo, option, config.getint_array(option))
""", """        present = [option for option in options_int_array if option in config]
        for option in present:
            setattr(cosmo, option, config.getint_array(option))
"""))


@edit("py-rep")
def _(t):
    "coordinates of the covariance kept in a tuple"
    t.sub(REP, ("""        self._r1 = r1
        self._r2 = r2
        self._l1 = l1
        self._l2 = l2
        self._z = z
        self._value = value

    @property
    def r1(self):
        return self._r1

    @property
    def r2(self):
        return self._r2
""", """        self._separations = (r1, r2)
        self._l1, self._l2 = l1, l2
        self._z, self._value = z, value

    @property
    def r1(self):
        return self._separations[0]

    @property
    def r2(self):
        return self._separations[1]
"""))


@edit("py-omega")
def _(t):
    "setter with a guard clause and local names"
    t.sub(PYX, ("""        _check_parameter('m_ncdm', value, (int, float), -100, 100)
        if not np.allclose(value, self.m_ncdm):
""", """        _check_parameter('m_ncdm', value, (int, float), -100, 100)
        unchanged = np.allclose(value, self.m_ncdm)
        if not unchanged:
"""), ("""        _check_parameter('YHe', value, (int, float), -100, 100)
        if not np.allclose(value, self.YHe):
            self._parameters.YHe = value
            self._free_except_parameters()
""", """        _check_parameter('YHe', value, (int, float), -100, 100)
        if np.allclose(value, self.YHe):
            return
        self._free_except_parameters()
        self._parameters.YHe = value
"""))


def main():
    args = sys.argv[1:]
    only = None
    if "--checks" in args:
        k = args.index("--checks")
        only = args[k + 1].split(",")
        del args[k:k + 2]
    names = args or list(EDITS)
    claims = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    for name in names:
        work = tempfile.mkdtemp(prefix="rf")
        try:
            tree = os.path.join(work, "repo")
            subprocess.run(["cp", "-a", "/repo", tree], check=True)
            EDITS[name](Tree(tree))
            bad = ""
            for f in subprocess.run(["git", "-C", tree, "diff", "--name-only"], capture_output=True, text=True).stdout.split():
                q = None
                if f.endswith(".c"):
                    q = ["gcc", "-std=gnu99", "-w", "-fopenmp", "-DPACKAGE_STRING=\"\"", "-fsyntax-only", f]
                elif f.endswith(".pyx"):
                    q = ["/opt/coffe-venv/bin/cython", "-3", f, "-o", os.path.join(work, "x.c")]
                if q:
                    r = subprocess.run(q, cwd=tree, capture_output=True, text=True)
                    bad += (r.stdout + r.stderr)[-400:] if r.returncode else ""
            if bad:
                print(name, "DOES NOT COMPILE", bad, flush=True)
                continue
            env = dict(os.environ, VERIF_REPO=tree, VERIF_OUT=os.path.join(work, "out"), VERIF_SEED="1", VERIF_TIER="quick")
            procs = []
            todo = [c for c in claims if not only or c in only]
            line = []
            running = {}
            while todo or running:
                while todo and len(running) < int(os.environ.get("RF_JOBS", "3")):
                    p = todo.pop(0)
                    running[p] = (subprocess.Popen(["python3-vt", os.path.join(HERE, "check.py"), p], env=env,
                                                   stdout=open(os.path.join(work, p + ".log"), "w"), stderr=subprocess.STDOUT), time.time())
                for p, (q, t0) in list(running.items()):
                    if q.poll() is None:
                        continue
                    out = open(os.path.join(work, p + ".log")).read()
                    dt = time.time() - t0
                    del running[p]
                    viol = [x for x in out.splitlines() if x.startswith("VIOLATION")]
                    m = re.findall(r", (\d+) open", out)
                    nopen = int(m[-1]) if m else -1
                    if q.returncode or viol or nopen:
                        line.append("%s rc=%d open=%d %ds %s" % (p, q.returncode, nopen, dt, (viol or [""])[0][-60:]))
                        print("   ", name, line[-1], flush=True)
                    if dt > 500:
                        print("   ", name, p, "SLOW %d s" % dt, flush=True)
                time.sleep(0.3)
            print(name, "quiet" if not any("rc=0" not in x for x in line) else "ALARM", flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
