/* runs the parser or the output routines of the library and prints what they leave behind */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "common.h"
#include "background.h"
#include "covariance.h"
#include "integrals.h"
#include "corrfunc.h"
#include "multipoles.h"
#include "average_multipoles.h"
#include "parser.h"
#include "output.h"

#define I(f) printf("%s i %d\n", #f, (int)par.f)
#define D(f) printf("%s d %.17g\n", #f, par.f)
#define S(f) printf("%s s %s\n", #f, par.f)
#define A(f) do { printf("%s a", #f); for (size_t q = 0; q < par.f##_len; ++q) printf(" %.17g", (double)par.f[q]); printf("\n"); } while (0)
#define B(f) do { printf("%s b", #f); for (size_t q = 0; q < par.f.spline->size; ++q) printf(" %.17g %.17g", par.f.spline->x[q], par.f.spline->y[q]); printf("\n"); } while (0)
#define T(f) printf("%s t %s\n", #f, gsl_interp_name(par.f.spline->interp))

static void show(coffe_parameters_t par)
{
    I(output_type); I(background_bins); I(bessel_bins); I(integration_bins); I(integration_method); I(verbose);
    I(correlation_contrib.den); I(correlation_contrib.rsd); I(correlation_contrib.len); I(correlation_contrib.d1); I(correlation_contrib.d2);
    I(correlation_contrib.g1); I(correlation_contrib.g2); I(correlation_contrib.g3); I(correlation_contrib.g4); I(correlation_contrib.g5);
    I(b_derivative); I(f_derivative); I(b_tilde_derivative); I(f_tilde_derivative); I(divergent); I(interp_method);
    I(covariance_pop1); I(covariance_pop2); I(covariance_pop3); I(covariance_pop4); I(covariance_integration_method); I(covariance_integration_bins); I(covariance_interpolation_method); I(covariance_window);
    I(covariance_cosmic); I(covariance_mixed); I(covariance_poisson); I(have_window); I(flatsky_local); I(flatsky_local_nonlocal);
    I(flatsky_nonlocal); I(only_cross_correlations); I(integration_1d_type); I(pk_type); I(N_ncdm);
    I(read_galaxy_bias1); I(read_galaxy_bias2); I(read_magnification_bias1); I(read_magnification_bias2); I(read_evolution_bias1);
    I(read_evolution_bias2); I(degree_galaxy_bias1); I(degree_galaxy_bias2); I(degree_magnification_bias1); I(degree_magnification_bias2);
    I(degree_evolution_bias1); I(degree_evolution_bias2); I(class_precision.l_max_g); I(class_precision.l_max_ur);
    D(Omega0_cdm); D(Omega0_m); D(Omega0_baryon); D(Omega0_gamma); D(Omega0_de); D(Omega0_nu); D(w0); D(wa); D(k_min); D(k_max);
    D(k_min_norm); D(k_max_norm); D(window_size); D(h); D(n_s); D(sigma8); D(A_s); D(T_cmb); D(N_ur); D(m_ncdm); D(YHe);
    D(integration_1d_prec); D(class_precision.k_per_decade_for_bao); D(class_precision.k_per_decade_for_pk);
    D(class_precision.start_large_k_at_tau_h_over_tau_k); D(class_precision.tol_perturb_integration);
    D(class_precision.radiation_streaming_trigger_tau_over_tau_k); D(class_precision.ur_fluid_trigger_tau_over_tau_k);
    A(mu); A(z_mean); A(deltaz); A(sep); A(multipole_values); A(zmin); A(zmax); A(fsky); A(density1); A(density2); A(pixelsize);
    S(output_path); S(output_prefix); S(file_power_spectrum);
    B(power_spectrum); B(power_spectrum_norm); T(power_spectrum); T(power_spectrum_norm);
    B(galaxy_bias1); B(galaxy_bias2); B(magnification_bias1); B(magnification_bias2); B(evolution_bias1); B(evolution_bias2);
    B(galaxy_bias3); B(galaxy_bias4);
    T(galaxy_bias1); T(galaxy_bias2); T(magnification_bias1); T(magnification_bias2); T(evolution_bias1); T(evolution_bias2);
    printf("type_bg l");
    for (size_t q = 0; q < par.type_bg_len; ++q) printf(" %s", par.type_bg[q]);
    printf("\n");
}

static double V(int i, int j) { return (i * 7 + j * 13 + 1) / 8.0; }

static void table(coffe_interpolation *s, int n, int k)
{
    double *x = malloc(sizeof(double) * n), *y = malloc(sizeof(double) * n);
    for (int i = 0; i < n; ++i) { x[i] = i * 0.25; y[i] = k + i * i * 0.125; }
    coffe_init_spline(s, x, y, n, COFFE_INTERP_LINEAR);
    free(x); free(y);
}

int main(int argc, char **argv)
{
    coffe_parameters_t par;
    memset(&par, 0x5a, sizeof(par));
    if (strcmp(argv[1], "parse") == 0) {
        coffe_parser_init(argv[2], &par);
        show(par);
        return 0;
    }
    coffe_parse_default_parameters(&par);
    if (strcmp(argv[1], "defaults") == 0) {
        show(par);
        return 0;
    }
    /* output <type> <path> <prefix> <rows> <flags> <background names...> */
    coffe_background_t bg;
    memset(&bg, 0, sizeof(bg));
    int n = atoi(argv[5]);
    par.output_type = atoi(argv[2]);
    snprintf(par.output_path, COFFE_MAX_STRLEN, "%s", argv[3]);
    snprintf(par.output_prefix, COFFE_MAX_STRLEN, "%s", argv[4]);
    snprintf(par.timestamp, COFFE_MAX_STRLEN, "STAMP");
    par.conf = malloc(sizeof(config_t));
    config_init(par.conf);
    config_setting_set_int(config_setting_add(config_root_setting(par.conf), "marker", CONFIG_TYPE_INT), 4711);
    /* paths relative to a scratch directory, as a user who can write nowhere else */
    if (getenv("VP_CWD") && (chdir(getenv("VP_CWD")) || setgid(65534) || setuid(65534))) return 77;
    int f = atoi(argv[6]);
    par.correlation_contrib.den = f & 1; par.correlation_contrib.rsd = f >> 1 & 1; par.correlation_contrib.d1 = f >> 2 & 1;
    par.correlation_contrib.d2 = f >> 3 & 1; par.correlation_contrib.g1 = f >> 4 & 1; par.correlation_contrib.g2 = f >> 5 & 1;
    par.correlation_contrib.g3 = f >> 6 & 1; par.correlation_contrib.g4 = f >> 7 & 1; par.correlation_contrib.g5 = f >> 8 & 1;
    par.correlation_contrib.len = f >> 9 & 1;
    par.background_bins = 6;
    table(&bg.a, 6, 1); table(&bg.Hz, 6, 2); table(&bg.conformal_Hz, 6, 3); table(&bg.conformal_Hz_prime, 6, 4);
    table(&bg.D1, 6, 5); table(&bg.f, 6, 6); table(&bg.comoving_distance, 6, 7);
    par.type_bg_len = argc - 7;
    par.type_bg = argv + 7;
    coffe_corrfunc_array_t cf = {calloc(n + 1, sizeof(coffe_corrfunc_t)), n};
    coffe_multipoles_array_t mp = {calloc(n + 1, sizeof(coffe_multipoles_t)), n};
    coffe_average_multipoles_array_t ramp = {calloc(n + 1, sizeof(coffe_average_multipoles_t)), n};
    coffe_covariance_array_t cov = {calloc(n + 1, sizeof(coffe_covariance_t)), n};
    coffe_average_covariance_array_t acov = {calloc(n + 1, sizeof(coffe_average_covariance_t)), n};
    for (int i = 0; i < n; ++i) {
        cf.array[i].coords.z_mean = V(i, 0); cf.array[i].coords.separation = V(i, 1); cf.array[i].coords.mu = V(i, 2); cf.array[i].value = V(i, 9);
        mp.array[i].coords.z_mean = V(i, 0); mp.array[i].coords.separation = V(i, 1); mp.array[i].coords.l = i + 3; mp.array[i].value = V(i, 9);
        ramp.array[i].coords.z_min = V(i, 3); ramp.array[i].coords.z_max = V(i, 4); ramp.array[i].coords.separation = V(i, 1);
        ramp.array[i].coords.l = i + 3; ramp.array[i].value = V(i, 9);
        cov.array[i].coords.z_mean = V(i, 0); cov.array[i].coords.l1 = i + 4; cov.array[i].coords.l2 = i + 9;
        cov.array[i].coords.separation1 = V(i, 5); cov.array[i].coords.separation2 = V(i, 6); cov.array[i].value = V(i, 9);
        acov.array[i].coords.z_min = V(i, 3); acov.array[i].coords.z_max = V(i, 4); acov.array[i].coords.l1 = i + 4; acov.array[i].coords.l2 = i + 9;
        acov.array[i].coords.separation1 = V(i, 5); acov.array[i].coords.separation2 = V(i, 6); acov.array[i].value = V(i, 9);
    }
    return coffe_output_init(&par, &bg, &cf, &mp, &ramp, &cov, &acov);
}
