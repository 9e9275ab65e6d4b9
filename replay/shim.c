/* thin accessors around the real objects of /repo/src: fields by name, tables by name */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common.h"
#include "background.h"
#include "integrals.h"
#include "functions.h"

typedef struct { coffe_parameters_t par; coffe_background_t bg; coffe_integral_array_t in; } shim_t;

shim_t *sh_new(void)
{
    shim_t *s = calloc(1, sizeof(shim_t));
    s->par.divergent = 1;
    s->par.nthreads = 1;
    return s;
}

static double *dfield(shim_t *s, const char *n)
{
#define D(x) if (!strcmp(n, #x)) return &s->par.x;
    D(h) D(Omega0_cdm) D(Omega0_baryon) D(Omega0_m) D(Omega0_gamma) D(Omega0_de) D(w0) D(wa) D(k_min) D(k_max) D(k_min_norm) D(k_max_norm)
    D(inv_k_window) D(window_size)
    return NULL;
}

static int *ifield(shim_t *s, const char *n)
{
#define I(x) if (!strcmp(n, #x)) return (int *)&s->par.x;
    I(output_type) I(b_derivative) I(f_derivative) I(b_tilde_derivative) I(f_tilde_derivative) I(only_cross_correlations)
    I(flatsky_local) I(flatsky_local_nonlocal) I(flatsky_nonlocal) I(divergent) I(pk_type) I(midpoint_approximation) I(nthreads)
    I(integration_method) I(integration_bins) I(background_bins) I(bessel_bins) I(interp_method) I(have_window)
    I(correlation_contrib.den) I(correlation_contrib.rsd) I(correlation_contrib.d1) I(correlation_contrib.d2) I(correlation_contrib.g1)
    I(correlation_contrib.g2) I(correlation_contrib.g3) I(correlation_contrib.len) I(correlation_contrib.g4) I(correlation_contrib.g5)
    return NULL;
}

int sh_d(shim_t *s, const char *n, double v) { double *p = dfield(s, n); if (!p) return 1; *p = v; return 0; }
int sh_i(shim_t *s, const char *n, int v) { int *p = ifield(s, n); if (!p) return 1; *p = v; return 0; }

static coffe_interpolation *table(shim_t *s, const char *n)
{
#define B(x) if (!strcmp(n, "bg." #x)) return &s->bg.x;
#define P(x) if (!strcmp(n, "par." #x)) return &s->par.x;
    B(z_as_chi) B(a) B(Hz) B(conformal_Hz) B(conformal_Hz_prime) B(D1) B(f) B(G1) B(G2) B(comoving_distance)
    P(galaxy_bias1) P(galaxy_bias2) P(galaxy_bias3) P(galaxy_bias4) P(magnification_bias1) P(magnification_bias2)
    P(evolution_bias1) P(evolution_bias2) P(power_spectrum) P(power_spectrum_norm)
    return NULL;
}

int sh_table(shim_t *s, const char *n, const double *x, const double *y, size_t len)
{
    coffe_interpolation *t = table(s, n);
    if (!t) return 1;
    coffe_free_spline(t);
    return coffe_init_spline(t, x, y, len, COFFE_INTERP_CSPLINE);
}

double sh_eval(shim_t *s, const char *n, double x)
{
    return coffe_interp_spline(table(s, n), x);
}

/* adds the integral entry and returns its index */
int sh_integral(shim_t *s, int n, int l, int sn, int sl, const double *x, const double *y, size_t len)
{
    s->in.array = realloc(s->in.array, sizeof(coffe_integral_t) * (s->in.size + 1));
    coffe_integral_t *e = &s->in.array[s->in.size];
    memset(e, 0, sizeof(*e));
    e->n = n; e->l = l; e->state_n = sn; e->state_l = sl;
    if (len) coffe_init_spline(&e->result, x, y, len, COFFE_INTERP_CSPLINE);
    return (int)s->in.size++;
}

int sh_ren(shim_t *s, int e, const double *x, size_t nx, const double *z, const double *y0)
{
    coffe_init_spline2d(&s->in.array[e].renormalization, x, x, z, nx, nx, COFFE_INTERP2D_BICUBIC);
    coffe_init_spline(&s->in.array[e].renormalization_zero_separation, x, y0, nx, COFFE_INTERP_CSPLINE);
    return 0;
}

double sh_nonint(shim_t *s, double z, double mu, double r) { return functions_nonintegrated(&s->par, &s->bg, &s->in, z, mu, r); }
double sh_single(shim_t *s, double z, double mu, double r, double x) { return functions_single_integrated(&s->par, &s->bg, &s->in, z, mu, r, x); }
double sh_double(shim_t *s, double z, double mu, double r, double x1, double x2) { return functions_double_integrated(&s->par, &s->bg, &s->in, z, mu, r, x1, x2); }
double sh_flat_ll(shim_t *s, double z, double r, int l, double x) { return functions_flatsky_lensing_lensing_multipoles(&s->par, &s->bg, &s->in, z, r, l, x); }
double sh_flat_dl(shim_t *s, double z, double r, int l) { return functions_flatsky_density_lensing_multipoles(&s->par, &s->bg, &s->in, z, r, l); }
