/* the real background, tabulated */
#include <stdlib.h>
#include <string.h>
#include "common.h"
#include "background.h"

static coffe_parameters_t par; static coffe_background_t bg;

static coffe_interpolation *bias(int i)
{
    coffe_interpolation *t[] = {&par.galaxy_bias1, &par.galaxy_bias2, &par.magnification_bias1, &par.magnification_bias2, &par.evolution_bias1, &par.evolution_bias2};
    return t[i];
}
void bg_bias(int i, double *x, double *y, int n) { coffe_free_spline(bias(i)); coffe_init_spline(bias(i), x, y, n, COFFE_INTERP_CSPLINE); }

/* reals: cdm baryon gamma de h w0 wa; ints: bins gsl? fits? nz ns method degrees[6]; out: x and y of the ten tables */
int bg_run(const double *r, const int *f, double *z, double *sep, double *out)
{
    par.Omega0_cdm = r[0]; par.Omega0_baryon = r[1]; par.Omega0_gamma = r[2]; par.Omega0_de = r[3]; par.h = r[4]; par.w0 = r[5]; par.wa = r[6];
    par.Omega0_m = r[0] + r[1];
    par.background_bins = f[0]; par.integration_1d_type = f[1] ? COFFE_INTEGRATION_GSL : COFFE_INTEGRATION_DOUBLE_EXPONENTIAL;
    par.integration_1d_prec = 1e-7;
    par.flatsky_nonlocal = f[2]; par.z_mean = z; par.z_mean_len = f[3]; par.sep = sep; par.sep_len = f[4]; par.interp_method = f[5];
    par.degree_galaxy_bias1 = f[6]; par.degree_galaxy_bias2 = f[7]; par.degree_magnification_bias1 = f[8]; par.degree_magnification_bias2 = f[9];
    par.degree_evolution_bias1 = f[10]; par.degree_evolution_bias2 = f[11];
    coffe_background_init(&par, &bg);
    coffe_interpolation *t[] = {&bg.a, &bg.Hz, &bg.conformal_Hz, &bg.conformal_Hz_prime, &bg.D1, &bg.f, &bg.comoving_distance, &bg.G1, &bg.G2, &bg.z_as_chi};
    for (int k = 0; k < 10; ++k){
        if ((int)t[k]->spline->size != f[0]) return k + 1;
        memcpy(out + 2*k*f[0], t[k]->spline->x, f[0]*sizeof(double));
        memcpy(out + (2*k + 1)*f[0], t[k]->spline->y, f[0]*sizeof(double));
    }
    return 0;
}
double bg_eval(int k, double x)
{
    coffe_interpolation *t[] = {&bg.comoving_distance, &bg.z_as_chi};
    return coffe_interp_spline(t[k], x);
}
/* out: size degree z_min z_max coefficients */
int bg_fit(int which, int i, double *out)
{
    coffe_fit_coefficients_array_t *t[] = {&par.galaxy_bias1_coefficients, &par.galaxy_bias2_coefficients, &par.magnification_bias1_coefficients,
        &par.magnification_bias2_coefficients, &par.evolution_bias1_coefficients, &par.evolution_bias2_coefficients};
    if (i >= (int)t[which]->size) return -1;
    coffe_fit_coefficients_t *c = &t[which]->array[i];
    out[0] = c->size; out[1] = c->degree; out[2] = c->z_min; out[3] = c->z_max;
    memcpy(out + 4, c->coefficients, c->size*sizeof(double));
    return (int)t[which]->size;
}
