/* the real tables of the integrals of the spectrum; quadrature replaced by fixed Gauss-Legendre panels */
#include <stdlib.h>
#include <string.h>
#include "common.h"
#include "background.h"
#include "integrals.h"
#include "twofast.h"

static coffe_parameters_t par; static coffe_background_t bg; static coffe_integral_array_t all;

#define PANELS 400
static const double GX[8] = {0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499};
static const double GW[8] = {0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541};
int in_nodes(double a, double b, double *x, double *w)
{
    int n = 0;
    for (int p = 0; p < PANELS; ++p)
        for (int i = 0; i < 16; ++i, ++n){
            double h = (b - a)/PANELS/2;
            x[n] = a + (2*p + 1)*h + (i < 8 ? -1 : 1)*h*GX[i % 8];
            w[n] = h*GW[i % 8];
        }
    return n;
}
double __wrap_coffe_integrate_1d_prec_gsl(double (*f)(double, void *), const void *p, const double a, const double b, const double prec)
{
    double x[16*PANELS], w[16*PANELS], s = 0;
    int n = in_nodes(a, b, x, w);
    for (int i = 0; i < n; ++i) s += w[i]*f(x[i], (void *)p);
    return s;
}
double __wrap_coffe_integrate_1d_prec_double_exponential(double (*f)(double, void *), const void *p, const double a, const double b, const double prec)
{
    return __wrap_coffe_integrate_1d_prec_gsl(f, p, a, b, prec);
}
/* reals: kmin kmax; ints: bins interp divergent local_nonlocal nonlocal output nz nmult cov_interp threads */
int in_run(double *k, double *pk, int nk, double *chi_z, double *chi, int nchi, double kmin, double kmax, const int *f, double *z, double *dz, int *mult)
{
    memset(&par, 0, sizeof par); memset(&bg, 0, sizeof bg); 
    coffe_init_spline(&par.power_spectrum_norm, k, pk, nk, COFFE_INTERP_CSPLINE);
    coffe_init_spline(&bg.comoving_distance, chi_z, chi, nchi, COFFE_INTERP_CSPLINE);
    par.k_min_norm = kmin; par.k_max_norm = kmax; par.bessel_bins = f[0]; par.interp_method = f[1]; par.divergent = f[2];
    par.flatsky_local_nonlocal = f[3]; par.flatsky_nonlocal = f[4]; par.output_type = f[5]; par.z_mean = par.zmax = z; par.deltaz = dz;
    par.z_mean_len = par.deltaz_len = par.zmax_len = f[6]; par.multipole_values = mult; par.multipole_values_len = f[7];
    par.covariance_interpolation_method = f[8]; par.nthreads = f[9];
    coffe_integrals_init(&par, &bg, &all);
    return (int)all.size;
}
int in_key(int i, int *out)
{
    out[0] = all.array[i].n; out[1] = all.array[i].l; out[2] = all.array[i].state_n; out[3] = all.array[i].state_l;
    coffe_integral_t *p = coffe_find_integral(&all, out[0], out[1], out[2], out[3]);
    return p ? (int)(p - all.array) : -1;
}
int in_find(int n, int l, int sn, int sl)
{
    coffe_integral_t *p = coffe_find_integral(&all, n, l, sn, sl);
    return p ? (int)(p - all.array) : -1;
}
int in_get(int i, int zero, double *x, double *y)
{
    coffe_interpolation *s = zero ? &all.array[i].renormalization_zero_separation : &all.array[i].result;
    if (s->spline == NULL) return 0;
    if (x){ memcpy(x, s->spline->x, s->spline->size*sizeof(double)); memcpy(y, s->spline->y, s->spline->size*sizeof(double)); }
    return (int)s->spline->size;
}
void in_pk(double *k, double *out, int n) { for (int i = 0; i < n; ++i) out[i] = coffe_interp_spline(&par.power_spectrum_norm, k[i]); }
double in_ren(int i, double a, double b) { return coffe_interp_spline2d(&all.array[i].renormalization, a, b); }
double in_chi(double z) { return coffe_interp_spline(&bg.comoving_distance, z); }
int in_free(void) { coffe_integrals_free(&all); return (int)all.size + (all.array != NULL) + (in_find(0, 0, 0, 0) != -1); }
void in_twofast(double *ox, double *oy, int n, double *ix, double *iy, int m, double l, double nu, double r0, double kmin, double kmax)
{
    twofast_1bessel(ox, oy, n, ix, iy, m, l, nu, r0, kmin, kmin, kmax, 0);
}
