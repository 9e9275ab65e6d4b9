/* the real covariance over a fixed quadrature rule and a stand-in FFTlog (linked with --wrap) */
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "common.h"
#include "background.h"
#include "covariance.h"
#include "twobessel.h"

#define NQ 12
static double qx[NQ], qw[NQ], C[8];
void cv_rule(const double *x, const double *w, const double *c) { memcpy(qx, x, sizeof qx); memcpy(qw, w, sizeof qw); memcpy(C, c, sizeof C); }

static double rule(double (*f)(double, void *), void *p, double a, double b)
{
    double s = 0;
    for (int i = 0; i < NQ; ++i) s += qw[i]*f(a + (b - a)*qx[i], p);
    return s*(b - a);
}
double __wrap_coffe_integrate_1d_prec_gsl(double (*f)(double, void *), const void *p, const double a, const double b, const double prec)
{ (void)prec; return rule(f, (void *)p, a, b); }
double __wrap_coffe_integrate_1d_prec_double_exponential(double (*f)(double, void *), const void *p, const double a, const double b, const double prec)
{ (void)prec; return rule(f, (void *)p, a, b); }

void __wrap_two_sph_bessel(double *k1, double *k2, double **fk, long N1, long N2, config *cf, double *r1, double *r2, double **res)
{
    double d = 0, off = 0;
    for (long i = 0; i < N1; ++i) for (long j = 0; j < N2; ++j){
        if (i == j) d += fk[i][j]/pow(k1[i], 3)*(i + 1); else off += fabs(fk[i][j]);
    }
    const double e = d/N1 + 1e3*off + (k1[1] - k2[1]);
    for (long i = 0; i < N1; ++i) r1[i] = exp(log(60.)*i/(N1 - 1));
    for (long j = 0; j < N2; ++j) r2[j] = 0.9*exp(log(60.)*j/(N2 - 1));
    for (long i = 0; i < N1; ++i) for (long j = 0; j < N2; ++j)
        res[i][j] = e*(C[0] + C[1]*(1 + cf->l1)*r1[i] + C[1]*(1 + cf->l2)*r2[j] + C[2]*(1 + cf->l1*cf->l2)*r1[i]*r2[j]) + C[3]*(cf->nu1 - cf->nu2)
            + C[4]*(1 + cf->l1)*r1[i]*r1[i]*0;
}

static coffe_parameters_t par; static coffe_background_t bg;
static coffe_interpolation *tab(int i)
{
    coffe_interpolation *t[] = {&par.power_spectrum, &par.power_spectrum_norm, &par.galaxy_bias1, &par.galaxy_bias2, &par.galaxy_bias3,
        &par.galaxy_bias4, &bg.f, &bg.D1, &bg.comoving_distance, &bg.conformal_Hz};
    return t[i];
}
void cv_tab(int i, double *x, double *y, int n, int method) { coffe_init_spline(tab(i), x, y, n, method); }
double cv_interp(int i, double x) { return coffe_interp_spline(tab(i), x); }

/* ints: averages method pk win den rsd poisson mixed cosmic p1..p4 threads type bins nz nl ns; reals: h kmin kmax knmin knmax */
long cv_run(const int *f, const double *r, double *z, double *zmin, double *zmax, double *dz, double *d1, double *d2, double *px, double *fsky,
    int *l, double *sep, double *out)
{
    par.output_type = f[0] ? COVARIANCE_AVERAGE_MULTIPOLES : COVARIANCE_MULTIPOLES;
    par.covariance_integration_method = f[1] ? COFFE_COVARIANCE_INTEGRATION_FFTLOG : COFFE_COVARIANCE_INTEGRATION_STANDARD;
    par.pk_type = f[2]; par.covariance_window = f[3]; par.correlation_contrib.den = f[4]; par.correlation_contrib.rsd = f[5];
    par.covariance_poisson = f[6]; par.covariance_mixed = f[7]; par.covariance_cosmic = f[8];
    par.covariance_pop1 = f[9]; par.covariance_pop2 = f[10]; par.covariance_pop3 = f[11]; par.covariance_pop4 = f[12];
    par.nthreads = f[13]; par.integration_1d_type = f[14] ? COFFE_INTEGRATION_GSL : COFFE_INTEGRATION_DOUBLE_EXPONENTIAL;
    par.covariance_integration_bins = f[15];
    const int nz = f[16];
    par.z_mean_len = f[0] ? 0 : nz; par.zmin_len = par.zmax_len = nz;
    par.density1_len = par.density2_len = par.pixelsize_len = par.fsky_len = par.deltaz_len = nz;
    par.multipole_values_len = f[17]; par.sep_len = f[18];
    par.covariance_interpolation_method = COFFE_INTERP2D_BICUBIC; par.interp_method = COFFE_INTERP_AKIMA;
    par.h = r[0]; par.k_min = r[1]; par.k_max = r[2]; par.k_min_norm = r[3]; par.k_max_norm = r[4];
    par.z_mean = z; par.zmin = zmin; par.zmax = zmax; par.deltaz = dz; par.density1 = d1; par.density2 = d2; par.pixelsize = px; par.fsky = fsky;
    par.multipole_values = l; par.sep = sep;
    static coffe_covariance_array_t a; static coffe_average_covariance_array_t b;
    coffe_covariance_init(&par, &bg, &a, &b);
    const long n = f[0] ? b.size : a.size;
    for (long i = 0; i < n; ++i){
        double *q = out + 7*i;
        if (f[0]){ q[0] = b.array[i].coords.z_min; q[1] = b.array[i].coords.z_max; q[2] = b.array[i].coords.l1; q[3] = b.array[i].coords.l2;
            q[4] = b.array[i].coords.separation1; q[5] = b.array[i].coords.separation2; q[6] = b.array[i].value; }
        else { q[0] = a.array[i].coords.z_mean; q[1] = 0; q[2] = a.array[i].coords.l1; q[3] = a.array[i].coords.l2;
            q[4] = a.array[i].coords.separation1; q[5] = a.array[i].coords.separation2; q[6] = a.array[i].value; }
    }
    return n;
}
