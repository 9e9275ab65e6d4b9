/* the real coffe_integrate over stand-in integrands and a deterministic quadrature (linked with --wrap) */
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "common.h"
#include "background.h"
#include "integrals.h"
#include "functions.h"
#include "signal.h"

typedef struct { coffe_parameters_t par; coffe_background_t bg; coffe_integral_array_t in; } shim_t;
static double C[6][8];
static double GX[12], GW[12];
static int GN;

void sg_coef(const double *c) { memcpy(C, c, sizeof(C)); }
void sg_rule(int n, const double *x, const double *w) { GN = n; for (int i = 0; i < n; ++i){ GX[i] = x[i]; GW[i] = w[i]; } }

static double poly(int k, const coffe_parameters_t *par, double z, double mu, double r, double x1, double x2)
{
    const double *c = C[k];
    return (c[0] + c[1]*mu + c[2]*mu*mu*mu + c[3]*z + c[4]*r)*(1 + c[5]*x1 + c[6]*x2*x2) + c[7]*par->h*x1*mu*mu;
}

double __wrap_functions_nonintegrated(const coffe_parameters_t *par, const coffe_background_t *bg, const coffe_integral_array_t *in, const double z, const double mu, const double r)
{ return poly(0, par, z, mu, r, 0, 0); }
double __wrap_functions_single_integrated(const coffe_parameters_t *par, const coffe_background_t *bg, const coffe_integral_array_t *in, const double z, const double mu, const double r, const double x)
{ return poly(1, par, z, mu, r, x, 0); }
double __wrap_functions_double_integrated(const coffe_parameters_t *par, const coffe_background_t *bg, const coffe_integral_array_t *in, const double z, const double mu, const double r, const double x1, const double x2)
{ return poly(2, par, z, mu, r, x1, x2); }
double __wrap_functions_flatsky_lensing_lensing_multipoles(const coffe_parameters_t *par, const coffe_background_t *bg, const coffe_integral_array_t *in, const double z, const double r, const int l, const double x)
{ return poly(3, par, z, 0.1*l, r, x, 0); }
double __wrap_functions_flatsky_density_lensing_multipoles(const coffe_parameters_t *par, const coffe_background_t *bg, const coffe_integral_array_t *in, const double z, const double r, const int l)
{ return poly(4, par, z, 0.1*l, r, 0, 0); }

double __wrap_coffe_integrate_1d_prec_gsl(double (*f)(double, void *), const void *p, double a, double b, double prec)
{
    double s = 0;
    for (int i = 0; i < GN; ++i) s += GW[i]*f(a + (b - a)*GX[i], (void *)p);
    return s*(b - a);
}
double __wrap_coffe_integrate_1d_prec_double_exponential(double (*f)(double, void *), const void *p, double a, double b, double prec)
{ return __wrap_coffe_integrate_1d_prec_gsl(f, p, a, b, prec); }
double __wrap_coffe_integrate_1d(double (*f)(double, void *), const void *p, double a, double b)
{ return __wrap_coffe_integrate_1d_prec_gsl(f, p, a, b, 0); }

double __wrap_coffe_integrate_multidimensional(double (*f)(double *, size_t, void *), const void *p, const int method, const int dims, const int bins)
{
    double s = 0, x[8];
    long n = 1;
    for (int d = 0; d < dims; ++d) n *= GN;
    for (long k = 0; k < n; ++k){
        long q = k; double w = 1;
        for (int d = 0; d < dims; ++d){ x[d] = GX[q % GN]; w *= GW[q % GN]; q /= GN; }
        s += w*f(x, dims, (void *)p);
    }
    return s;
}

double sg_integrate(shim_t *s, double z, double zmin, double zmax, double sep, double mu, int l, int kind, int out, int onedtype)
{
    s->par.integration_1d_type = onedtype;
    s->par.integration_1d_prec = 1e-5;
    s->par.integration_bins = 1000;
    static const int K[] = {NONINTEGRATED, SINGLE_INTEGRATED, DOUBLE_INTEGRATED};
    static const int O[] = {CORRFUNC, MULTIPOLES, AVERAGE_MULTIPOLES};
    return coffe_integrate(&s->par, &s->bg, &s->in, z, zmin, zmax, sep, mu, l, K[kind], O[out]);
}
