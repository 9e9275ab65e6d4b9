/* the real table builders over a stand-in coffe_integrate (linked with --wrap) */
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "common.h"
#include "background.h"
#include "integrals.h"
#include "corrfunc.h"
#include "multipoles.h"
#include "average_multipoles.h"
#include "signal.h"

static double K[3][3][6];
void tb_coef(const double *c) { memcpy(K, c, sizeof(K)); }

double __wrap_coffe_integrate(const coffe_parameters_t *par, const coffe_background_t *bg, const coffe_integral_array_t *in,
    const double z, const double zmin, const double zmax, const double sep, const double mu, const int l,
    const enum coffe_integral_type kind, const enum coffe_output_type out)
{
    const int k = kind == NONINTEGRATED ? 0 : kind == SINGLE_INTEGRATED ? 1 : kind == DOUBLE_INTEGRATED ? 2 : -1;
    const int o = out == CORRFUNC ? 0 : out == MULTIPOLES ? 1 : out == AVERAGE_MULTIPOLES ? 2 : -1;
    if (k < 0 || o < 0 || !par || !bg || !in) return NAN;
    const double *c = K[k][o];
    if (o == 0) return c[0] + c[1]*z + c[2]*sep*mu + c[3]*mu*mu*z + c[4]*sep*sep;
    if (o == 1) return c[0] + c[1]*z + c[2]*sep*l + c[3]*l*l*z + c[4]*sep*sep;
    return c[0] + c[1]*zmin + c[5]*zmax*zmin + c[2]*sep*l + c[3]*l*l*zmax + c[4]*sep*sep;
}

/* out: rows of coordinates (3 or 4) and the value; returns the size */
long tb_run(int which, int nz, double *z, double *zmin, double *zmax, int nm, double *mu, int nl, int *l, int ns, double *sep, int threads, int repeat, double *out)
{
    static coffe_parameters_t par; static coffe_background_t bg; static coffe_integral_array_t in;
    memset(&par, 0, sizeof par);
    par.nthreads = threads;
    par.z_mean = z; par.z_mean_len = which == 2 ? 0 : nz; par.zmin = zmin; par.zmax = zmax; par.zmin_len = nz; par.zmax_len = nz;
    par.mu = mu; par.mu_len = nm; par.multipole_values = l; par.multipole_values_len = nl; par.sep = sep; par.sep_len = ns;
    coffe_corrfunc_array_t a = {0}; coffe_multipoles_array_t b = {0}; coffe_average_multipoles_array_t c = {0};
    long n = -1;
    for (int r = 0; r < repeat; ++r){
        if (which == 0){ coffe_corrfunc_init(&par, &bg, &in, &a); n = a.size; }
        if (which == 1){ coffe_multipoles_init(&par, &bg, &in, &b); n = b.size; }
        if (which == 2){ coffe_average_multipoles_init(&par, &bg, &in, &c); n = c.size; }
        par.z_mean_len = par.z_mean_len;
    }
    for (long i = 0; i < n && out; ++i){
        double *q = out + 5*i;
        if (which == 0){ q[0] = a.array[i].coords.z_mean; q[1] = 0; q[2] = a.array[i].coords.mu; q[3] = a.array[i].coords.separation; q[4] = a.array[i].value; }
        if (which == 1){ q[0] = b.array[i].coords.z_mean; q[1] = 0; q[2] = b.array[i].coords.l; q[3] = b.array[i].coords.separation; q[4] = b.array[i].value; }
        if (which == 2){ q[0] = c.array[i].coords.z_min; q[1] = c.array[i].coords.z_max; q[2] = c.array[i].coords.l; q[3] = c.array[i].coords.separation; q[4] = c.array[i].value; }
    }
    coffe_corrfunc_free(&a); coffe_multipoles_free(&b); coffe_average_multipoles_free(&c);
    return n;
}
