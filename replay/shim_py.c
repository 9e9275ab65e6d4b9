/* Stand-in for the one routine of the extension module that needs CLASS (not in this environment):
   a smooth analytic P(k) whose value depends on every parameter that the real routine hands to CLASS.
   It is the only function of the replayed library that is not /repo's. */
#include <math.h>
#include <stdlib.h>
#include "common.h"

int parse_external_power_spectrum(coffe_parameters_t *par)
{
    coffe_free_spline(&par->power_spectrum);
    coffe_free_spline(&par->power_spectrum_norm);
    const size_t n = 600;
    double *k = malloc(sizeof(double) * n), *p = malloc(sizeof(double) * n);
    const double om = par->Omega0_cdm + par->Omega0_baryon + 0.5 * par->Omega0_nu;
    const double gam = om * par->h * par->h * exp(-par->Omega0_baryon);
    double amp = (fabs(par->A_s) > 1e-10 ? par->A_s / 2.1e-9 : pow(par->sigma8 / 0.8, 2)) * 3e6;
    amp *= 1 + 0.01 * par->w0 + 0.02 * par->wa + 0.01 * par->T_cmb + 0.01 * par->N_ur + 0.01 * par->YHe
        + 0.01 * par->N_ncdm + 0.03 * par->m_ncdm + 0.02 * par->pk_type
        + 1e-3 * par->class_precision.k_per_decade_for_bao + 1e-3 * par->class_precision.k_per_decade_for_pk
        + 1e-3 * par->class_precision.start_large_k_at_tau_h_over_tau_k + 1e-4 * par->class_precision.l_max_g
        + 1e-4 * par->class_precision.l_max_ur + 1e-2 * par->class_precision.tol_perturb_integration
        + 1e-4 * par->class_precision.radiation_streaming_trigger_tau_over_tau_k
        + 1e-4 * par->class_precision.ur_fluid_trigger_tau_over_tau_k;
    const double lo = log(par->k_min) - 1e-9, hi = log(par->k_max) + 1e-9;
    for (size_t i = 0; i < n; ++i){
        k[i] = exp(lo + (hi - lo) * i / (n - 1.));
        const double q = k[i] / gam;
        const double t = log(1 + 2.34 * q) / (2.34 * q)
            * pow(1 + 3.89 * q + pow(16.1 * q, 2) + pow(5.46 * q, 3) + pow(6.71 * q, 4), -0.25);
        p[i] = amp * pow(k[i], par->n_s) * t * t;
    }
    coffe_init_spline(&par->power_spectrum, k, p, n, par->interp_method);
    coffe_init_spline(&par->power_spectrum_norm, k, p, n, par->interp_method);
    free(k);
    free(p);
    return 0;
}
