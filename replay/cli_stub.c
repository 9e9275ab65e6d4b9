/* stand-ins for the library: the main program is linked to these, and they print who is called with what */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "common.h"
static FILE *rec(void) { static FILE *f; if (!f) f = fopen(getenv("CLI_RECORD"), "w"); return f; }
#define R(...) do { fprintf(rec(), __VA_ARGS__); fflush(rec()); } while (0)
/* the prototypes are put out of the way: only the types are wanted */
#define coffe_background_init header_coffe_background_init
#define coffe_integrals_init header_coffe_integrals_init
#define coffe_corrfunc_init header_coffe_corrfunc_init
#define coffe_multipoles_init header_coffe_multipoles_init
#define coffe_average_multipoles_init header_coffe_average_multipoles_init
#define coffe_covariance_init header_coffe_covariance_init
#define coffe_background_free header_coffe_background_free
#define coffe_integrals_free header_coffe_integrals_free
#define coffe_corrfunc_free header_coffe_corrfunc_free
#define coffe_multipoles_free header_coffe_multipoles_free
#define coffe_average_multipoles_free header_coffe_average_multipoles_free
#define coffe_covariance_free header_coffe_covariance_free
#define coffe_average_covariance_free header_coffe_average_covariance_free
#include "background.h"
#include "integrals.h"
#include "corrfunc.h"
#include "multipoles.h"
#include "average_multipoles.h"
#include "covariance.h"
#undef coffe_background_init
#undef coffe_integrals_init
#undef coffe_corrfunc_init
#undef coffe_multipoles_init
#undef coffe_average_multipoles_init
#undef coffe_covariance_init
#undef coffe_background_free
#undef coffe_integrals_free
#undef coffe_corrfunc_free
#undef coffe_multipoles_free
#undef coffe_average_multipoles_free
#undef coffe_covariance_free
#undef coffe_average_covariance_free
static void empty(void *cf, void *mp, void *ramp, void *a, void *b)
{
    R("empty %d\n", !((coffe_corrfunc_array_t *)cf)->size && !((coffe_multipoles_array_t *)mp)->size && !((coffe_average_multipoles_array_t *)ramp)->size &&
      !((coffe_covariance_array_t *)a)->size && !((coffe_average_covariance_array_t *)b)->size);
}
int coffe_parser_init(char *filename, coffe_parameters_t *par)
{
    memset(par, 0, sizeof(*par));
    par->output_type = atoi(getenv("CLI_TYPE"));
    par->nthreads = 99;
    R("parser %s %p\n", filename, (void *)par);
    return 0;
}
int coffe_background_init(coffe_parameters_t *par, void *bg) { R("empty %d\n", !((coffe_background_t *)bg)->flag); R("background %d %p %p\n", par->nthreads, (void *)par, (void *)bg); return 0; }
int coffe_integrals_init(coffe_parameters_t *par, void *bg, void *i) { R("empty %d\n", !((coffe_integral_array_t *)i)->size); R("integrals %d %p %p %p\n", par->nthreads, (void *)par, (void *)bg, (void *)i); return 0; }
int coffe_corrfunc_init(coffe_parameters_t *par, void *bg, void *i, void *o) { R("corrfunc %d %p %p %p %p\n", par->nthreads, (void *)par, (void *)bg, (void *)i, (void *)o); return 0; }
int coffe_multipoles_init(coffe_parameters_t *par, void *bg, void *i, void *o) { R("multipoles %d %p %p %p %p\n", par->nthreads, (void *)par, (void *)bg, (void *)i, (void *)o); return 0; }
int coffe_average_multipoles_init(coffe_parameters_t *par, void *bg, void *i, void *o) { R("average_multipoles %d %p %p %p %p\n", par->nthreads, (void *)par, (void *)bg, (void *)i, (void *)o); return 0; }
int coffe_covariance_init(coffe_parameters_t *par, void *bg, void *a, void *b) { R("covariance %d %p %p %p %p\n", par->nthreads, (void *)par, (void *)bg, (void *)a, (void *)b); return 0; }
int coffe_output_init(coffe_parameters_t *par, void *bg, void *cf, void *mp, void *ramp, void *a, void *b)
{ empty(cf, mp, ramp, a, b); R("output %d %p %p %p %p %p %p %p\n", par->nthreads, (void *)par, (void *)bg, (void *)cf, (void *)mp, (void *)ramp, (void *)a, (void *)b); return 0; }
int coffe_background_free(void *x) { return 0; }
int coffe_integrals_free(void *x) { return 0; }
int coffe_corrfunc_free(void *x) { return 0; }
int coffe_multipoles_free(void *x) { return 0; }
int coffe_average_multipoles_free(void *x) { return 0; }
int coffe_covariance_free(void *x) { return 0; }
int coffe_average_covariance_free(void *x) { return 0; }
int coffe_parameters_free(coffe_parameters_t *x) { return 0; }
