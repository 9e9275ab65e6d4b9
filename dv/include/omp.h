/* declarations only, for the parser (clang has no omp.h here) */
#ifndef DV_OMP_H
#define DV_OMP_H
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
double omp_get_wtime(void);
double omp_get_wtick(void);
#endif
