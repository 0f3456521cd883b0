// Analysis-only declarations of the OpenMP API used by the project.
#ifndef VERIF_STUB_OMP
#define VERIF_STUB_OMP
extern "C" {
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_num_procs(void);
void omp_set_num_threads(int); int omp_in_parallel(void); int omp_get_nested(void); void omp_set_nested(int);
int omp_get_dynamic(void); void omp_set_dynamic(int); int omp_get_max_active_levels(void); void omp_set_max_active_levels(int);
double omp_get_wtime(void); int omp_get_thread_limit(void); int omp_get_level(void);
}
#endif
