/* Declarations only: gcc's omp.h uses attributes that clang's parser rejects. */
#ifndef OMP_H_STUB
#define OMP_H_STUB
int  omp_get_max_threads(void);
int  omp_get_num_threads(void);
int  omp_get_thread_num(void);
int  omp_get_num_procs(void);
int  omp_in_parallel(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
int  omp_get_dynamic(void);
double omp_get_wtime(void);
#endif
