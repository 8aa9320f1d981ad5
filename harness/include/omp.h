#ifndef SX_OMP_H
#define SX_OMP_H
typedef struct { void *p; } omp_lock_t;
typedef struct { void *p; } omp_nest_lock_t;
extern int omp_get_num_threads(void); extern int omp_get_thread_num(void); extern int omp_get_max_threads(void); extern int omp_in_parallel(void);
extern void omp_set_num_threads(int); extern int omp_get_num_procs(void); extern double omp_get_wtime(void);
extern void omp_init_lock(omp_lock_t*); extern void omp_destroy_lock(omp_lock_t*); extern void omp_set_lock(omp_lock_t*); extern void omp_unset_lock(omp_lock_t*); extern int omp_test_lock(omp_lock_t*);
#endif
