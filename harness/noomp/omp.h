// For the builds without OpenMP: a program that includes <omp.h> sees one thread.
#pragma once
#include <time.h>
static inline int omp_get_max_threads() { return 1; }
static inline int omp_get_num_threads() { return 1; }
static inline int omp_get_thread_num() { return 0; }
static inline int omp_get_num_procs() { return 1; }
static inline int omp_in_parallel() { return 0; }
static inline int omp_get_level() { return 0; }
static inline int omp_get_nested() { return 0; }
static inline int omp_get_thread_limit() { return 1; }
static inline void omp_set_num_threads(int) {}
static inline void omp_set_dynamic(int) {}
static inline void omp_set_nested(int) {}
static inline void omp_set_max_active_levels(int) {}
static inline double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
typedef struct { int x; } omp_lock_t;
static inline void omp_init_lock(omp_lock_t*) {}
static inline void omp_destroy_lock(omp_lock_t*) {}
static inline void omp_set_lock(omp_lock_t*) {}
static inline void omp_unset_lock(omp_lock_t*) {}
static inline int omp_test_lock(omp_lock_t*) { return 1; }
