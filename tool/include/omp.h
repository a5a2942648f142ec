#pragma once
extern "C" {
int omp_get_num_threads(void) noexcept; int omp_get_thread_num(void) noexcept; int omp_get_max_threads(void) noexcept;
int omp_get_num_procs(void) noexcept; int omp_in_parallel(void) noexcept; void omp_set_num_threads(int) noexcept;
void omp_set_nested(int) noexcept; int omp_get_nested(void) noexcept; void omp_set_dynamic(int) noexcept; double omp_get_wtime(void) noexcept;
typedef struct { int x; } omp_lock_t;
void omp_init_lock(omp_lock_t*) noexcept; void omp_destroy_lock(omp_lock_t*) noexcept; void omp_set_lock(omp_lock_t*) noexcept; void omp_unset_lock(omp_lock_t*) noexcept; int omp_test_lock(omp_lock_t*) noexcept;
}
