/* The heap: how much of it is in use, how much was at most, and allocations
 * that fail. Linked into the simulator and into the simulated command. */
#define _GNU_SOURCE
#include "simrt.h"
#include <errno.h>
#include <malloc.h>
#include <stddef.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static int64_t live, top;
static uint64_t seq;
int sim_mem_late;

void sim_mem_add(int64_t n) {
  int64_t l = __atomic_add_fetch(&live, n, __ATOMIC_RELAXED);
  if (n > 0 && l > __atomic_load_n(&top, __ATOMIC_RELAXED)) __atomic_store_n(&top, l, __ATOMIC_RELAXED);
}
int64_t sim_mem_live(void) { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
int64_t sim_mem_peak(void) { return __atomic_load_n(&top, __ATOMIC_RELAXED); }
void sim_mem_mark(void) { top = live; }

static int fails(size_t n) {
  if (!sim_active || !sim_shm->afail_from || n < sim_shm->afail_min || (sim_shm->afail_late && !sim_mem_late)) return 0;
  seq++;
  if (seq < sim_shm->afail_from || seq - sim_shm->afail_from >= sim_shm->afail_count) return 0;
  sim_shm->cnt[CNT_A_FAIL]++;
  errno = ENOMEM;
  return 1;
}
static void *got(void *p) {
  if (p) sim_mem_add((int64_t)malloc_usable_size(p));
  return p;
}
void *malloc(size_t n) { return fails(n) ? 0 : got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return fails(a * b) ? 0 : got(__libc_calloc(a, b)); }
void free(void *p) {
  if (!p) return;
  sim_mem_add(-(int64_t)malloc_usable_size(p));
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (n && fails(n)) return 0;
  int64_t old = (int64_t)malloc_usable_size(p);
  void *q = __libc_realloc(p, n);
  if (q) sim_mem_add((int64_t)malloc_usable_size(q) - old);
  else if (!n) sim_mem_add(-old);
  return q;
}
void *memalign(size_t a, size_t n) { return fails(n) ? 0 : got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) {
  if (fails(n)) return ENOMEM;
  void *p = got(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
