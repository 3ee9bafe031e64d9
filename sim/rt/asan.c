/* Byte-exact bounds checks for the "asan" variants.
 *
 * The code under test is compiled with AddressSanitizer's instrumentation, but
 * not its runtime, which would fight the simulator over threads and memory.
 * This is a small one: it maps the shadow, answers the callbacks, and reports
 * a bad access as a violation. Stack and global variables are laid out with
 * red zones by the compiler; inputs, outputs and hashers get theirs from
 * sim/src/guard.rs. Everything else counts as accessible. */
#define _GNU_SOURCE
#include "simrt.h"
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define SHADOW 0x7fff8000ul
#define SHADOW_END 0x10007fff8000ul
#define ABOVE __attribute__((visibility("default"), used))

int sim_asan_on;
static uint8_t *sh(uintptr_t a) { return (uint8_t *)((a >> 3) + SHADOW); }

ABOVE void __asan_init(void) {
  if (sim_asan_on) return;
  void *p = mmap((void *)SHADOW, SHADOW_END - SHADOW, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)SHADOW) { fprintf(stderr, "no room for the shadow\n"); _exit(97); }
  sim_asan_on = 1;
}
ABOVE void __asan_version_mismatch_check_v8(void) {}
ABOVE int __asan_option_detect_stack_use_after_return = 0;

/* Marks [a, a + n) as out of bounds; a partial granule at its start keeps its
 * first bytes accessible. */
void sim_asan_poison(void *p, size_t n) {
  if (!sim_asan_on || n == 0) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  if (a & 7) { *sh(a) = (uint8_t)(a & 7); a = (a | 7) + 1; }
  e &= ~7ul;
  if (e > a) memset(sh(a), 0xfa, (e - a) >> 3);
}
/* Marks exactly [a, a + n) as accessible, within memory poisoned before. */
void sim_asan_allow(void *p, size_t n) {
  if (!sim_asan_on || n == 0) return;
  uintptr_t a = (uintptr_t)p & ~7ul, e = (uintptr_t)p + n;
  memset(sh(a), 0, (e - a) >> 3);
  if (e & 7) *sh(e) = (uint8_t)(e & 7);
}
static void clear(uintptr_t a, uintptr_t e) {
  a &= ~7ul;
  if (e > a) memset(sh(a), 0, (e - a + 7) >> 3);
}
/* Frames that were left by unwinding keep their red zones until this. */
ABOVE void sim_asan_clear_stack(void) {
  if (!sim_asan_on) return;
  static __thread uintptr_t top;
  if (!top) {
    pthread_attr_t at;
    void *lo;
    size_t n;
    if (pthread_getattr_np(pthread_self(), &at)) return;
    pthread_attr_getstack(&at, &lo, &n);
    pthread_attr_destroy(&at);
    top = (uintptr_t)lo + n;
  }
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  clear(sp - (256 << 10), top);
}
ABOVE void __asan_handle_no_return(void) { sim_asan_clear_stack(); }

static __attribute__((noinline)) void bad(uintptr_t a, size_t n, const char *what, uintptr_t at) {
  if (!sim_active) return;
  char m[256];
  uint8_t s = 0;
  for (uintptr_t x = a; x < a + n && !s; x++) s = *sh(x) >= 0x80 || (x & 7) >= *sh(x) ? *sh(x) : 0;
  const char *where = s == 0xf9 ? "a global" : s == 0xf8 ? "a variable out of scope" : s >= 0xf1 && s <= 0xf5 ? "the stack" :
                      s == 0xfa || s < 8 ? "an input, output or hasher" : "memory";
  (void)at;
  snprintf(m, sizeof m, "containment|a %s of %lu bytes goes outside its bounds, next to %s", what, (unsigned long)n, where);
  sim_die(ST_VIOLATION, m);
}
static inline int poisoned(uintptr_t a, size_t n) {
  if (a >> 47) return 0;
  /* the last byte of each granule touched decides, in order */
  uintptr_t e = a + n;
  while (a < e) {
    uint8_t s = *sh(a);
    uintptr_t g = (a | 7) + 1;
    if (s && (s >= 0x80 || (((g < e ? g : e) - 1) & 7) >= s)) return 1;
    a = g;
  }
  return 0;
}
#define CHECK(a, n, what) do { if (__builtin_expect(poisoned((uintptr_t)(a), n), 0)) bad((uintptr_t)(a), n, what, (uintptr_t)__builtin_return_address(0)); } while (0)
#define ACC(n) \
  ABOVE void __asan_load##n(uintptr_t a) { CHECK(a, n, "load"); } \
  ABOVE void __asan_store##n(uintptr_t a) { CHECK(a, n, "store"); } \
  ABOVE void __asan_load##n##_noabort(uintptr_t a) { CHECK(a, n, "load"); } \
  ABOVE void __asan_store##n##_noabort(uintptr_t a) { CHECK(a, n, "store"); } \
  ABOVE void __asan_report_load##n(uintptr_t a) { bad(a, n, "load", 0); } \
  ABOVE void __asan_report_store##n(uintptr_t a) { bad(a, n, "store", 0); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
ABOVE void __asan_loadN(uintptr_t a, size_t n) { CHECK(a, n, "load"); }
ABOVE void __asan_storeN(uintptr_t a, size_t n) { CHECK(a, n, "store"); }
ABOVE void __asan_report_load_n(uintptr_t a, size_t n) { bad(a, n, "load", 0); }
ABOVE void __asan_report_store_n(uintptr_t a, size_t n) { bad(a, n, "store", 0); }
ABOVE void *__asan_memcpy(void *d, const void *s, size_t n) { CHECK(s, n, "load"); CHECK(d, n, "store"); return memcpy(d, s, n); }
ABOVE void *__asan_memmove(void *d, const void *s, size_t n) { CHECK(s, n, "load"); CHECK(d, n, "store"); return memmove(d, s, n); }
ABOVE void *__asan_memset(void *d, int c, size_t n) { CHECK(d, n, "store"); return memset(d, c, n); }

#define SET(x) ABOVE void __asan_set_shadow_##x(uint8_t *a, size_t n) { memset(a, 0x##x, n); }
SET(00) SET(01) SET(02) SET(03) SET(04) SET(05) SET(06) SET(07) SET(f1) SET(f2) SET(f3) SET(f5) SET(f8)
ABOVE void __asan_poison_stack_memory(uintptr_t a, size_t n) { sim_asan_poison((void *)a, n); }
ABOVE void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { sim_asan_allow((void *)a, n); }
ABOVE void __asan_alloca_poison(uintptr_t a, size_t n) { (void)a; (void)n; }
ABOVE void __asan_allocas_unpoison(uintptr_t a, uintptr_t b) { if (a && b > a) clear(a, b); }

typedef struct { uintptr_t beg, size, size_rz, name, module, dyn, loc, odr; } global;
static void globals(global *g, size_t n) {
  __asan_init();
  for (size_t i = 0; i < n; i++) {
    if (!g[i].beg || g[i].size_rz <= g[i].size) continue;
    uintptr_t a = g[i].beg + g[i].size, e = g[i].beg + g[i].size_rz;
    if (a & 7) { *sh(a) = (uint8_t)(a & 7); a = (a | 7) + 1; }
    if (e > a) memset(sh(a), 0xf9, (e - a) >> 3);
  }
}
ABOVE void __asan_register_globals(void *g, size_t n) { globals(g, n); }
ABOVE void __asan_unregister_globals(void *g, size_t n) { (void)g; (void)n; }
ABOVE void __asan_register_elf_globals(uintptr_t *flag, void *start, void *stop) {
  if (*flag || !start) return;
  *flag = 1;
  globals(start, (size_t)((char *)stop - (char *)start) / sizeof(global));
}
ABOVE void __asan_unregister_elf_globals(uintptr_t *flag, void *start, void *stop) { (void)flag; (void)start; (void)stop; }
ABOVE void __asan_before_dynamic_init(const char *m) { (void)m; }
ABOVE void __asan_after_dynamic_init(void) {}
