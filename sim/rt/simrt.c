/* Deterministic scheduler over real threads.
 *
 * Exactly one simulated thread runs at a time: the one that holds the token.
 * Threads are created, joined, blocked and woken through the libc functions
 * interposed below, so Rust's std (Mutex, Condvar, park, scope, spawn) and
 * rayon run unmodified. The code under test is compiled with a coverage
 * callback on every control-flow edge, which is where a running thread can be
 * preempted. Every choice comes from one PRNG, or from a list of recorded
 * deviations from the default policy when replaying. */
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

sim_shared *sim_shm;
int sim_active;

typedef enum { T_FREE = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE } tstate;
typedef struct {
  tstate st;
  int token; /* real futex word */
  pthread_t pt;
  uint32_t *faddr;
  uint32_t fbits;
  uint64_t fseq; /* FIFO order of waiters */
  uint64_t deadline; /* sim ns, UINT64_MAX none */
  int timed_out;
  int join_target;
  uint64_t prio;
} sthread;

static sthread T[SIM_MAX_THREADS];
static int n_threads, cur;
static uint64_t tick, next_check, sleep_ns, fseq, rng_s;
static uint32_t dev_i;
static uint64_t low_prio, last_switch, pct_at[64];
static uint32_t pct_n, pct_i;
static int starve_victim;
static uint64_t starve_until;
static __thread int self_id = -1;
static pthread_key_t end_key;

long sim_raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

uint64_t sim_rand(void) {
  uint64_t z = (rng_s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void mix(uint64_t *h, uint64_t v) {
  *h = (*h ^ v) * 0x100000001b3ull;
  *h ^= *h >> 29;
}
void sim_log(uint64_t v) { if (sim_shm) mix(&sim_shm->trace_hash, v); }

static uint64_t now_ns(void) { return tick + sleep_ns; }

static void flush_results(void) {
  sim_shm->ticks = tick;
  sim_shm->sim_ns = now_ns();
  sim_shm->n_threads = n_threads;
  sim_shm->mem_peak = (uint64_t)sim_mem_peak();
}

_Noreturn void sim_die(uint32_t status, const char *msg) {
  if (sim_shm) {
    if (sim_shm->status == ST_RUNNING) {
      sim_shm->status = status;
      strncpy(sim_shm->msg, msg, SIM_MSG - 1);
    }
    flush_results();
  }
  sim_active = 0;
  for (;;) sim_raw(SYS_exit_group, 90 + status, 0, 0, 0, 0, 0);
}

/* ---- real parking ---- */
static void park_real(int id) {
  while (__atomic_load_n(&T[id].token, __ATOMIC_ACQUIRE) == 0)
    sim_raw(SYS_futex, (long)&T[id].token, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[id].token, 0, __ATOMIC_RELAXED);
}
static void give(int id) {
  __atomic_store_n(&T[id].token, 1, __ATOMIC_RELEASE);
  sim_raw(SYS_futex, (long)&T[id].token, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

/* ---- decisions ---- */
static uint64_t quantum(void) {
  uint64_t m = sim_shm->quantum;
  if (m == 0) return UINT64_MAX / 4;
  /* roughly exponential: mean m */
  uint64_t r = sim_rand();
  int k = __builtin_clzll((r >> 8) | 1) - 8; /* geometric */
  uint64_t span = m << (k > 6 ? 6 : (k < 0 ? 0 : k));
  return 1 + (sim_rand() % (span + 1)) / 2;
}
static void rearm(void) {
  uint64_t n = sim_shm->max_ticks;
  switch (sim_shm->strategy) {
  case STRAT_LIST:
    while (dev_i < sim_shm->n_dev && sim_shm->dev[dev_i].tick < tick + 1) dev_i++;
    if (dev_i < sim_shm->n_dev && sim_shm->dev[dev_i].tick < n) n = sim_shm->dev[dev_i].tick;
    break;
  case STRAT_RANDOM:
  case STRAT_STARVE: {
    uint64_t q = tick + quantum();
    if (q < n) n = q;
    break;
  }
  case STRAT_PCT:
    if (pct_i < pct_n && pct_at[pct_i] < n) n = pct_at[pct_i];
    if (last_switch + 4000000 < n) n = last_switch + 4000000; /* fairness against spinning */
    break;
  case STRAT_BLOCK:
    if (last_switch + 4000000 < n) n = last_switch + 4000000;
    break;
  }
  if (n <= tick) n = tick + 1;
  next_check = n;
}
static void record(uint32_t kind, uint32_t arg) {
  if (sim_shm->n_rec >= SIM_MAX_DEV) { sim_shm->rec_overflow = 1; return; }
  sim_dev *d = &sim_shm->rec[sim_shm->n_rec++];
  d->tick = tick; d->kind = kind; d->arg = arg;
}
/* a recorded deviation for this very tick, or -1 */
static int listed(uint32_t kind) {
  if (sim_shm->strategy != STRAT_LIST) return -1;
  for (uint32_t i = dev_i ? dev_i - 1 : 0; i < sim_shm->n_dev && sim_shm->dev[i].tick <= tick; i++)
    if (sim_shm->dev[i].tick == tick && sim_shm->dev[i].kind == kind) return (int)sim_shm->dev[i].arg;
  return -1;
}
static int default_next(int from) {
  for (int k = 1; k <= n_threads; k++) {
    int i = (from + k) % n_threads;
    if (T[i].st == T_RUN) return i;
  }
  return -1;
}
/* Threads whose deadline has passed become runnable. Evaluated lazily, but only
 * from places whose outcome depends on it, so it is a function of the tick. */
static void expire(void) {
  uint64_t n = now_ns();
  for (int i = 0; i < n_threads; i++)
    if ((T[i].st == T_SLEEP || T[i].st == T_FUTEX) && T[i].deadline <= n) {
      if (T[i].st == T_FUTEX) { T[i].timed_out = 1; sim_shm->cnt[CNT_TIMEOUT]++; }
      T[i].st = T_RUN;
    }
}
/* can_stay: the current thread may keep running. yielding: it asked not to. */
static int choose(int can_stay, int yielding) {
  int run[SIM_MAX_THREADS], n = 0;
  expire();
  for (int i = 0; i < n_threads; i++) if (T[i].st == T_RUN && (can_stay || i != cur)) run[n++] = i;
  if (n == 0) return -1;
  int def = (can_stay && !yielding) ? cur : default_next(cur);
  int c = def;
  switch (sim_shm->strategy) {
  case STRAT_LIST: {
    int l = listed(DEV_SWITCH);
    if (l >= 0 && l < n_threads && T[l].st == T_RUN && (can_stay || l != cur)) c = l;
    break;
  }
  case STRAT_BLOCK:
    if (!can_stay || yielding || tick >= last_switch + 4000000) c = run[sim_rand() % n];
    break;
  case STRAT_RANDOM:
    c = run[sim_rand() % n];
    break;
  case STRAT_STARVE:
    c = run[sim_rand() % n];
    if (starve_victim >= 0 && tick < starve_until) {
      if (c == starve_victim && n > 1) { sim_shm->cnt[CNT_STARVED]++; do c = run[sim_rand() % n]; while (c == starve_victim); }
    } else if (sim_rand() % 8 == 0) {
      starve_victim = (int)(sim_rand() % (uint64_t)n_threads);
      starve_until = tick + 1 + sim_rand() % 20000;
    }
    break;
  case STRAT_PCT:
    if (yielding) T[cur].prio = --low_prio;
    if (can_stay && pct_i < pct_n && tick >= pct_at[pct_i]) { pct_i++; T[cur].prio = --low_prio; }
    if (can_stay && tick >= last_switch + 4000000) T[cur].prio = --low_prio;
    c = run[0];
    for (int i = 1; i < n; i++) if (T[run[i]].prio > T[c].prio) c = run[i];
    break;
  }
  if (c != def) record(DEV_SWITCH, (uint32_t)c);
  return c;
}
static void switch_to(int next, int wait) {
  int me = cur;
  if (next == me) { rearm(); return; }
  sim_shm->cnt[CNT_SWITCH]++;
  mix(&sim_shm->trace_hash, tick * 64 + (uint64_t)next);
  mix(&sim_shm->sched_hash, tick * 64 + (uint64_t)next);
  cur = next;
  last_switch = tick;
  rearm();
  give(next);
  if (wait) park_real(me);
}
static void check_cap(void) {
  if (tick >= sim_shm->max_ticks) sim_die(ST_STEPCAP, "step cap reached: no progress");
}
static void advance_time(void) {
  uint64_t best = UINT64_MAX;
  for (int i = 0; i < n_threads; i++)
    if ((T[i].st == T_SLEEP || T[i].st == T_FUTEX) && T[i].deadline < best) best = T[i].deadline;
  if (best == UINT64_MAX) sim_die(ST_DEADLOCK, "deadlock: every thread is blocked");
  if (best > now_ns()) sleep_ns += best - now_ns();
}
/* the current thread cannot run: pick another, advancing time if needed */
static void block_here(void) {
  for (;;) {
    int n = choose(0, 0);
    if (n >= 0) { switch_to(n, 1); return; }
    if (T[cur].st == T_RUN) { rearm(); return; } /* its own deadline passed */
    advance_time();
  }
}
static void decide(int yielding) {
  check_cap();
  int n = choose(1, yielding);
  if (n != cur) { if (!yielding) sim_shm->cnt[CNT_PREEMPT]++; switch_to(n, 1); }
  else rearm();
}
void sim_point(void) {
  if (!sim_active) return;
  if (++tick >= next_check) decide(0);
}
/* a point where a switch is particularly interesting */
static void sync_point(void) {
  ++tick;
  int s = sim_shm->strategy;
  if (tick >= next_check || s == STRAT_PCT || s == STRAT_LIST || (s != STRAT_BLOCK && sim_rand() % 3 == 0)) decide(0);
}
void sim_sleep(uint64_t ns) {
  if (!sim_active) return;
  ++tick;
  check_cap();
  sim_shm->cnt[CNT_SLEEP]++;
  T[cur].st = T_SLEEP;
  T[cur].deadline = now_ns() + ns;
  int me = cur;
  block_here();
  T[me].deadline = UINT64_MAX;
}

/* ---- coverage callbacks: ticks ---- */
static uint32_t n_edges;
uint32_t sim_edges(void) { return n_edges; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++n_edges;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  if (!sim_active) return;
  sim_shm->cov[*guard & (SIM_COV - 1)] = 1;
  if (++tick >= next_check) decide(0);
}
extern char __executable_start[];
void __sanitizer_cov_trace_pc(void) {
  if (!sim_active) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)__executable_start;
  sim_shm->cov[(pc * 0x9E3779B1u >> 8) & (SIM_COV - 1)] = 1;
  if (++tick >= next_check) decide(0);
}

/* every load and store of the code under test, in the fine-grained variants */
#define FINE(n) \
  void __sanitizer_cov_load##n(void *a) { (void)a; sim_point(); } \
  void __sanitizer_cov_store##n(void *a) { (void)a; sim_point(); }
FINE(1) FINE(2) FINE(4) FINE(8) FINE(16)

uint8_t baokeshed_sim_cpu_level(void) { return sim_shm ? (uint8_t)sim_shm->cpu_level : 255; }

/* ---- comparison routines whose time depends on the contents ----
 * Defined here so that code which leaves a comparison to the C library is
 * charged for the bytes looked at, while sim_timed is set. */
int sim_timed;
uint64_t sim_ticks(void) { return tick; }
static void charge(size_t looked) { if (sim_timed) tick += 1 + looked; }
__attribute__((optimize("no-tree-loop-distribute-patterns")))
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t u, v;
    __builtin_memcpy(&u, x + i, 8);
    __builtin_memcpy(&v, y + i, 8);
    if (u != v) break;
  }
  for (; i < n; i++)
    if (x[i] != y[i]) { charge(i); return x[i] < y[i] ? -1 : 1; }
  charge(n);
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) __attribute__((alias("memcmp")));

/* ---- threads ---- */
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
typedef struct { void *(*fn)(void *); void *arg; int id; } start_arg;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static void thread_end(void *v) {
  intptr_t n = (intptr_t)v;
  /* Run after every other thread-specific destructor. */
  if (n < 3) { pthread_setspecific(end_key, (void *)(n + 1)); return; }
  if (!sim_active || self_id < 0) return;
  ++tick;
  T[self_id].st = T_DONE;
  for (int i = 0; i < n_threads; i++)
    if (T[i].st == T_JOIN && T[i].join_target == self_id) T[i].st = T_RUN;
  self_id = -1;
  for (;;) {
    int nx = choose(0, 0);
    if (nx >= 0) { switch_to(nx, 0); return; }
    advance_time();
  }
}
static void *thread_main(void *p) {
  start_arg a = *(start_arg *)p;
  __libc_free(p);
  self_id = a.id;
  park_real(a.id);
  pthread_setspecific(end_key, (void *)1);
  return a.fn(a.arg);
}
static uint32_t create_seq;
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!sim_active) return real_create(t, at, fn, arg);
  create_seq++;
  if (sim_shm->tfail_from && create_seq >= sim_shm->tfail_from && create_seq - sim_shm->tfail_from < sim_shm->tfail_count) {
    sim_point();
    sim_shm->cnt[CNT_T_FAIL]++;
    sim_log(7000 + create_seq);
    return EAGAIN;
  }
  int id = n_threads;
  if (n_threads == SIM_MAX_THREADS) { /* take the place of one that is gone */
    for (id = 1; id < n_threads && !(T[id].st == T_DONE && T[id].pt == 0); id++) {}
    if (id == n_threads) sim_die(ST_HARNESS, "too many threads");
  }
  start_arg *a = __libc_malloc(sizeof *a);
  a->fn = fn; a->arg = arg; a->id = id;
  memset(&T[id], 0, sizeof T[id]);
  T[id].deadline = UINT64_MAX;
  int r = real_create(t, at, thread_main, a);
  if (r) { __libc_free(a); return r; }
  T[id].pt = *t;
  T[id].st = T_RUN;
  T[id].prio = (1ull << 40) + (sim_shm->strategy == STRAT_PCT ? sim_rand() % (1ull << 30) : 0);
  if (id == n_threads) n_threads++;
  sim_shm->cnt[CNT_THREADS]++;
  sync_point();
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (sim_active) {
    for (int i = n_threads - 1; i > 0; i--)
      if (T[i].st != T_FREE && T[i].pt == t) {
        ++tick;
        check_cap();
        if (T[i].st != T_DONE) {
          T[cur].st = T_JOIN;
          T[cur].join_target = i;
          block_here();
        }
        T[i].pt = 0;
        break;
      }
  }
  return real_join(t, ret);
}
int sched_yield(void) {
  if (!sim_active) return (int)sim_raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  ++tick;
  sim_shm->cnt[CNT_YIELD]++;
  decide(1);
  return 0;
}
static int do_nanosleep(const struct timespec *ts) {
  sim_sleep((uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec);
  return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  if (!sim_active) { long r = sim_raw(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  return do_nanosleep(ts);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
  if (!sim_active) return (int)-sim_raw(SYS_clock_nanosleep, c, fl, (long)ts, (long)rem, 0, 0);
  if (fl & TIMER_ABSTIME) {
    uint64_t at = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec, n = now_ns();
    if (at > n) sim_sleep(at - n);
    return 0;
  }
  return do_nanosleep(ts);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!sim_active) { long r = sim_raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  uint64_t n = now_ns();
  ts->tv_sec = (time_t)(n / 1000000000ull);
  ts->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!sim_shm) { long r = sim_raw(SYS_getrandom, (long)buf, (long)n, fl, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return r; }
  static uint64_t s = 0x1234567;
  for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; ((uint8_t *)buf)[i] = (uint8_t)(s >> 56); }
  return (ssize_t)n;
}

/* ---- futex ---- */
static long do_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *addr2, uint32_t val3) {
  (void)addr2;
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    ++tick;
    check_cap();
    sim_shm->cnt[CNT_FUTEX_WAIT]++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    int spur = 0;
    if (sim_shm->strategy == STRAT_LIST) spur = listed(DEV_SPURIOUS) >= 0;
    else if (sim_shm->spurious_pm && sim_rand() % 1000 < sim_shm->spurious_pm) { spur = 1; record(DEV_SPURIOUS, 0); }
    if (spur) {
      /* the kernel may return without a matching wake */
      sim_shm->cnt[CNT_SPURIOUS]++;
      decide(1);
      return -EINTR;
    }
    int me = cur;
    T[me].st = T_FUTEX;
    T[me].faddr = addr;
    T[me].fbits = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
    T[me].fseq = fseq++;
    T[me].timed_out = 0;
    T[me].deadline = UINT64_MAX;
    if (ts) {
      uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
      T[me].deadline = cmd == FUTEX_WAIT_BITSET ? t : now_ns() + t;
    }
    block_here();
    T[me].deadline = UINT64_MAX;
    return T[me].timed_out ? -ETIMEDOUT : 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bits = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
    long woken = 0;
    sim_shm->cnt[CNT_FUTEX_WAKE]++;
    expire();
    while (woken < (long)val) {
      int w[SIM_MAX_THREADS], n = 0, first = -1;
      for (int i = 0; i < n_threads; i++)
        if (T[i].st == T_FUTEX && T[i].faddr == addr && (T[i].fbits & bits)) {
          w[n++] = i;
          if (first < 0 || T[i].fseq < T[first].fseq) first = i;
        }
      if (n == 0) break;
      int c = first;
      ++tick;
      if (n > 1 && (long)val < n) {
        if (sim_shm->strategy == STRAT_LIST) {
          int l = listed(DEV_WAKE);
          for (int i = 0; i < n; i++) if (w[i] == l) c = l;
        } else {
          c = w[sim_rand() % (uint64_t)n];
          if (c != first) record(DEV_WAKE, (uint32_t)c);
        }
      }
      T[c].st = T_RUN;
      T[c].timed_out = 0;
      woken++;
    }
    sync_point();
    return woken;
  }
  sim_die(ST_HARNESS, "unsupported futex operation");
}

__attribute__((weak)) long simvfs_statx(int dirfd, const char *path, int flags, unsigned mask, void *buf, int *handled) {
  (void)dirfd; (void)path; (void)flags; (void)mask; (void)buf;
  *handled = 0;
  return 0;
}

__attribute__((weak)) int simvfs_changes(long n, long a, long b, long c, long d) {
  (void)n; (void)a; (void)b; (void)c; (void)d;
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  long r;
  int handled = 0;
  if (n == SYS_futex && sim_active && self_id >= 0) r = do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
  else if (n == SYS_getrandom && sim_shm) return getrandom((void *)a, (size_t)b, (unsigned)c);
  else if (n == SYS_statx && sim_shm && ((r = simvfs_statx((int)a, (const char *)b, (int)c, (unsigned)d, (void *)e, &handled)), handled)) {}
  else if (simvfs_changes(n, a, b, c, d)) r = -EROFS;
  else r = sim_raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ---- start ---- */
void sim_start(sim_shared *s) {
  sim_shm = s;
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  static int have_key;
  if (!have_key) { pthread_key_create(&end_key, thread_end); have_key = 1; }
  memset(T, 0, sizeof T);
  n_threads = 1;
  cur = 0;
  self_id = 0;
  create_seq = 0;
  tick = 0; sleep_ns = 0; fseq = 0; dev_i = 0; last_switch = 0;
  rng_s = s->seed;
  starve_victim = -1;
  starve_until = 0;
  low_prio = 1ull << 39;
  T[0].st = T_RUN;
  T[0].pt = pthread_self();
  T[0].deadline = UINT64_MAX;
  T[0].prio = (1ull << 40) + (s->strategy == STRAT_PCT ? sim_rand() % (1ull << 30) : 0);
  pct_n = 0; pct_i = 0;
  if (s->strategy == STRAT_PCT) {
    pct_n = s->pct_depth > 64 ? 64 : s->pct_depth;
    for (uint32_t i = 0; i < pct_n; i++) pct_at[i] = 1 + sim_rand() % (s->pct_len + 1);
    for (uint32_t i = 1; i < pct_n; i++)
      for (uint32_t j = i; j && pct_at[j] < pct_at[j - 1]; j--) { uint64_t x = pct_at[j]; pct_at[j] = pct_at[j - 1]; pct_at[j - 1] = x; }
  }
  sim_active = 1;
  rearm();
}
void sim_stop(void) {
  flush_results();
  sim_active = 0;
}
