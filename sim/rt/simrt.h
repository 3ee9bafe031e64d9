/* Shared layout between the simulator runtime (C), the orchestrator (Rust,
 * sim/src/shm.rs mirrors it) and the simulated process. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

#define SIM_MAX_THREADS 64
#define SIM_MAX_DEV 16384
#define SIM_COV 32768
#define SIM_NCNT 64
#define SIM_MSG 4096
#define SIM_SAMPLES 128
#define SIM_MAX_FILES 16
#define SIM_MAX_STEPS 8192
#define SIM_OUT_CAP (1u << 20)
#define SIM_ERR_CAP (1u << 16)
#define SIM_CONTENT_CAP (16u << 20)

/* A scheduling decision that differs from the default policy. */
typedef struct { uint64_t tick; uint32_t kind; uint32_t arg; } sim_dev;
enum { DEV_SWITCH = 0, DEV_WAKE = 1, DEV_SPURIOUS = 2 };

enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_DEADLOCK = 3, ST_STEPCAP = 4, ST_HARNESS = 5 };

enum { STRAT_LIST = 0, STRAT_RANDOM = 1, STRAT_PCT = 2, STRAT_STARVE = 3, STRAT_BLOCK = 4 };

/* counter indices */
enum {
  CNT_SWITCH = 0, CNT_PREEMPT, CNT_FUTEX_WAIT, CNT_FUTEX_WAKE, CNT_SPURIOUS, CNT_YIELD, CNT_THREADS,
  CNT_SLEEP, CNT_TIMEOUT, CNT_STARVED,
  /* vfs */
  CNT_V_OPEN, CNT_V_OPEN_ERR, CNT_V_STAT_ERR, CNT_V_MMAP, CNT_V_MMAP_ERR, CNT_V_READ, CNT_V_READ_SHORT,
  CNT_V_READ_EINTR, CNT_V_READ_ERR, CNT_V_READ_DELAY, CNT_V_WRITE, CNT_V_WRITE_SHORT, CNT_V_WRITE_EINTR,
  CNT_V_WRITE_ERR, CNT_V_WRITE_DELAY, CNT_V_GROW, CNT_T_FAIL, CNT_V_BAD, CNT_A_FAIL,
  CNT_FIRST_RUST = 32 /* 32.. are counted by the Rust side */
};

typedef struct {
  char name[96];
  uint32_t kind; /* 0 regular, 1 fifo, 2 char device, 3 directory, 4 block device */
  int32_t open_err, stat_err, mmap_err;
  uint64_t off, len; /* contents within the content area */
  uint64_t stat_len;
  uint32_t script, n_script; /* read steps */
  uint32_t fired; /* which failures were delivered: 1 open, 2 stat, 4 mmap, 8 read, 16 mapped with bad pages */
  uint32_t mapped; /* times mapped */
  uint64_t period; /* if not 0, the content is this many bytes, repeated */
  uint64_t rcap; /* if not 0, no read gets more than this */
  uint64_t bad; /* from here on the disk can't be read */
} sim_vfile;

enum { STEP_DATA = 0, STEP_ERR = 1, STEP_DELAY = 2 };
typedef struct { uint32_t kind; uint32_t pad; uint64_t arg; } sim_step;

typedef struct {
  /* configuration */
  uint32_t magic, cpu_level, strategy, spurious_pm;
  uint64_t seed, quantum, max_ticks, pct_len;
  uint32_t pct_depth, n_dev, n_files, n_wscript;
  uint32_t wscript, wfail_errno;
  uint32_t tfail_from, tfail_count; /* which creations of threads fail, from 1 */
  uint64_t afail_from, afail_count, afail_min; /* which allocations fail, from 1, of those of at least so many bytes, */
  uint64_t afail_late; /* and, if set, after the first input was opened or read */
  uint64_t stdin_pos; /* where in the file another program left standard input */
  uint64_t wfail_at; /* stdout fails for good once this many bytes were accepted */
  /* results */
  uint32_t status, cur_client, cur_op, n_threads;
  uint64_t ticks, sim_ns, trace_hash, sched_hash;
  uint64_t out_total, err_total;
  uint64_t mem_peak; /* of the command */
  uint32_t fd_peak, map_peak, n_samples, pad2;
  uint64_t sample_every, samples[SIM_SAMPLES]; /* of the memory in use, at reads and writes */
  uint32_t n_rec, rec_overflow, n_edges, pad1;
  uint64_t cnt[SIM_NCNT];
  char effect[160]; /* what the command tried to change, if anything */
  char msg[SIM_MSG];
  uint8_t cov[SIM_COV];
  sim_dev dev[SIM_MAX_DEV];
  sim_dev rec[SIM_MAX_DEV];
  sim_vfile files[SIM_MAX_FILES];
  sim_step steps[SIM_MAX_STEPS];
  uint8_t out[SIM_OUT_CAP];
  uint8_t err[SIM_ERR_CAP];
  uint8_t content[SIM_CONTENT_CAP];
} sim_shared;

extern sim_shared *sim_shm;
extern int sim_active;

void sim_start(sim_shared *s);
void sim_stop(void);
void sim_point(void);
void sim_sleep(uint64_t ns);
void sim_log(uint64_t v);
_Noreturn void sim_die(uint32_t status, const char *msg);
long sim_raw(long n, long a, long b, long c, long d, long e, long f);
uint64_t sim_rand(void);
void sim_mem_add(int64_t n);
int64_t sim_mem_live(void);
int64_t sim_mem_peak(void);
extern int sim_mem_late;
int simvfs_changes(long n, long a, long b, long c, long d);
long simvfs_statx(int dirfd, const char *path, int flags, unsigned mask, void *buf, int *handled);
#endif
