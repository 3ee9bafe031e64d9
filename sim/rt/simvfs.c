/* Virtual operating system surface of the simulated command: files, standard
 * input and standard output, with scripted short, interrupted, delayed and
 * failing system calls. Linked only into simcli. Paths not listed in the
 * scenario reach the real system (none of the command's own should). */
#define _GNU_SOURCE
#include "simrt.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/stat.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define VFD 1000
#define NOPEN 1024
typedef struct { int used; int flags; /* O_NONBLOCK, O_APPEND */ int same; /* the description a duplicate shares */ int file; uint64_t pos; uint32_t step; } ofile;
static ofile of[NOPEN];
static uint32_t wstep;
static int vfs_on;

/* what is held at once, for the checks on resources */
static uint32_t n_fd, n_map;
typedef struct { uintptr_t at; size_t len; int anon, shared; } vmapping;
static vmapping maps[4096];
static void held(uint32_t *n, uint32_t *peak) { if (++*n > *peak) *peak = *n; }
static void map_add(void *at, size_t len, int anon, int shared) {
  len = (len + 4095) & ~4095ull;
  if (anon) sim_mem_add((int64_t)len); else held(&n_map, &sim_shm->map_peak);
  for (int i = 0; i < 4096; i++) if (!maps[i].len) { maps[i].at = (uintptr_t)at; maps[i].len = len; maps[i].anon = anon; maps[i].shared = shared; return; }
}
/* (a mapping given back in part counts for what is left of it) */
static void map_del(void *at, size_t len) {
  uintptr_t a = (uintptr_t)at, e = a + ((len + 4095) & ~4095ull);
  for (int i = 0; i < 4096; i++) {
    vmapping *m = &maps[i];
    if (!m->len || m->at >= e || m->at + m->len <= a) continue;
    uintptr_t lo = m->at > a ? m->at : a, hi = m->at + m->len < e ? m->at + m->len : e;
    if (m->anon) sim_mem_add(-(int64_t)(hi - lo));
    if (lo == m->at) { m->len -= hi - lo; m->at = hi; }
    else m->len = lo - m->at;
    if (!m->len && !m->anon) n_map--;
  }
}

static long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

__attribute__((constructor)) static void init(void) {
  const char *e = getenv("SIM_SHM_FD");
  if (!e) return;
  sim_shared *s = mmap(0, sizeof(sim_shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(e), 0);
  if (s == MAP_FAILED) _exit(88);
  sim_raw(SYS_close, atoi(e), 0, 0, 0, 0, 0);
  vfs_on = 1;
  of[0].used = 1; /* standard input is file 0 */
  of[0].file = 0;
  of[0].pos = s->stdin_pos;
  sim_start(s);
}
__attribute__((destructor)) static void fini(void) { if (vfs_on && sim_active) sim_stop(); }

/* The command is not to change anything. What it tries is refused, as on a
 * read-only disk by an unprivileged user, and noted. */
static void note(const char *what, const char *on) {
  if (!vfs_on || !sim_active || sim_shm->effect[0]) return;
  snprintf(sim_shm->effect, sizeof sim_shm->effect, "%s %s", what, on ? on : "");
}
static const char *fdname(int fd);
static int refuse(const char *what, const char *on, int err) { note(what, on); errno = err; return -1; }
#define OPENS_TO_CHANGE(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)) || ((fl) & O_TMPFILE) == O_TMPFILE)

static int find(const char *p) {
  if (!vfs_on) return -1;
  for (uint32_t i = 1; i < sim_shm->n_files; i++) if (!strcmp(p, sim_shm->files[i].name)) return (int)i;
  return -1;
}
static ofile *get(int fd) {
  if (!vfs_on) return 0;
  if (fd == 0) return &of[0];
  if (fd >= VFD && fd < VFD + NOPEN && of[fd - VFD].used) return &of[of[fd - VFD].same];
  return 0;
}
static int is_dup_target(int i) {
  for (int k = 1; k < NOPEN; k++) if (k != i && of[k].used && of[k].same == i) return 1;
  return 0;
}
static long v_open(int fi) {
  sim_vfile *f = &sim_shm->files[fi];
  sim_point();
  sim_shm->cnt[CNT_V_OPEN]++;
  sim_mem_late = 1;
  if (f->open_err) { f->fired |= 1; sim_shm->cnt[CNT_V_OPEN_ERR]++; sim_log(1000 + (uint64_t)f->open_err); return -f->open_err; }
  for (int i = 1; i < NOPEN; i++) if (!of[i].used && !is_dup_target(i)) {
    memset(&of[i], 0, sizeof of[i]);
    of[i].used = 1;
    of[i].same = i;
    of[i].file = fi;
    held(&n_fd, &sim_shm->fd_peak);
    return VFD + i;
  }
  return -EMFILE;
}
/* n bytes of a file's content from pos on */
static void content(sim_vfile *f, uint64_t pos, uint8_t *to, uint64_t n) {
  const uint8_t *c = sim_shm->content + f->off;
  if (!f->period) { memcpy(to, c + pos, n); return; }
  while (n) {
    uint64_t i = pos % f->period, k = f->period - i < n ? f->period - i : n;
    memcpy(to, c + i, k);
    to += k; pos += k; n -= k;
  }
}
/* a periodic file (the period is whole pages) takes address space only */
static void map_periodic(sim_vfile *f, uint64_t off, uint8_t *at, uint64_t len) {
  static int fd = -1;
  static uint64_t made;
  if (fd < 0 || made != f->off + 1) {
    fd = (int)sim_raw(SYS_memfd_create, (long)"period", 0, 0, 0, 0, 0);
    sim_raw(SYS_ftruncate, fd, (long)f->period, 0, 0, 0, 0);
    long w = sim_raw(SYS_mmap, 0, (long)f->period, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (fd < 0 || (w < 0 && w > -4096)) sim_die(ST_HARNESS, "period");
    memcpy((void *)w, sim_shm->content + f->off, f->period);
    made = f->off + 1;
  }
  while (len) {
    uint64_t i = off % f->period, k = f->period - i < len ? f->period - i : len;
    long r = sim_raw(SYS_mmap, (long)at, (long)k, PROT_READ, MAP_SHARED | MAP_FIXED, fd, (long)i);
    if (r < 0 && r > -4096) sim_die(ST_HARNESS, "map period");
    at += k; off += k; len -= k;
  }
}
/* the memory in use at every nth call, with n doubled when there is no room */
static void sample(void) {
  static uint64_t calls;
  sim_shared *s = sim_shm;
  if (!s->sample_every) s->sample_every = 1;
  if (++calls % s->sample_every) return;
  if (s->n_samples == SIM_SAMPLES) {
    for (int i = 0; i < SIM_SAMPLES / 2; i++) s->samples[i] = s->samples[2 * i + 1];
    s->n_samples = SIM_SAMPLES / 2;
    s->sample_every *= 2;
    if (calls % s->sample_every) return;
  }
  s->samples[s->n_samples++] = (uint64_t)sim_mem_live();
}
static long v_read(ofile *o, void *buf, size_t n) {
  sim_vfile *f = &sim_shm->files[o->file];
  sim_point();
  sim_shm->cnt[CNT_V_READ]++;
  sim_mem_late = 1;
  if (f->kind == 3) { f->fired |= 8; sim_shm->cnt[CNT_V_READ_ERR]++; return -EISDIR; }
  sample();
  size_t cap = f->rcap && f->rcap < n ? f->rcap : n;
  while (o->step < f->n_script) {
    sim_step *s = &sim_shm->steps[f->script + o->step];
    o->step++;
    if (s->kind == STEP_DELAY) { sim_shm->cnt[CNT_V_READ_DELAY]++; sim_sleep(s->arg); continue; }
    if (s->kind == STEP_ERR) {
      sim_log(2000 + s->arg);
      if (s->arg != EINTR) f->fired |= 8;
      sim_shm->cnt[s->arg == EINTR ? CNT_V_READ_EINTR : CNT_V_READ_ERR]++;
      return -(long)s->arg;
    }
    if (s->arg < cap) cap = s->arg;
    break;
  }
  uint64_t avail = f->len > o->pos ? f->len - o->pos : 0;
  size_t k = cap < avail ? cap : (size_t)avail;
  if (k && o->pos + k > f->bad) {
    if (o->pos >= f->bad) { f->fired |= 8; sim_shm->cnt[CNT_V_BAD]++; sim_log(2000 + EIO); return -EIO; }
    k = (size_t)(f->bad - o->pos);
  }
  if (k < n && k < avail) sim_shm->cnt[CNT_V_READ_SHORT]++;
  content(f, o->pos, buf, k);
  o->pos += k;
  sim_log(3000 + k);
  return (long)k;
}
static long v_write(int fd, const void *buf, size_t n) {
  sim_point();
  if (fd == 2) {
    for (size_t i = 0; i < n; i++) if (sim_shm->err_total < SIM_ERR_CAP) sim_shm->err[sim_shm->err_total++] = ((const uint8_t *)buf)[i];
    return (long)n;
  }
  sim_shm->cnt[CNT_V_WRITE]++;
  sample();
  size_t cap = n;
  if (n && sim_shm->out_total >= sim_shm->wfail_at) { sim_shm->cnt[CNT_V_WRITE_ERR]++; return -(long)sim_shm->wfail_errno; }
  while (wstep < sim_shm->n_wscript) {
    sim_step *s = &sim_shm->steps[sim_shm->wscript + wstep];
    wstep++;
    if (s->kind == STEP_DELAY) { sim_shm->cnt[CNT_V_WRITE_DELAY]++; sim_sleep(s->arg); continue; }
    if (s->kind == STEP_ERR) {
      sim_shm->cnt[s->arg == EINTR ? CNT_V_WRITE_EINTR : CNT_V_WRITE_ERR]++;
      return -(long)s->arg;
    }
    if (s->arg < cap) cap = s->arg;
    break;
  }
  if (cap == 0 && n) cap = 1;
  if (sim_shm->wfail_at - sim_shm->out_total < cap) cap = sim_shm->wfail_at - sim_shm->out_total;
  if (cap < n) sim_shm->cnt[CNT_V_WRITE_SHORT]++;
  for (size_t i = 0; i < cap; i++) {
    if (sim_shm->out_total < SIM_OUT_CAP) sim_shm->out[sim_shm->out_total] = ((const uint8_t *)buf)[i];
    sim_shm->out_total++;
  }
  sim_log(4000 + cap);
  return (long)cap;
}
static void fill_statx(sim_vfile *f, struct statx *x) {
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS;
  x->stx_blksize = 4096;
  x->stx_nlink = 1;
  static const uint16_t m[] = {0100644, 0010644, 0020666, 0040755, 0060660};
  x->stx_mode = m[f->kind < 5 ? f->kind : 0];
  x->stx_size = f->stat_len;
  x->stx_ino = 77;
}
static void fill_stat(sim_vfile *f, struct stat *x) {
  memset(x, 0, sizeof *x);
  static const uint16_t m[] = {0100644, 0010644, 0020666, 0040755, 0060660};
  x->st_mode = m[f->kind < 5 ? f->kind : 0];
  x->st_size = (off_t)f->stat_len;
  x->st_blksize = 4096;
  x->st_nlink = 1;
  x->st_ino = 77;
}
static sim_vfile *stat_target(int fd, const char *path, long *err) {
  sim_vfile *f = 0;
  *err = 0;
  if (!vfs_on) return 0;
  if (path && path[0]) {
    int i = find(path);
    if (i < 0) return 0;
    f = &sim_shm->files[i];
    if (f->open_err) { f->fired |= 1; *err = -f->open_err; return f; }
  } else {
    ofile *o = get(fd);
    if (!o) return 0;
    f = &sim_shm->files[o->file];
  }
  sim_point();
  if (f->stat_err) { f->fired |= 2; sim_shm->cnt[CNT_V_STAT_ERR]++; *err = -f->stat_err; }
  return f;
}

/* ---- interposed libc ---- */
long simvfs_statx(int dirfd, const char *path, int flags, unsigned mask, void *buf, int *handled) {
  (void)flags; (void)mask;
  long err;
  sim_vfile *f = stat_target(dirfd, path, &err);
  *handled = f != 0;
  if (!f) return 0;
  if (!err) fill_statx(f, buf);
  return err;
}
int statx(int dirfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf) {
  int h;
  long r = simvfs_statx(dirfd, path, flags, mask, buf, &h);
  if (!h) r = sim_raw(SYS_statx, dirfd, (long)path, flags, mask, (long)buf, 0);
  return (int)ret(r);
}
int fstat(int fd, struct stat *b) {
  long err;
  sim_vfile *f = stat_target(fd, 0, &err);
  if (!f) return (int)ret(sim_raw(SYS_fstat, fd, (long)b, 0, 0, 0, 0));
  if (!err) fill_stat(f, b);
  return (int)ret(err);
}
int fstat64(int fd, struct stat64 *b) { return fstat(fd, (struct stat *)b); }
int stat(const char *restrict p, struct stat *restrict b) {
  long err;
  sim_vfile *f = stat_target(-1, p, &err);
  if (!f) return (int)ret(sim_raw(SYS_stat, (long)p, (long)b, 0, 0, 0, 0));
  if (!err) fill_stat(f, b);
  return (int)ret(err);
}
int stat64(const char *restrict p, struct stat64 *restrict b) { return stat(p, (struct stat *)b); }
int lstat(const char *restrict p, struct stat *restrict b) { return stat(p, b); }
int lstat64(const char *restrict p, struct stat64 *restrict b) { return stat(p, (struct stat *)b); }

static int open_any(int dirfd, const char *p, int fl, mode_t m) {
  int i = find(p);
  if (vfs_on && OPENS_TO_CHANGE(fl)) {
    if (strcmp(p, "/dev/null") && strcmp(p, "/dev/tty")) return refuse(fl & (O_CREAT | O_TRUNC) ? "open to create or truncate" : "open for writing", p, i >= 0 ? EACCES : EROFS);
  }
  if (i >= 0) return (int)ret(v_open(i));
  return (int)ret(sim_raw(SYS_openat, dirfd, (long)p, fl, m, 0, 0));
}
#define OPEN_MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { OPEN_MODE return open_any(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPEN_MODE return open_any(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { OPEN_MODE return open_any(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPEN_MODE return open_any(d, p, fl, m); }
int close(int fd) {
  if (vfs_on && fd >= VFD && fd < VFD + NOPEN) { sim_point(); if (of[fd - VFD].used) n_fd--; of[fd - VFD].used = 0; return 0; }
  return (int)ret(sim_raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
/* The standard descriptors are shared with whoever started the command: their
 * status is not the command's to change. Nor is a lock on an input. */
static const char *std_name(int fd) { return fd == 0 ? "standard input" : fd == 1 ? "standard output" : "standard error"; }
static int v_fcntl(int fd, int cmd, long arg) {
  ofile *o = get(fd);
  if (cmd == F_SETFL && vfs_on && sim_active && (o == &of[0] || fd == 1 || fd == 2)) {
    const int status = O_NONBLOCK | O_APPEND | O_ASYNC | O_DIRECT;
    long now = o ? o->flags : sim_raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0, 0);
    if (now >= 0 && (now & status) != (arg & status)) note("change the status of", std_name(o ? 0 : fd));
  }
  if (o && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_SETLEASE)) { note("lock", fdname(fd)); return 0; }
  if (!o) return (int)ret(sim_raw(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
  switch (cmd) {
  case F_GETFD: return FD_CLOEXEC;
  case F_GETFL: return O_RDONLY | o->flags;
  case F_SETFL: o->flags = (int)arg & (O_NONBLOCK | O_APPEND); return 0;
  case F_SETFD: return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC:
    for (int i = 1; i < NOPEN; i++) if (!of[i].used && !is_dup_target(i)) {
      of[i].used = 1;
      of[i].same = (int)(o - of);
      held(&n_fd, &sim_shm->fd_peak);
      return VFD + i;
    }
    errno = EMFILE;
    return -1;
  }
  errno = EINVAL;
  return -1;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
  if (req == FIONBIO && a) return v_fcntl(fd, F_SETFL, *(int *)a ? O_NONBLOCK : 0);
  if (get(fd)) {
    if (req == FIOCLEX || req == FIONCLEX) return 0;
    if (req == TCSETS || req == TCSETSW || req == TCSETSF) note("change the terminal", std_name(fd));
    errno = ENOTTY;
    return -1;
  }
  return (int)ret(sim_raw(SYS_ioctl, fd, (long)req, (long)a, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return v_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return v_fcntl(fd, cmd, a); }
int dup(int fd) { return get(fd) ? v_fcntl(fd, F_DUPFD, 0) : (int)ret(sim_raw(SYS_dup, fd, 0, 0, 0, 0, 0)); }
/* Reading never blocks for ever here: an input is always ready. */
int poll(struct pollfd *p, nfds_t n, int timeout) {
  struct pollfd real[16];
  int ready = 0, others = 0;
  if (n > 16) { errno = EINVAL; return -1; }
  for (nfds_t i = 0; i < n; i++) {
    real[i] = p[i];
    p[i].revents = 0;
    if (get(p[i].fd)) {
      real[i].fd = -1;
      p[i].revents = p[i].events & (POLLIN | POLLRDNORM);
      ready += p[i].revents != 0;
    } else if (p[i].fd >= 0) others++;
  }
  if (others || !ready) {
    if (!others && timeout < 0) timeout = 0;
    long r = sim_raw(SYS_poll, (long)real, (long)n, ready ? 0 : timeout, 0, 0, 0);
    if (r < 0) return (int)ret(r);
    for (nfds_t i = 0; i < n; i++) if (real[i].fd >= 0) p[i].revents = real[i].revents;
    ready += (int)r;
  }
  return ready;
}
ssize_t read(int fd, void *b, size_t n) {
  ofile *o = get(fd);
  if (o) return ret(v_read(o, b, n));
  return ret(sim_raw(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  ofile *o = get(fd);
  if (!o) return ret(sim_raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return ret(v_read(o, v[i].iov_base, v[i].iov_len));
  return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
  ofile *o = get(fd);
  if (!o) return ret(sim_raw(SYS_pread64, fd, (long)b, (long)n, off, 0, 0));
  uint64_t save = o->pos;
  o->pos = (uint64_t)off;
  long r = v_read(o, b, n);
  o->pos = save;
  return ret(r);
}
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
ssize_t write(int fd, const void *b, size_t n) {
  if (vfs_on && (fd == 1 || fd == 2)) return ret(v_write(fd, b, n));
  if (get(fd)) return refuse("write to", sim_shm->files[get(fd)->file].name, EBADF);
  return ret(sim_raw(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (get(fd)) return refuse("write to", sim_shm->files[get(fd)->file].name, EBADF);
  if (!(vfs_on && (fd == 1 || fd == 2))) return ret(sim_raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
  long t = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    long r = v_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : ret(r);
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
off64_t lseek64(int fd, off64_t off, int wh) {
  ofile *o = get(fd);
  if (!o) return ret(sim_raw(SYS_lseek, fd, off, wh, 0, 0, 0));
  sim_vfile *f = &sim_shm->files[o->file];
  if (f->kind != 0 && f->kind != 4) return ret(-ESPIPE);
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : wh == SEEK_END ? (int64_t)f->len : -1;
  if (base < 0 || base + off < 0) return ret(-EINVAL);
  o->pos = (uint64_t)(base + off);
  return (off64_t)o->pos;
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int posix_fadvise(int fd, off_t o, off_t l, int a) { if (get(fd)) return 0; return (int)-sim_raw(SYS_fadvise64, fd, o, l, a, 0, 0); }
int posix_fadvise64(int fd, off64_t o, off64_t l, int a) { return posix_fadvise(fd, o, l, a); }
void *mmap64(void *addr, size_t len, int prot, int flags, int fd, off64_t off) {
  ofile *o = (flags & MAP_ANONYMOUS) ? 0 : get(fd);
  if (!o) {
    long r = sim_raw(SYS_mmap, (long)addr, (long)len, prot, flags, fd, off);
    if (vfs_on && (flags & MAP_ANONYMOUS) && prot != PROT_NONE && !(r < 0 && r > -4096)) {
      map_del((void *)r, len);
      map_add((void *)r, len, 1, 0);
    }
    return (void *)ret(r);
  }
  sim_vfile *f = &sim_shm->files[o->file];
  sim_point();
  sim_shm->cnt[CNT_V_MMAP]++;
  if (f->mmap_err) { f->fired |= 4; sim_shm->cnt[CNT_V_MMAP_ERR]++; sim_log(5000 + (uint64_t)f->mmap_err); return (void *)ret(-f->mmap_err); }
  if (f->kind != 0 && f->kind != 4) return (void *)ret(-ENODEV);
  if (len == 0 || (off & 4095)) return (void *)ret(-EINVAL);
  if ((prot & PROT_WRITE) && (flags & MAP_TYPE) != MAP_PRIVATE) { refuse("map for writing", f->name, EACCES); return MAP_FAILED; }
  if (f->len > f->stat_len) sim_shm->cnt[CNT_V_GROW]++;
  size_t pages = (len + 4095) & ~4095ull;
  if (pages > (1ull << 40)) return (void *)ret(-ENOMEM);
  long r = sim_raw(SYS_mmap, 0, (long)(pages + 4096), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (r < 0 && r > -4096) return (void *)ret(r);
  /* pages of the file that exist; beyond them access faults, as SIGBUS would */
  uint64_t avail = (uint64_t)off < f->len ? f->len - (uint64_t)off : 0;
  uint64_t have = avail < len ? avail : len;
  uint64_t filepages = (avail + 4095) & ~4095ull;
  uint64_t map = filepages < pages ? filepages : pages;
  if (map && f->period) {
    if (f->period & 4095) sim_die(ST_HARNESS, "period");
    map_periodic(f, (uint64_t)off, (uint8_t *)r, map);
  } else if (map) {
    sim_raw(SYS_mprotect, r, (long)map, PROT_READ | PROT_WRITE, 0, 0, 0);
    /* the rest of the last page shows more of the file if it is longer */
    uint64_t fillb = avail < map ? avail : map;
    memcpy((void *)r, sim_shm->content + f->off + off, fillb);
    sim_raw(SYS_mprotect, r, (long)map, prot, 0, 0, 0);
    uint64_t good = f->bad > (uint64_t)off ? f->bad - (uint64_t)off : 0;
    if (good < map) {
      /* touching a page that can't be read is SIGBUS */
      long e = sim_raw(SYS_memfd_create, (long)"bad", 0, 0, 0, 0, 0);
      long w = sim_raw(SYS_mmap, r + (long)good, (long)(map - good), prot, MAP_SHARED | MAP_FIXED, e, 0);
      if (e < 0 || (w < 0 && w > -4096)) sim_die(ST_HARNESS, "bad pages");
      sim_raw(SYS_close, e, 0, 0, 0, 0, 0);
      f->fired |= 16;
      sim_shm->cnt[CNT_V_BAD]++;
    }
  }
  f->mapped++;
  map_add((void *)r, len, 0, (flags & MAP_TYPE) != MAP_PRIVATE);
  sim_log(6000 + have);
  return (void *)r;
}
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return mmap64(addr, len, prot, flags, fd, off); }
int munmap(void *at, size_t len) {
  if (vfs_on) { sim_point(); map_del(at, len); }
  return (int)ret(sim_raw(SYS_munmap, (long)at, (long)len, 0, 0, 0, 0));
}
/* The command copies between descriptors only through read and write here. */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (get(a)) return ret(-ENOSYS);
  return ret(sim_raw(SYS_copy_file_range, a, (long)b, c, (long)d, (long)e, f));
}
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (get(a)) return ret(-EINVAL);
  return ret(sim_raw(SYS_splice, a, (long)b, c, (long)d, (long)e, f));
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
  if (get(b)) return ret(-EINVAL);
  return ret(sim_raw(SYS_sendfile, a, b, (long)o, (long)n, 0, 0));
}
int mprotect(void *at, size_t len, int prot) {
  if (vfs_on && (prot & PROT_WRITE))
    for (int i = 0; i < 4096; i++)
      if (maps[i].len && !maps[i].anon && maps[i].shared && maps[i].at < (uintptr_t)at + len && (uintptr_t)at < maps[i].at + maps[i].len)
        return refuse("make writable the mapping of an input", 0, EACCES);
  return (int)ret(sim_raw(SYS_mprotect, (long)at, (long)len, prot, 0, 0, 0));
}

/* ---- everything else that would change something ---- */
static const char *fdname(int fd) { return get(fd) ? sim_shm->files[get(fd)->file].name : "a descriptor"; }
int creat(const char *p, mode_t m) { (void)m; return refuse("creat", p, EROFS); }
int creat64(const char *p, mode_t m) { (void)m; return refuse("creat", p, EROFS); }
int mkstemp(char *t) { return refuse("mkstemp", t, EROFS); }
int mkstemp64(char *t) { return refuse("mkstemp", t, EROFS); }
int mkostemp(char *t, int f) { (void)f; return refuse("mkostemp", t, EROFS); }
int mkostemp64(char *t, int f) { (void)f; return refuse("mkostemp", t, EROFS); }
FILE *tmpfile(void) { refuse("tmpfile", 0, EROFS); return 0; }
FILE *tmpfile64(void) { refuse("tmpfile", 0, EROFS); return 0; }
char *mkdtemp(char *t) { refuse("mkdtemp", t, EROFS); return 0; }
int unlink(const char *p) { return refuse("unlink", p, EROFS); }
int unlinkat(int d, const char *p, int f) { (void)d; (void)f; return refuse("unlinkat", p, EROFS); }
int remove(const char *p) { return refuse("remove", p, EROFS); }
int rename(const char *a, const char *b) { (void)b; return refuse("rename", a, EROFS); }
int renameat(int d, const char *a, int e, const char *b) { (void)d; (void)e; (void)b; return refuse("rename", a, EROFS); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { (void)d; (void)e; (void)b; (void)f; return refuse("rename", a, EROFS); }
int link(const char *a, const char *b) { (void)b; return refuse("link", a, EROFS); }
int linkat(int d, const char *a, int e, const char *b, int f) { (void)d; (void)e; (void)b; (void)f; return refuse("link", a, EROFS); }
int symlink(const char *a, const char *b) { (void)a; return refuse("symlink", b, EROFS); }
int symlinkat(const char *a, int d, const char *b) { (void)a; (void)d; return refuse("symlink", b, EROFS); }
int mkdir(const char *p, mode_t m) { (void)m; return refuse("mkdir", p, EROFS); }
int mkdirat(int d, const char *p, mode_t m) { (void)d; (void)m; return refuse("mkdir", p, EROFS); }
int rmdir(const char *p) { return refuse("rmdir", p, EROFS); }
int mkfifo(const char *p, mode_t m) { (void)m; return refuse("mkfifo", p, EROFS); }
int mknod(const char *p, mode_t m, dev_t d) { (void)m; (void)d; return refuse("mknod", p, EROFS); }
int chmod(const char *p, mode_t m) { (void)m; return refuse("chmod", p, EPERM); }
int fchmod(int fd, mode_t m) { (void)m; return refuse("fchmod", fdname(fd), EPERM); }
int fchmodat(int d, const char *p, mode_t m, int f) { (void)d; (void)m; (void)f; return refuse("chmod", p, EPERM); }
int chown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return refuse("chown", p, EPERM); }
int lchown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return refuse("chown", p, EPERM); }
int fchown(int fd, uid_t u, gid_t g) { (void)u; (void)g; return refuse("fchown", fdname(fd), EPERM); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { (void)d; (void)u; (void)g; (void)f; return refuse("chown", p, EPERM); }
int utimensat(int d, const char *p, const struct timespec *t, int f) { (void)t; (void)f; return refuse("set the times of", p ? p : fdname(d), EPERM); }
int futimens(int fd, const struct timespec *t) { (void)t; return refuse("set the times of", fdname(fd), EPERM); }
struct timeval; struct utimbuf;
int utimes(const char *p, const struct timeval *t) { (void)t; return refuse("set the times of", p, EPERM); }
int futimes(int fd, const struct timeval *t) { (void)t; return refuse("set the times of", fdname(fd), EPERM); }
int utime(const char *p, const struct utimbuf *t) { (void)t; return refuse("set the times of", p, EPERM); }
int truncate(const char *p, off_t n) { (void)n; return refuse("truncate", p, EROFS); }
int truncate64(const char *p, off64_t n) { (void)n; return refuse("truncate", p, EROFS); }
int ftruncate(int fd, off_t n) { if (!vfs_on) return (int)ret(sim_raw(SYS_ftruncate, fd, n, 0, 0, 0, 0)); return refuse("truncate", fdname(fd), EINVAL); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int m, off_t o, off_t n) { (void)m; (void)o; (void)n; return refuse("allocate space for", fdname(fd), EBADF); }
int fallocate64(int fd, int m, off64_t o, off64_t n) { (void)m; (void)o; (void)n; return refuse("allocate space for", fdname(fd), EBADF); }
int posix_fallocate(int fd, off_t o, off_t n) { (void)o; (void)n; note("allocate space for", fdname(fd)); return EBADF; }
int posix_fallocate64(int fd, off64_t o, off64_t n) { (void)o; (void)n; note("allocate space for", fdname(fd)); return EBADF; }
int access(const char *p, int m) {
  if (vfs_on && (m & W_OK)) { errno = EROFS; return -1; }
  struct stat st;
  if (find(p) >= 0) return stat(p, &st);
  return (int)ret(sim_raw(SYS_faccessat, AT_FDCWD, (long)p, m, 0, 0, 0));
}
char *realpath(const char *restrict p, char *restrict out) {
  struct stat st;
  if (find(p) < 0) {
    char *(*real)(const char *, char *) = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
    return real ? real(p, out) : 0;
  }
  if (stat(p, &st)) return 0;
  if (!out) out = malloc(4096);
  return out ? strcpy(out, p) : 0;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { (void)b; (void)n; (void)o; return fd == 1 || fd == 2 ? (errno = ESPIPE, -1) : refuse("write to", fdname(fd), EBADF); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { (void)v; (void)c; return pwrite(fd, 0, 0, o); }
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) { (void)v; (void)c; return pwrite(fd, 0, 0, o); }
int setxattr(const char *p, const char *n, const void *v, size_t s, int f) { (void)n; (void)v; (void)s; (void)f; return refuse("set an attribute of", p, EROFS); }
int lsetxattr(const char *p, const char *n, const void *v, size_t s, int f) { (void)n; (void)v; (void)s; (void)f; return refuse("set an attribute of", p, EROFS); }
int fsetxattr(int fd, const char *n, const void *v, size_t s, int f) { (void)n; (void)v; (void)s; (void)f; return refuse("set an attribute of", fdname(fd), EROFS); }
int flock(int fd, int op) { if (get(fd)) { if (op != 8 /* LOCK_UN */) note("lock", fdname(fd)); return 0; } return (int)ret(sim_raw(SYS_flock, fd, op, 0, 0, 0, 0)); }
int socket(int a, int b, int c) { (void)a; (void)b; (void)c; return refuse("socket", 0, EPERM); }
pid_t fork(void) { return refuse("fork", 0, EAGAIN); }
int execve(const char *p, char *const *a, char *const *e) { (void)a; (void)e; return refuse("execve", p, EPERM); }
int execvp(const char *p, char *const *a) { (void)a; return refuse("execvp", p, EPERM); }
int execv(const char *p, char *const *a) { (void)a; return refuse("execv", p, EPERM); }
int posix_spawn(pid_t *r, const char *p, const void *fa, const void *at, char *const *a, char *const *e) { (void)r; (void)fa; (void)at; (void)a; (void)e; note("posix_spawn", p); return EPERM; }
int posix_spawnp(pid_t *r, const char *p, const void *fa, const void *at, char *const *a, char *const *e) { (void)r; (void)fa; (void)at; (void)a; (void)e; note("posix_spawn", p); return EPERM; }
int system(const char *c) { return refuse("system", c, EPERM); }
int kill(pid_t p, int s) { (void)s; (void)p; return refuse("kill", 0, EPERM); }
int simvfs_changes(long n, long a, long b, long c, long d) {
  (void)d;
  const char *what = 0, *on = 0;
  switch (n) {
  case SYS_openat: if (!OPENS_TO_CHANGE(c)) return 0; what = "open for writing"; on = (const char *)b; break;
  case SYS_open: if (!OPENS_TO_CHANGE(b)) return 0; what = "open for writing"; on = (const char *)a; break;
  case SYS_pwrite64: case SYS_write: case SYS_writev: case SYS_pwritev: case SYS_ftruncate: case SYS_fallocate: case SYS_fchmod: case SYS_fchown: case SYS_fsetxattr:
    if (!get((int)a)) return 0;
    what = "change"; on = fdname((int)a); break;
  case SYS_utimensat: what = "set the times of"; on = b ? (const char *)b : fdname((int)a); break;
  case SYS_unlink: case SYS_rename: case SYS_link: case SYS_mkdir: case SYS_rmdir: case SYS_chmod: case SYS_chown: case SYS_truncate: case SYS_creat: case SYS_setxattr:
    what = "change"; on = (const char *)a; break;
  case SYS_unlinkat: case SYS_renameat: case SYS_renameat2: case SYS_linkat: case SYS_mkdirat: case SYS_fchmodat: case SYS_fchownat:
    what = "change"; on = (const char *)b; break;
  case SYS_flock: if (!get((int)a) || b == 8) return 0; what = "lock"; on = fdname((int)a); break;
  case SYS_symlink: case SYS_symlinkat: what = "symlink"; break;
  case SYS_socket: what = "socket"; break;
  case SYS_fork: case SYS_vfork: case SYS_execve: case SYS_execveat: what = "another program"; break;
  default: return 0;
  }
  note(what, on);
  return 1;
}
