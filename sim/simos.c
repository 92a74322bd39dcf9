/* simos: a simulated operating-system boundary, loaded with LD_PRELOAD.
 *
 * Every file-system mutation below a scratch root, the clocks and the kernel
 * entropy source pass through here.  The harness (ctypes) resets a per-process
 * plan before a simulated run; a plan says at which numbered mutation which
 * fault happens:
 *   1 KILL_BEFORE  the process dies (SIGKILL) before the operation
 *   2 KILL_AFTER   the process dies right after the operation
 *   3 TORN_KILL    a prefix of the write reaches the file, then SIGKILL
 *   4 ERRNO        the operation (and the next `span-1` mutations) fails
 *   5 SHORT        only a prefix of the write is performed and reported
 * Nothing happens outside the root, and nothing while the plan is inactive.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXEV 65536
#define MAXPLAN 16

enum { OP_CREATE = 1, OP_TRUNC, OP_WRITE, OP_RENAME, OP_UNLINK, OP_MKDIR,
       OP_FSYNC, OP_LINK, OP_RMDIR, OP_MARK, OP_OPENW };

struct ev { int32_t op; int32_t fault; int64_t size; int64_t off; char name[64]; };
struct plan { int64_t at; int32_t action; int32_t err; int64_t span; double frac; char match[64]; int64_t seen; };

static char root[PATH_MAX];
static size_t rootlen;
static int active;
static int64_t opno;
static struct ev *evs;
static int64_t nev;
static struct plan plans[MAXPLAN];
static int nplan;
static char fdname[MAXFD][64];
static int64_t faults_fired[8];

static int clock_on;
static int64_t sim_ns, sim_step;
static int64_t mono_ns;
static int rnd_on;
static uint64_t rnd_s;
static int64_t clock_reads, slept_ns, rnd_reads;

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  static inline void init_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(int, creat, const char *, mode_t)
REAL(int, creat64, const char *, mode_t)
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fopen64, const char *, const char *)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(int, ftruncate, int, off_t)
REAL(int, ftruncate64, int, off64_t)
REAL(int, rename, const char *, const char *)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, unlink, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, mkdir, const char *, mode_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, link, const char *, const char *)
REAL(int, rmdir, const char *)
REAL(int, close, int)
REAL(int, dup, int)
REAL(int, dup2, int, int)
REAL(ssize_t, sendfile, int, int, off_t *, size_t)
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, gettimeofday, struct timeval *, void *)
REAL(time_t, time, time_t *)
REAL(int, nanosleep, const struct timespec *, struct timespec *)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
REAL(ssize_t, getrandom, void *, size_t, unsigned)

static int under(const char *p, char *nm) {
  if (!rootlen || !p) return 0;
  char buf[PATH_MAX];
  if (p[0] != '/') {
    if (!getcwd(buf, sizeof buf)) return 0;
    size_t l = strlen(buf);
    if (l + 1 + strlen(p) >= sizeof buf) return 0;
    buf[l] = '/'; strcpy(buf + l + 1, p);
    p = buf;
  }
  if (strncmp(p, root, rootlen) || (p[rootlen] != '/' && p[rootlen] != 0)) return 0;
  const char *q = p + rootlen;
  while (*q == '/') q++;
  if (nm) {
    size_t l = strlen(q);
    if (l > 63) { q += l - 63; l = 63; }
    memcpy(nm, q, l); nm[l] = 0;
  }
  return 1;
}

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

static struct ev *note(int op, const char *nm, int64_t size, int64_t off) {
  if (!evs) evs = calloc(MAXEV, sizeof *evs);
  static struct ev spare;
  struct ev *e = nev < MAXEV ? &evs[nev++] : &spare;
  e->op = op; e->fault = 0; e->size = size; e->off = off;
  snprintf(e->name, sizeof e->name, "%s", nm);
  return e;
}

/* returns the plan that fires for this mutation, or NULL */
static struct plan *mutation(int op, const char *nm, int64_t size, int64_t off) {
  struct ev *e = note(op, nm, size, off);
  int64_t me = opno++;
  for (int i = 0; i < nplan; i++) {
    struct plan *p = &plans[i];
    int64_t k = me;
    if (p->match[0]) {
      if (!strstr(nm, p->match)) continue;
      k = p->seen++;
    }
    if (p->action == 4 ? (k >= p->at && k < p->at + p->span) : k == p->at) {
      e->fault = p->action;
      faults_fired[p->action & 7]++;
      return p;
    }
  }
  return 0;
}

static int isw(int flags) { return (flags & O_ACCMODE) != O_RDONLY; }

#define GATE(op, nm, size, off, fail) \
  struct plan *pl = mutation(op, nm, size, off); \
  if (pl) { if (pl->action == 1 || pl->action == 3) die(); \
            if (pl->action == 4) { errno = pl->err; return fail; } }
#define POST() if (pl && pl->action == 2) die();

static int do_open(const char *path, int flags, mode_t mode, int how, int dfd) {
  char nm[64];
  int track = 0;
  struct plan *pl = 0;
  if (active && isw(flags) && (how < 2 || path[0] == '/' || dfd == AT_FDCWD) && under(path, nm)) {
    track = 1;
    struct stat st;
    int exists = fstatat(AT_FDCWD, path, &st, 0) == 0;
    int op = !exists ? OP_CREATE : (flags & O_TRUNC) ? OP_TRUNC : OP_OPENW;
    if (op != OP_OPENW && !(exists && (flags & O_EXCL))) {
      pl = mutation(op, nm, exists ? (int64_t)st.st_size : 0, 0);
      if (pl) {
        if (pl->action == 1 || pl->action == 3) die();
        if (pl->action == 4) { errno = pl->err; return -1; }
      }
    }
  }
  int fd;
  switch (how) {
    case 0: init_open(); fd = real_open(path, flags, mode); break;
    case 1: init_open64(); fd = real_open64(path, flags, mode); break;
    case 2: init_openat(); fd = real_openat(dfd, path, flags, mode); break;
    default: init_openat64(); fd = real_openat64(dfd, path, flags, mode); break;
  }
  if (fd >= 0 && fd < MAXFD) {
    if (track) snprintf(fdname[fd], 64, "%s", nm); else fdname[fd][0] = 0;
  }
  POST();
  return fd;
}

#define VAMODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { VAMODE(); return do_open(path, flags, mode, 0, AT_FDCWD); }
int open64(const char *path, int flags, ...) { VAMODE(); return do_open(path, flags, mode, 1, AT_FDCWD); }
int openat(int dfd, const char *path, int flags, ...) { VAMODE(); return do_open(path, flags, mode, 2, dfd); }
int openat64(int dfd, const char *path, int flags, ...) { VAMODE(); return do_open(path, flags, mode, 3, dfd); }
int creat(const char *path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode, 0, AT_FDCWD); }
int creat64(const char *path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode, 1, AT_FDCWD); }

int close(int fd) { init_close(); if (fd >= 0 && fd < MAXFD) fdname[fd][0] = 0; return real_close(fd); }
int dup(int fd) { init_dup(); int r = real_dup(fd); if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) memcpy(fdname[r], fdname[fd], 64); return r; }
int dup2(int a, int b) { init_dup2(); int r = real_dup2(a, b); if (r >= 0 && r < MAXFD && a >= 0 && a < MAXFD && a != b) memcpy(fdname[r], fdname[a], 64); return r; }

static int tracked(int fd) { return active && fd >= 0 && fd < MAXFD && fdname[fd][0]; }

#define WRITEBODY(CALLN, CALLALL, off) \
  if (!tracked(fd)) return CALLALL; \
  struct plan *pl = mutation(OP_WRITE, fdname[fd], (int64_t)n, off); \
  if (pl) { \
    if (pl->action == 1) die(); \
    if (pl->action == 4) { errno = pl->err; return -1; } \
    if (pl->action == 3) { size_t m = (size_t)(n * pl->frac); if (m >= n) m = n ? n - 1 : 0; if (m) { CALLN; } die(); } \
    if (pl->action == 5) { size_t m = (size_t)(n * pl->frac); if (m >= n) m = n ? n - 1 : 0; if (!m) m = n < 1 ? n : 1; return CALLN; } \
  } \
  ssize_t r = CALLALL; POST(); return r;

ssize_t write(int fd, const void *b, size_t n) { init_write(); WRITEBODY(real_write(fd, b, m), real_write(fd, b, n), -1) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { init_pwrite(); WRITEBODY(real_pwrite(fd, b, m, o), real_pwrite(fd, b, n, o), o) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { init_pwrite64(); WRITEBODY(real_pwrite64(fd, b, m, o), real_pwrite64(fd, b, n, o), o) }
ssize_t writev(int fd, const struct iovec *v, int c) {
  init_writev();
  if (!tracked(fd)) return real_writev(fd, v, c);
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  GATE(OP_WRITE, fdname[fd], (int64_t)n, -1, -1);
  ssize_t r = real_writev(fd, v, c); POST(); return r;
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { init_sendfile(); if (!tracked(fd)) return real_sendfile(fd, in, o, n); GATE(OP_WRITE, fdname[fd], (int64_t)n, -1, -1); ssize_t r = real_sendfile(fd, in, o, n); POST(); return r; }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { init_sendfile64(); if (!tracked(fd)) return real_sendfile64(fd, in, o, n); GATE(OP_WRITE, fdname[fd], (int64_t)n, -1, -1); ssize_t r = real_sendfile64(fd, in, o, n); POST(); return r; }
ssize_t copy_file_range(int in, off64_t *io, int fd, off64_t *oo, size_t n, unsigned fl) { init_copy_file_range(); if (!tracked(fd)) return real_copy_file_range(in, io, fd, oo, n, fl); GATE(OP_WRITE, fdname[fd], (int64_t)n, -1, -1); ssize_t r = real_copy_file_range(in, io, fd, oo, n, fl); POST(); return r; }
int ftruncate(int fd, off_t n) { init_ftruncate(); if (!tracked(fd)) return real_ftruncate(fd, n); GATE(OP_TRUNC, fdname[fd], n, 0, -1); int r = real_ftruncate(fd, n); POST(); return r; }
int ftruncate64(int fd, off64_t n) { init_ftruncate64(); if (!tracked(fd)) return real_ftruncate64(fd, n); GATE(OP_TRUNC, fdname[fd], n, 0, -1); int r = real_ftruncate64(fd, n); POST(); return r; }
int fsync(int fd) { init_fsync(); if (!tracked(fd)) return real_fsync(fd); GATE(OP_FSYNC, fdname[fd], 0, 0, -1); POST(); return 0; }
int fdatasync(int fd) { init_fdatasync(); if (!tracked(fd)) return real_fdatasync(fd); GATE(OP_FSYNC, fdname[fd], 0, 0, -1); POST(); return 0; }
int rename(const char *a, const char *b) {
  init_rename(); char nm[64];
  if (!active || !under(b, nm)) return real_rename(a, b);
  GATE(OP_RENAME, nm, 0, 0, -1); int r = real_rename(a, b); POST(); return r;
}
int renameat(int da, const char *a, int db, const char *b) {
  init_renameat(); char nm[64];
  if (!active || !(b[0] == '/' || db == AT_FDCWD) || !under(b, nm)) return real_renameat(da, a, db, b);
  GATE(OP_RENAME, nm, 0, 0, -1); int r = real_renameat(da, a, db, b); POST(); return r;
}
int unlink(const char *p) { init_unlink(); char nm[64]; if (!active || !under(p, nm)) return real_unlink(p); GATE(OP_UNLINK, nm, 0, 0, -1); int r = real_unlink(p); POST(); return r; }
int unlinkat(int d, const char *p, int f) { init_unlinkat(); char nm[64]; if (!active || !(p[0] == '/' || d == AT_FDCWD) || !under(p, nm)) return real_unlinkat(d, p, f); GATE(OP_UNLINK, nm, 0, 0, -1); int r = real_unlinkat(d, p, f); POST(); return r; }
int rmdir(const char *p) { init_rmdir(); char nm[64]; if (!active || !under(p, nm)) return real_rmdir(p); GATE(OP_RMDIR, nm, 0, 0, -1); int r = real_rmdir(p); POST(); return r; }
int mkdir(const char *p, mode_t m) { init_mkdir(); char nm[64]; if (!active || !under(p, nm)) return real_mkdir(p, m); GATE(OP_MKDIR, nm, 0, 0, -1); int r = real_mkdir(p, m); POST(); return r; }
int link(const char *a, const char *b) { init_link(); char nm[64]; if (!active || !under(b, nm)) return real_link(a, b); GATE(OP_LINK, nm, 0, 0, -1); int r = real_link(a, b); POST(); return r; }

/* ---- clocks ---- */
static int is_mono(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME; }
static int is_real(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE; }
static void tick(void) { sim_ns += sim_step; mono_ns += sim_step > 0 ? sim_step : 1; clock_reads++; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  init_clock_gettime();
  if (!clock_on || !(is_mono(c) || is_real(c))) return real_clock_gettime(c, ts);
  /* the interpreter reads the monotonic clock at every lock, as often as its caches
     decide: such reads must not move the time of day */
  if (is_real(c)) tick(); else { mono_ns += 1000; clock_reads++; }
  int64_t v = is_real(c) ? sim_ns : mono_ns;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  init_gettimeofday();
  if (!clock_on) return real_gettimeofday(tv, tz);
  tick(); tv->tv_sec = sim_ns / 1000000000; tv->tv_usec = (sim_ns / 1000) % 1000000; return 0;
}
time_t time(time_t *t) {
  init_time();
  if (!clock_on) return real_time(t);
  tick(); time_t v = sim_ns / 1000000000; if (t) *t = v; return v;
}
int nanosleep(const struct timespec *r, struct timespec *m) {
  init_nanosleep();
  if (!clock_on) return real_nanosleep(r, m);
  int64_t d = r->tv_sec * 1000000000LL + r->tv_nsec; sim_ns += d; mono_ns += d; slept_ns += d; return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
  init_clock_nanosleep();
  if (!clock_on) return real_clock_nanosleep(c, f, r, m);
  int64_t v = r->tv_sec * 1000000000LL + r->tv_nsec, d = v;
  if (f & TIMER_ABSTIME) d = v - (is_real(c) ? sim_ns : mono_ns);
  if (d > 0) { sim_ns += d; mono_ns += d; slept_ns += d; }
  return 0;
}

/* ---- entropy ---- */
static uint64_t splitmix(void) { uint64_t z = (rnd_s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static void fillrnd(void *b, size_t n) { unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(splitmix() >> 24); rnd_reads++; }
ssize_t getrandom(void *b, size_t n, unsigned f) { init_getrandom(); if (!rnd_on) return real_getrandom(b, n, f); fillrnd(b, n); return n; }
int getentropy(void *b, size_t n) { if (rnd_on) { fillrnd(b, n); return 0; } init_getrandom(); return real_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

/* ---- control, called through ctypes ---- */
void simos_root(const char *p) { snprintf(root, sizeof root, "%s", p); rootlen = strlen(root); }
void simos_reset(void) { active = 0; opno = 0; nev = 0; nplan = 0; memset(plans, 0, sizeof plans); memset(faults_fired, 0, sizeof faults_fired); }
int simos_plan(int64_t at, int action, int err, int64_t span, double frac, const char *match) {
  if (nplan >= MAXPLAN) return -1;
  struct plan *p = &plans[nplan++];
  p->at = at; p->action = action; p->err = err; p->span = span; p->frac = frac; p->seen = 0;
  snprintf(p->match, sizeof p->match, "%s", match ? match : "");
  return nplan;
}
void simos_clearplan(void) { nplan = 0; }
void simos_active(int on) { active = on; }
int64_t simos_opno(void) { return opno; }
int64_t simos_nev(void) { return nev; }
struct ev *simos_events(void) { return evs; }
int64_t simos_fired(int a) { return faults_fired[a & 7]; }
void simos_mark(const char *s) { if (active) note(OP_MARK, s, opno, 0); }
void simos_clock(int on, int64_t ns, int64_t step) { clock_on = on; sim_ns = ns; sim_step = step; if (on && !mono_ns) mono_ns = 1000000000LL; }
void simos_jump(int64_t ns) { sim_ns += ns; }
int64_t simos_now(void) { return sim_ns; }
int64_t simos_slept(void) { return slept_ns; }
int64_t simos_clock_reads(void) { return clock_reads; }
void simos_entropy(int on, uint64_t seed) { rnd_on = on; rnd_s = seed; }
int64_t simos_rnd_reads(void) { return rnd_reads; }
