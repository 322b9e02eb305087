/* faultio: LD_PRELOAD system-call seam for the deterministic simulator.
 *
 * Tracks file descriptors opened under one root directory.  Every tracked call
 * gets a class and a running number; rules can make the Nth matching call
 * fail, come up short, tear, crash the process, call back into the
 * simulator or wait for the simulator's gate.  With no root set it does nothing
 * but forward.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { C_OPEN = 1, C_READ = 2, C_WRITE = 4, C_TRUNC = 8, C_SYNC = 16, C_CLOSE = 32,
       C_RENAME = 64, C_UNLINK = 128, C_STAT = 256, C_OPENW = 512 };
enum { A_ERR = 1, A_SHORT = 2, A_TORN_CRASH = 3, A_CRASH_BEFORE = 4, A_CRASH_AFTER = 5,
       A_CALLBACK = 6, A_GATE = 7 };

#define MAXFD 4096
#define MAXRULE 32
#define CRASH_CODE 77

struct rule { int cls; int action; long nth; long count; long arg; long seen; long fired;
              char match[256]; };

static char root[1024];
static size_t rootlen;
static char *fdpath[MAXFD];
static int fdw[MAXFD];
static struct rule rules[MAXRULE];
static int nrules;
static long counts[16];
static uint64_t loghash = 1469598103934665603ULL;
static int (*callback)(int rule, int cls, const char *path);
static int incallback;
static int gate_req = -1, gate_ack = -1;
static int logfd = -1;

#define REAL(name) static __typeof__(name) *real_##name; \
  if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static int cidx(int c) { int i = 0; while (c > 1) { c >>= 1; i++; } return i; }

static int under(const char *p, char *out)
{
  if (!rootlen || !p) return 0;
  if (p[0] != '/') {
    char cwd[1024];
    if (!getcwd(cwd, sizeof cwd)) return 0;
    snprintf(out, 2048, "%s/%s", cwd, p);
  } else
    snprintf(out, 2048, "%s", p);
  return strncmp(out, root, rootlen) == 0 && (out[rootlen] == '/' || out[rootlen] == 0);
}

static void mix(int cls, const char *p, long n)
{
  const char *q = p ? p + rootlen : "";
  loghash = (loghash ^ (uint64_t)cls) * 1099511628211ULL;
  for (; *q; q++) loghash = (loghash ^ (uint8_t)*q) * 1099511628211ULL;
  loghash = (loghash ^ (uint64_t)n) * 1099511628211ULL;
}

/* calls so far that may have changed a file */
long fio_changes;

/* returns the rule that fires for this call, or NULL */
static struct rule *step(int cls, const char *p, long n)
{
  int i;
  struct rule *hit = NULL;
  if (incallback) return NULL;
  counts[cidx(cls)]++;
  if (cls & (4 | 8 | 64 | 128 | 512)) fio_changes++;
  mix(cls, p, n);
  if (logfd >= 0) {
    char b[2300];
    int k = snprintf(b, sizeof b, "%d %ld %s\n", cls, n, p + rootlen);
    REAL(write);
    if (real_write(logfd, b, k) < 0) {}
  }
  for (i = 0; i < nrules; i++) {
    struct rule *r = &rules[i];
    if (!(r->cls & cls)) continue;
    if (r->match[0] && !strstr(p + rootlen, r->match)) continue;
    r->seen++;
    if (r->seen >= r->nth && r->seen < r->nth + r->count && !hit) { r->fired++; hit = r; }
  }
  return hit;
}

/* the generic part: 1 when the call must fail with errno set */
static int apply(struct rule *r, int cls, const char *p)
{
  if (!r) return 0;
  switch (r->action) {
  case A_ERR: errno = (int)r->arg; return 1;
  case A_CRASH_BEFORE: _exit(CRASH_CODE);
  case A_CALLBACK:
    if (callback) { int e; incallback = 1; e = callback((int)(r - rules), cls, p); incallback = 0;
      if (e > 0) { errno = e; return 1; } }
    return 0;
  case A_GATE:
    if (gate_req >= 0) {
      char c = 'g';
      int saved = errno;
      REAL(write); REAL(read);
      if (real_write(gate_req, &c, 1) != 1) _exit(78);
      if (real_read(gate_ack, &c, 1) != 1) _exit(78);
      errno = saved;
      if (c == 'k') _exit(CRASH_CODE);
    }
    return 0;
  }
  return 0;
}
static void after(struct rule *r) { if (r && r->action == A_CRASH_AFTER) _exit(CRASH_CODE); }

/* ---- control interface (ctypes) ---- */
void fio_root(const char *p)
{
  int i;
  snprintf(root, sizeof root, "%s", p ? p : "");
  rootlen = strlen(root);
  for (i = 0; i < MAXFD; i++) if (fdpath[i]) { free(fdpath[i]); fdpath[i] = NULL; fdw[i] = 0; }
}
void fio_clear(void) { nrules = 0; }
void fio_reset(void) { memset(counts, 0, sizeof counts); loghash = 1469598103934665603ULL; nrules = 0; }
int fio_rule(int cls, int action, long nth, long count, long arg, const char *match)
{
  struct rule *r;
  if (nrules >= MAXRULE) return -1;
  r = &rules[nrules];
  memset(r, 0, sizeof *r);
  r->cls = cls; r->action = action; r->nth = nth; r->count = count; r->arg = arg;
  snprintf(r->match, sizeof r->match, "%s", match ? match : "");
  return nrules++;
}
long fio_seen(int i) { return i >= 0 && i < nrules ? rules[i].seen : -1; }
long fio_fired(int i) { return i >= 0 && i < nrules ? rules[i].fired : -1; }
long fio_count(int cls) { return counts[cidx(cls)]; }
uint64_t fio_hash(void) { return loghash; }
void fio_callback(int (*cb)(int, int, const char *)) { callback = cb; }
void fio_gate(int req, int ack) { gate_req = req; gate_ack = ack; }
void fio_log(int fd) { logfd = fd; }
int fio_version(void) { return 3; }
/* open tracked descriptors, newline separated; returns how many */
int fio_open_fds(char *buf, int size)
{
  int i, n = 0, k = 0;
  buf[0] = 0;
  for (i = 0; i < MAXFD; i++) if (fdpath[i]) {
    n++;
    k += snprintf(buf + k, k < size ? (size_t)(size - k) : 0, "%d%s %s\n", i, fdw[i] ? "w" : "r", fdpath[i] + rootlen);
  }
  return n;
}

/* ---- simulated wall clock: *simclock is nanoseconds since the epoch, 0 = off.
 * It lives in memory shared by all simulated processes.  Sleeping advances it. */
static volatile int64_t *simclock;
static long nsleeps;
static int64_t slept;
void fio_clock(int64_t *p) { simclock = p; }
long fio_nsleeps(void) { return nsleeps; }
int64_t fio_slept(void) { return slept; }
#define SIMON (simclock && *simclock)
static int64_t simnow(void) { *simclock += 1000; return *simclock; }

int clock_gettime(clockid_t c, struct timespec *t)
{
  REAL(clock_gettime);
  if (SIMON && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    int64_t v = simnow(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
  return real_clock_gettime(c, t);
}
int gettimeofday(struct timeval *t, void *z)
{
  static int (*real)(struct timeval *, void *);
  if (!real) real = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
  if (SIMON && t) { int64_t v = simnow(); t->tv_sec = v / 1000000000; t->tv_usec = (v % 1000000000) / 1000; return 0; }
  return real(t, z);
}
time_t time(time_t *o)
{
  REAL(time);
  if (SIMON) { time_t v = (time_t)(simnow() / 1000000000); if (o) *o = v; return v; }
  return real_time(o);
}
static void simsleep(int64_t ns)
{
  char c = 's';
  nsleeps++; slept += ns; *simclock += ns;
  if (gate_req >= 0) {
    REAL(write); REAL(read);
    if (real_write(gate_req, &c, 1) != 1) _exit(78);
    if (real_read(gate_ack, &c, 1) != 1) _exit(78);
    if (c == 'k') _exit(CRASH_CODE);
  }
}
int fio_sleep(int64_t ns) { if (!SIMON) return 0; simsleep(ns); return 1; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem)
{
  REAL(clock_nanosleep);
  if (SIMON) {
    int64_t ns = req->tv_sec * 1000000000LL + req->tv_nsec;
    if (flags & TIMER_ABSTIME) { struct timespec n; REAL(clock_gettime); real_clock_gettime(c, &n);
      ns -= n.tv_sec * 1000000000LL + n.tv_nsec; }
    /* deterministic: the caller asked for a multiple of a microsecond a moment ago */
    ns = (ns + 999999) / 1000000 * 1000000;
    if (ns > 0) simsleep(ns);
    return 0;
  }
  return real_clock_nanosleep(c, flags, req, rem);
}
int nanosleep(const struct timespec *req, struct timespec *rem)
{
  REAL(nanosleep);
  if (SIMON) { simsleep(req->tv_sec * 1000000000LL + req->tv_nsec); return 0; }
  return real_nanosleep(req, rem);
}

/* ---- interposed calls ---- */
static int opened(int fd, const char *p, int flags)
{
  if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(p); fdw[fd] = (flags & O_ACCMODE) != O_RDONLY; }
  return fd;
}
#define OPENBODY(CALL) \
  char abs[2048]; mode_t mode = 0; int fd; struct rule *r; int cls; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  if (!under(path, abs) || (flags & O_DIRECTORY)) return CALL; \
  cls = (flags & O_ACCMODE) != O_RDONLY ? C_OPENW : C_OPEN; \
  r = step(cls, abs, 0); \
  if (apply(r, cls, abs)) return -1; \
  fd = opened(CALL, abs, flags); after(r); return fd;

int open(const char *path, int flags, ...) { REAL(open); OPENBODY(real_open(path, flags, mode)) }
int open64(const char *path, int flags, ...) { REAL(open64); OPENBODY(real_open64(path, flags, mode)) }
int openat(int dfd, const char *path, int flags, ...)
{ REAL(openat); if (path[0] != '/' && dfd != AT_FDCWD) { mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } return real_openat(dfd, path, flags, mode); }
  OPENBODY(real_openat(dfd, path, flags, mode)) }
int openat64(int dfd, const char *path, int flags, ...)
{ REAL(openat64); if (path[0] != '/' && dfd != AT_FDCWD) { mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } return real_openat64(dfd, path, flags, mode); }
  OPENBODY(real_openat64(dfd, path, flags, mode)) }

int close(int fd)
{
  REAL(close);
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
    char *p = fdpath[fd];
    struct rule *r = step(C_CLOSE, p, 0);
    int bad = apply(r, C_CLOSE, p), e = errno;
    int rc;
    fdpath[fd] = NULL; fdw[fd] = 0;
    rc = real_close(fd);
    free(p);
    if (bad) { errno = e; return -1; }   /* like Linux: the descriptor is gone */
    after(r);
    return rc;
  }
  return real_close(fd);
}

#define TRK(fd) ((fd) >= 0 && (fd) < MAXFD && fdpath[fd])
#define RDBODY(CALL, CALLN) \
  if (!TRK(fd)) return CALL; \
  { struct rule *r = step(C_READ, fdpath[fd], (long)n); ssize_t rc; \
    if (apply(r, C_READ, fdpath[fd])) return -1; \
    if (r && r->action == A_SHORT && n > 1) { size_t m = n; n = (size_t)r->arg < m ? (size_t)r->arg : m - 1; if (n == 0) n = 1; rc = CALLN; (void)m; return rc; } \
    rc = CALL; after(r); return rc; }
#define WRBODY(CALL) \
  if (!TRK(fd)) return CALL; \
  { struct rule *r = step(C_WRITE, fdpath[fd], (long)n); ssize_t rc; \
    if (apply(r, C_WRITE, fdpath[fd])) return -1; \
    if (r && (r->action == A_SHORT || r->action == A_TORN_CRASH) && n > 1) { \
      size_t m = n; n = (size_t)r->arg < m ? (size_t)r->arg : m - 1; if (n == 0) n = 1; rc = CALL; (void)m; \
      if (r->action == A_TORN_CRASH) _exit(CRASH_CODE); \
      return rc; } \
    if (r && r->action == A_TORN_CRASH) _exit(CRASH_CODE); \
    rc = CALL; after(r); return rc; }

ssize_t read(int fd, void *b, size_t n) { REAL(read); RDBODY(real_read(fd, b, n), real_read(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL(pread); RDBODY(real_pread(fd, b, n, o), real_pread(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(pread64); RDBODY(real_pread64(fd, b, n, o), real_pread64(fd, b, n, o)) }
ssize_t write(int fd, const void *b, size_t n) { REAL(write); WRBODY(real_write(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); WRBODY(real_pwrite(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); WRBODY(real_pwrite64(fd, b, n, o)) }

#define FDOP(CLS, CALL) \
  if (!TRK(fd)) return CALL; \
  { struct rule *r = step(CLS, fdpath[fd], 0); int rc; \
    if (apply(r, CLS, fdpath[fd])) return -1; rc = CALL; after(r); return rc; }
int ftruncate(int fd, off_t l) { REAL(ftruncate); FDOP(C_TRUNC, real_ftruncate(fd, l)) }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); FDOP(C_TRUNC, real_ftruncate64(fd, l)) }
int fsync(int fd) { REAL(fsync); FDOP(C_SYNC, real_fsync(fd)) }
int fdatasync(int fd) { REAL(fdatasync); FDOP(C_SYNC, real_fdatasync(fd)) }

#define PATHOP(CLS, P, CALL) \
  char abs[2048]; struct rule *r; int rc; \
  if (!under(P, abs)) return CALL; \
  r = step(CLS, abs, 0); if (apply(r, CLS, abs)) return -1; rc = CALL; after(r); return rc;
int rename(const char *a, const char *b) { REAL(rename); PATHOP(C_RENAME, b, real_rename(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { REAL(renameat); PATHOP(C_RENAME, b, real_renameat(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { REAL(renameat2); PATHOP(C_RENAME, b, real_renameat2(x, a, y, b, f)) }
int unlink(const char *a) { REAL(unlink); PATHOP(C_UNLINK, a, real_unlink(a)) }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); PATHOP(C_UNLINK, a, real_unlinkat(d, a, f)) }
int dup(int fd) { int n; REAL(dup); n = real_dup(fd); if (n >= 0 && TRK(fd)) { opened(n, fdpath[fd], fdw[fd] ? O_RDWR : O_RDONLY); } return n; }

/* ---- stdio: writes made inside libc are not visible as write(2), so its entry points are seams too ---- */
#define MAXFILE 64
static struct { FILE *f; char *path; } files[MAXFILE];
static char *fpath(FILE *f) { int i; if (f) for (i = 0; i < MAXFILE; i++) if (files[i].f == f) return files[i].path; return NULL; }
static void ftrack(FILE *f, const char *p)
{ int i; if (f) for (i = 0; i < MAXFILE; i++) if (!files[i].f) { files[i].f = f; files[i].path = strdup(p); return; } }
#define FOPENBODY(NAME) \
  char abs[2048]; struct rule *r; int w; FILE *f; REAL(NAME); \
  if (!under(path, abs)) return real_##NAME(path, mode); \
  w = strpbrk(mode, "wa+") != NULL; \
  r = step(w ? C_OPENW : C_OPEN, abs, 0); \
  if (apply(r, w ? C_OPENW : C_OPEN, abs)) return NULL; \
  f = real_##NAME(path, mode); \
  if (f) { ftrack(f, abs); opened(fileno(f), abs, w ? O_RDWR : O_RDONLY); } \
  after(r); return f;
FILE *fopen(const char *path, const char *mode) { FOPENBODY(fopen) }
FILE *fopen64(const char *path, const char *mode) { FOPENBODY(fopen64) }
FILE *fdopen(int fd, const char *mode)
{ FILE *f; REAL(fdopen); f = real_fdopen(fd, mode); if (f && TRK(fd)) ftrack(f, fdpath[fd]); return f; }
size_t fwrite(const void *b, size_t sz, size_t n, FILE *f)
{
  char *p = fpath(f); REAL(fwrite);
  if (!p) return real_fwrite(b, sz, n, f);
  { struct rule *r = step(C_WRITE, p, (long)(sz * n)); size_t rc;
    if (apply(r, C_WRITE, p)) return 0;
    if (r && (r->action == A_TORN_CRASH || r->action == A_CRASH_AFTER)) {
      size_t m = r->action == A_CRASH_AFTER || (size_t)r->arg >= sz * n ? sz * n : (size_t)r->arg;
      real_fwrite(b, 1, m, f); fflush(f); _exit(CRASH_CODE); }
    rc = real_fwrite(b, sz, n, f); return rc; }
}
int fclose(FILE *f)
{
  char *p = fpath(f); REAL(fclose);
  if (!p) return real_fclose(f);
  { struct rule *r; int i, rc, bad, e, fd = fileno(f);
    char *q = strdup(p);
    for (i = 0; i < MAXFILE; i++) if (files[i].f == f) { files[i].f = NULL; free(files[i].path); files[i].path = NULL; }
    r = step(C_CLOSE, q, 0); bad = apply(r, C_CLOSE, q); e = errno;
    if (TRK(fd)) { free(fdpath[fd]); fdpath[fd] = NULL; fdw[fd] = 0; }
    rc = real_fclose(f); free(q);
    if (bad) { errno = e; return EOF; }
    after(r); return rc; }
}
