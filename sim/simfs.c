/*
 * simfs: LD_PRELOAD seam between the process under simulation and the kernel.
 *
 * Everything below the scratch root (ctl->root) goes through here: the shim numbers every file
 * system call, writes it to a shared-memory event log, and lets the simulator decide its outcome:
 * errno, short read/write, EINTR, SIGINT, a full disk, EXDEV, lock contention, a process crash before,
 * in the middle of or after the call, or a pause during which the simulator runs something else.
 * It also owns CLOCK_*, sleeping and getrandom().  Disabled (ctl->enabled == 0) it passes through.
 *
 * All control state lives in one MAP_SHARED region, so that it survives fork() and the death of
 * the simulated process.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <limits.h>

#define MAXFAULT 512
#define MAXLOG 60000
#define MAXPATH 4096
#define PLEN 256
#define MAXSLOT 4
#define MAXFD 4096
#define JBYTES (16 << 20)

enum { C_OPENR, C_OPENW, C_READ, C_WRITE, C_CLOSE, C_RENAME, C_UNLINK, C_FSYNC, C_TRUNC, C_LOCK,
       C_STAT, C_MKDIR, C_LINK, C_CHMOD, C_READDIR, C_N };
enum { K_NONE, K_ERRNO, K_SHORT, K_EINTR, K_CRASH_BEFORE, K_CRASH_AFTER, K_CRASH_TORN, K_SIGINT,
       K_PAUSE, K_N };

struct fault { int kind, cls; long at; /* ordinal in class (or overall, cls=-1), 1-based */
               long arg; long times; /* how many consecutive ordinals */
               long fired; };
struct logent { int slot, cls, path, kind; long a, b, res; };
struct slot { long count; long ccount[C_N]; struct fault faults[MAXFAULT]; int nfault;
              long kfired[K_N]; int pausefd_out, pausefd_in; int lastcls; long lastpath; };
struct jent { int op; int path, path2; long off, len; long dataoff; long ino; };

struct ctl {
  int enabled, clock_on, rand_on, xdev, journal, pad0;
  int64_t now_ns, tick_ns, mtime_gran;
  uint64_t rng;
  int64_t budget;      /* bytes that may still be written; <0: unlimited */
  int64_t refill;      /* after this many ENOSPC failures, budget becomes unlimited; <0: never */
  int64_t nospc_fired;
  int64_t clock_reads, jump_at, jump_ns, sleeps, jumps_fired, rnd_reads;
  char root[PLEN]; long rootlen;
  char dev2[PLEN]; long dev2len;
  struct slot slots[MAXSLOT];
  int npath; char paths[MAXPATH][PLEN];
  long nlog; struct logent log[MAXLOG];
  long njent; struct jent jents[MAXLOG]; long jlen; char jdata[JBYTES];
};

static struct ctl *ctl;
static int myslot;
static int inside;          /* recursion guard */
static int fdpath[MAXFD];   /* path id + 1 */
static char fdw[MAXFD];
static char fdrnd[MAXFD];    /* descriptors of /dev/urandom */
static void fillrandom(void *b, size_t n);

#define REAL(ret, name, ...) static ret (*r_##name)(__VA_ARGS__)
REAL(int, open64, const char *, int, ...);
REAL(int, openat64, int, const char *, int, ...);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(ssize_t, pread64, int, void *, size_t, off64_t);
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
REAL(ssize_t, writev, int, const struct iovec *, int);
REAL(ssize_t, readv, int, const struct iovec *, int);
REAL(int, close, int);
REAL(int, dup, int);
REAL(int, dup2, int, int);
REAL(int, dup3, int, int, int);
REAL(int, fcntl64, int, int, ...);
REAL(int, rename, const char *, const char *);
REAL(int, renameat, int, const char *, int, const char *);
REAL(int, unlink, const char *);
REAL(int, unlinkat, int, const char *, int);
REAL(int, rmdir, const char *);
REAL(int, mkdir, const char *, mode_t);
REAL(int, link, const char *, const char *);
REAL(int, linkat, int, const char *, int, const char *, int);
REAL(int, symlink, const char *, const char *);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, ftruncate64, int, off64_t);
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
REAL(int, chmod, const char *, mode_t);
REAL(int, fchmod, int, mode_t);
REAL(int, stat64, const char *, struct stat64 *);
REAL(int, lstat64, const char *, struct stat64 *);
REAL(int, fstat64, int, struct stat64 *);
REAL(int, fstatat64, int, const char *, struct stat64 *, int);
REAL(DIR *, opendir, const char *);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, gettimeofday, struct timeval *, void *);
REAL(time_t, time, time_t *);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
REAL(int, usleep, useconds_t);
REAL(ssize_t, getrandom, void *, size_t, unsigned);

__attribute__((constructor)) static void init(void) {
#define L(n) if (!r_##n) *(void **)&r_##n = dlsym(RTLD_NEXT, #n)
  L(open64); L(openat64); L(read); L(write); L(pread64); L(pwrite64); L(writev); L(readv); L(close);
  L(dup); L(dup2); L(dup3); L(fcntl64); L(rename); L(renameat); L(unlink); L(unlinkat); L(rmdir);
  L(mkdir); L(link); L(linkat); L(symlink); L(fsync); L(fdatasync); L(ftruncate64); L(sendfile64);
  L(copy_file_range); L(chmod); L(fchmod); L(stat64); L(lstat64); L(fstat64); L(fstatat64);
  L(opendir); L(clock_gettime); L(gettimeofday); L(time); L(nanosleep); L(clock_nanosleep);
  L(usleep); L(getrandom);
  if (!ctl) {
    void *p = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) _exit(99);
    ctl = p;
  }
}
#define ENSURE if (!ctl) init()

/* ---- control interface (ctypes) ---- */
void sim_reset(const char *root, const char *dev2) {
  ENSURE;
  ctl->enabled = ctl->clock_on = ctl->rand_on = ctl->xdev = ctl->journal = 0;
  ctl->tick_ns = 1000000; ctl->mtime_gran = 1; ctl->budget = -1; ctl->refill = -1;
  ctl->nospc_fired = 0; ctl->clock_reads = ctl->sleeps = ctl->jumps_fired = ctl->rnd_reads = 0;
  ctl->jump_at = -1; ctl->jump_ns = 0;
  snprintf(ctl->root, PLEN, "%s", root); ctl->rootlen = strlen(ctl->root);
  snprintf(ctl->dev2, PLEN, "%s", dev2); ctl->dev2len = strlen(ctl->dev2);
  memset(ctl->slots, 0, sizeof ctl->slots);
  for (int i = 0; i < MAXSLOT; i++) ctl->slots[i].pausefd_in = ctl->slots[i].pausefd_out = -1;
  ctl->npath = 0; ctl->nlog = 0; ctl->njent = 0; ctl->jlen = 0;
}
void sim_enable(int on) { ENSURE; ctl->enabled = on; }
void sim_slot(int s) { myslot = s; }
void sim_clock(int on, int64_t now, int64_t tick) { ctl->clock_on = on; ctl->now_ns = now; ctl->tick_ns = tick; }
int64_t sim_now(void) { return ctl->now_ns; }
void sim_set_now(int64_t n) { ctl->now_ns = n; }
void sim_jump(int64_t at, int64_t ns) { ctl->jump_at = at; ctl->jump_ns = ns; }
void sim_rand(int on, uint64_t s) { ctl->rand_on = on; ctl->rng = s; }
void sim_opts(int xdev, int journal, int64_t budget, int64_t refill, int64_t gran) {
  ctl->xdev = xdev; ctl->journal = journal; ctl->budget = budget; ctl->refill = refill;
  ctl->mtime_gran = gran < 1 ? 1 : gran;
}
void sim_clear_faults(int s) { struct slot *sl = &ctl->slots[s];
  sl->nfault = 0; sl->count = 0; memset(sl->ccount, 0, sizeof sl->ccount); }
int sim_fault(int s, int kind, int cls, long at, long arg, long times) {
  struct slot *sl = &ctl->slots[s];
  if (sl->nfault >= MAXFAULT) return -1;
  struct fault *f = &sl->faults[sl->nfault++];
  f->kind = kind; f->cls = cls; f->at = at; f->arg = arg; f->times = times < 1 ? 1 : times; f->fired = 0;
  return sl->nfault - 1;
}
void sim_pausefds(int s, int out, int in) { ctl->slots[s].pausefd_out = out; ctl->slots[s].pausefd_in = in; }
long sim_count(int s, int cls) { return cls < 0 ? ctl->slots[s].count : ctl->slots[s].ccount[cls]; }
long sim_kfired(int s, int k) { return ctl->slots[s].kfired[k]; }
long sim_nospc(void) { return ctl->nospc_fired; }
long sim_stat_get(int which) { switch (which) { case 0: return ctl->clock_reads; case 1: return ctl->sleeps;
  case 2: return ctl->jumps_fired; case 3: return ctl->rnd_reads; } return 0; }
long sim_nlog(void) { return ctl->nlog; }
int sim_logent(long i, long *out) {
  if (i < 0 || i >= ctl->nlog || i >= MAXLOG) return -1;
  struct logent *e = &ctl->log[i];
  out[0] = e->slot; out[1] = e->cls; out[2] = e->path; out[3] = e->kind; out[4] = e->a; out[5] = e->b; out[6] = e->res;
  return 0;
}
const char *sim_path(int i) { return i >= 0 && i < ctl->npath ? ctl->paths[i] : ""; }
long sim_njent(void) { return ctl->njent; }
int sim_jent(long i, long *out) {
  if (i < 0 || i >= ctl->njent) return -1;
  struct jent *e = &ctl->jents[i];
  out[0] = e->op; out[1] = e->path; out[2] = e->path2; out[3] = e->off; out[4] = e->len; out[5] = e->dataoff; out[6] = e->ino;
  return 0;
}
const char *sim_jdata(void) { return ctl->jdata; }
int sim_lastpause(int s, long *out) { out[0] = ctl->slots[s].lastcls; out[1] = ctl->slots[s].lastpath; return 0; }
/* number of descriptors this process has open below the root, and the path of the i-th */
int sim_openfds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) if (fdpath[i]) n++; return n; }
const char *sim_openfd_path(int k) { for (int i = 0; i < MAXFD; i++) if (fdpath[i] && k-- == 0) return ctl->paths[fdpath[i] - 1]; return ""; }

/* ---- helpers ---- */
static int under(const char *p) {
  return ctl->rootlen && !strncmp(p, ctl->root, ctl->rootlen) && (p[ctl->rootlen] == '/' || !p[ctl->rootlen]);
}
static int intern(const char *p) {
  for (int i = 0; i < ctl->npath; i++) if (!strcmp(ctl->paths[i], p)) return i;
  if (ctl->npath >= MAXPATH) return MAXPATH - 1;
  snprintf(ctl->paths[ctl->npath], PLEN, "%s", p);
  return ctl->npath++;
}
static void normalize(char *p) { /* lexical: //, /./, /../ */
  char out[PATH_MAX]; size_t o = 0; size_t i = 0;
  while (p[i]) {
    while (p[i] == '/') i++;
    size_t j = i; while (p[j] && p[j] != '/') j++;
    size_t n = j - i;
    if (n == 0 || (n == 1 && p[i] == '.')) { }
    else if (n == 2 && p[i] == '.' && p[i + 1] == '.') { while (o && out[o - 1] != '/') o--; if (o) o--; }
    else { out[o++] = '/'; memcpy(out + o, p + i, n); o += n; }
    i = j;
  }
  if (!o) out[o++] = '/';
  out[o] = 0; memcpy(p, out, o + 1);
}
/* path id if the path is below the root, else -1 */
static int resolve(int dirfd, const char *p) {
  if (!ctl || !ctl->enabled || inside || !p) return -1;
  char buf[PATH_MAX * 2];
  if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
  else if (dirfd == AT_FDCWD) {
    if (!syscall(SYS_getcwd, buf, (size_t)PATH_MAX)) return -1;
    size_t n = strlen(buf); snprintf(buf + n, sizeof buf - n, "/%s", p);
  } else {
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
    ssize_t n = syscall(SYS_readlink, l, buf, (size_t)PATH_MAX);
    if (n <= 0) return -1;
    buf[n] = 0; snprintf(buf + n, sizeof buf - n, "/%s", p);
  }
  normalize(buf);
  if (!under(buf)) return -1;
  int id = intern(buf + ctl->rootlen); /* stored relative to the root */
  return id;
}
static int fdtracked(int fd) { return ctl && ctl->enabled && !inside && fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }
static void track(int fd, int pid, int w) { if (fd >= 0 && fd < MAXFD) { fdpath[fd] = pid + 1; fdw[fd] = w; } }
static void untrack(int fd) { if (fd >= 0 && fd < MAXFD) { fdpath[fd] = 0; fdrnd[fd] = 0; } }

static void logit(int cls, int path, int kind, long a, long b, long res) {
  long i = ctl->nlog;
  if (i < MAXLOG) { struct logent *e = &ctl->log[i]; e->slot = myslot; e->cls = cls; e->path = path;
    e->kind = kind; e->a = a; e->b = b; e->res = res; ctl->nlog = i + 1; }
  if (ctl->clock_on) ctl->now_ns += ctl->tick_ns;
}
static void jrec(int op, int path, int path2, long off, const void *d, long len, long ino) {
  if (!ctl->journal) return;
  long i = ctl->njent; if (i >= MAXLOG) return;
  struct jent *e = &ctl->jents[i]; e->op = op; e->path = path; e->path2 = path2; e->off = off; e->len = len; e->ino = ino;
  e->dataoff = ctl->jlen;
  if (d && len > 0) { if (ctl->jlen + len > JBYTES) return; memcpy(ctl->jdata + ctl->jlen, d, len); ctl->jlen += len; }
  ctl->njent = i + 1;
}
static long inode(int fd) { struct stat64 st; if (r_fstat64(fd, &st)) return 0; return (long)st.st_ino; }
static void touch(int fd) {
  if (!ctl->clock_on) return;
  int64_t t = ctl->now_ns - ctl->now_ns % ctl->mtime_gran;
  struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = t / 1000000000; ts[0].tv_nsec = ts[1].tv_nsec = t % 1000000000;
  syscall(SYS_utimensat, fd, NULL, ts, 0);
}
static void pause_here(int cls, int path) {
  struct slot *s = &ctl->slots[myslot];
  s->lastcls = cls; s->lastpath = path;
  if (s->pausefd_out < 0) return;
  char c = 'P';
  syscall(SYS_write, s->pausefd_out, &c, 1L);
  long n;
  do { n = syscall(SYS_read, s->pausefd_in, &c, 1L); } while (n < 0 && errno == EINTR);
  if (n <= 0) syscall(SYS_exit_group, 137);
}
/* decide the fate of this call; returns the fault that applies or NULL */
static struct fault *decide(int cls, int path) {
  struct slot *s = &ctl->slots[myslot];
  long n = ++s->count, cn = ++s->ccount[cls];
  struct fault *hit = NULL;
  for (int i = 0; i < s->nfault; i++) {
    struct fault *f = &s->faults[i];
    if (f->cls >= 0 && f->cls != cls) continue;
    long c = f->cls < 0 ? n : cn;
    if (c >= f->at && c < f->at + f->times) {
      if (f->kind == K_PAUSE) { f->fired++; s->kfired[K_PAUSE]++; pause_here(cls, path); continue; }
      if (!hit) hit = f;
    }
  }
  if (hit) {
    hit->fired++; s->kfired[hit->kind]++;
    if (hit->kind == K_CRASH_BEFORE) { logit(cls, path, K_CRASH_BEFORE, 0, 0, 0); syscall(SYS_exit_group, 137); }
    if (hit->kind == K_SIGINT) { logit(cls, path, K_SIGINT, 0, 0, 0); raise(SIGINT); }
  }
  return hit;
}
static void after(struct fault *f, int cls, int path) {
  if (f && (f->kind == K_CRASH_AFTER || f->kind == K_CRASH_TORN)) {
    logit(cls, path, f->kind, 0, 0, 0); syscall(SYS_exit_group, 137); }
}
#define FAIL_IF(f, cls, pid, rv) \
  if (f && f->kind == K_ERRNO) { logit(cls, pid, K_ERRNO, f->arg, 0, -1); errno = (int)f->arg; return rv; } \
  if (f && f->kind == K_EINTR) { logit(cls, pid, K_EINTR, 0, 0, -1); errno = EINTR; return rv; }
#define FAIL_NOINTR(f, cls, pid, rv) \
  if (f && f->kind == K_ERRNO) { logit(cls, pid, K_ERRNO, f->arg, 0, -1); errno = (int)f->arg; return rv; }

static int charge(size_t *n) { /* disk-space model; 0 = ok (n maybe shortened), -1 = ENOSPC */
  if (ctl->budget < 0 || *n == 0) return 0;
  if (ctl->budget == 0) {
    ctl->nospc_fired++;
    if (ctl->refill >= 0 && ctl->nospc_fired > ctl->refill) { ctl->budget = -1; ctl->nospc_fired--; return 0; }
    return -1;
  }
  if ((int64_t)*n > ctl->budget) *n = ctl->budget;
  ctl->budget -= *n;
  return 0;
}

/* ---- open / close ---- */
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
  ENSURE;
  int pid = resolve(dirfd, p);
  if (pid < 0) {
    int fd = r_openat64(dirfd, p, flags, mode);
    if (fd >= 0) { untrack(fd); if (fd < MAXFD) fdrnd[fd] = p && !strcmp(p, "/dev/urandom"); }
    return fd;
  }
  int w = (flags & O_ACCMODE) != O_RDONLY;
  int cls = w ? C_OPENW : C_OPENR;
  struct fault *f = decide(cls, pid);
  FAIL_IF(f, cls, pid, -1)
  int isnew = 0;
  if (flags & O_CREAT) { struct stat64 st; isnew = r_fstatat64(dirfd, p, &st, 0) != 0; }
  int fd = r_openat64(dirfd, p, flags, mode);
  int e = errno;
  logit(cls, pid, 0, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL | O_APPEND), 0, fd >= 0 ? 0 : -e);
  if (fd >= 0) {
    track(fd, pid, w);
    if (w && ((flags & O_TRUNC) || isnew)) touch(fd);
    if (isnew) jrec(1, pid, 0, 0, 0, 0, inode(fd));
    else if (w && (flags & O_TRUNC)) jrec(2, pid, 0, 0, 0, 0, inode(fd));
  }
  after(f, cls, pid);
  errno = e;
  return fd;
}
int open64(const char *p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  return do_open(AT_FDCWD, p, flags, m);
}
int open(const char *p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  return do_open(AT_FDCWD, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  return do_open(d, p, flags, m);
}
int openat(int d, const char *p, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  return do_open(d, p, flags, m);
}
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  ENSURE;
  int t = fdtracked(fd);
  if (!t) { if (fd >= 0 && fd < MAXFD && ctl && (!ctl->enabled || fdrnd[fd])) untrack(fd); return r_close(fd); }
  int w = fdw[fd], e = 0, rc;
  struct fault *f = w ? decide(C_CLOSE, t - 1) : NULL;
  untrack(fd);
  rc = r_close(fd);
  if (f && f->kind == K_ERRNO) { rc = -1; e = (int)f->arg; }
  logit(C_CLOSE, t - 1, f && f->kind == K_ERRNO ? K_ERRNO : 0, w, 0, rc);
  after(f, C_CLOSE, t - 1);
  if (e) errno = e;
  return rc;
}
int dup(int fd) { ENSURE; int n = r_dup(fd); if (n >= 0 && n < MAXFD && fd < MAXFD) { fdpath[n] = fdpath[fd]; fdw[n] = fdw[fd]; } return n; }
int dup2(int a, int b) { ENSURE; int n = r_dup2(a, b); if (n >= 0 && n < MAXFD && a < MAXFD) { fdpath[n] = fdpath[a]; fdw[n] = fdw[a]; } return n; }
int dup3(int a, int b, int fl) { ENSURE; int n = r_dup3(a, b, fl); if (n >= 0 && n < MAXFD && a < MAXFD) { fdpath[n] = fdpath[a]; fdw[n] = fdw[a]; } return n; }

/* ---- data ---- */
static ssize_t do_read(int fd, void *b, size_t n, off64_t off, int pos) {
  ENSURE;
  int t = fdtracked(fd);
  if (!t && ctl->rand_on && fd >= 0 && fd < MAXFD && fdrnd[fd]) { fillrandom(b, n); return (ssize_t)n; }
  if (!t) return pos ? r_pread64(fd, b, n, off) : r_read(fd, b, n);
  struct fault *f = decide(C_READ, t - 1);
  FAIL_IF(f, C_READ, t - 1, -1)
  size_t m = n;
  if (f && f->kind == K_SHORT && n > 1) { m = f->arg < 1 ? 1 : (size_t)f->arg; if (m > n) m = n; }
  ssize_t r = pos ? r_pread64(fd, b, m, off) : r_read(fd, b, m);
  int e = errno;
  logit(C_READ, t - 1, f ? f->kind : 0, (long)n, pos ? (long)off : -1, (long)r);
  after(f, C_READ, t - 1);
  errno = e;
  return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  ENSURE; if (!fdtracked(fd) || c < 1) return r_readv(fd, v, c);
  return do_read(fd, v[0].iov_base, v[0].iov_len, 0, 0);
}
static ssize_t do_write(int fd, const void *b, size_t n, off64_t off, int pos) {
  ENSURE;
  int t = fdtracked(fd);
  if (!t) return pos ? r_pwrite64(fd, b, n, off) : r_write(fd, b, n);
  struct fault *f = decide(C_WRITE, t - 1);
  FAIL_IF(f, C_WRITE, t - 1, -1)
  size_t m = n;
  if (f && f->kind == K_SHORT && n > 1) { m = f->arg < 1 ? 1 : (size_t)f->arg; if (m > n) m = n; }
  if (f && f->kind == K_CRASH_TORN) { m = f->arg >= 0 && f->arg < 1000 ? (size_t)((double)n * f->arg / 1000.0) : n / 2; }
  if (charge(&m)) { logit(C_WRITE, t - 1, K_ERRNO, ENOSPC, 0, -1); errno = ENOSPC; return -1; }
  off64_t o = pos ? off : lseek64(fd, 0, SEEK_CUR);
  if (!pos && ctl->journal) { int fl = r_fcntl64(fd, F_GETFL); if (fl & O_APPEND) o = lseek64(fd, 0, SEEK_END); }
  ssize_t r = m == 0 && n ? 0 : (pos ? r_pwrite64(fd, b, m, off) : r_write(fd, b, m));
  int e = errno;
  if (r > 0) { jrec(3, t - 1, 0, (long)o, b, r, ctl->journal ? inode(fd) : 0); touch(fd); }
  logit(C_WRITE, t - 1, f ? f->kind : 0, (long)n, pos ? (long)off : -1, (long)r);
  after(f, C_WRITE, t - 1);
  errno = e;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  ENSURE; if (!fdtracked(fd) || c < 1) return r_writev(fd, v, c);
  return do_write(fd, v[0].iov_base, v[0].iov_len, 0, 0);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  ENSURE; if (!fdtracked(out) && !fdtracked(in)) return r_sendfile64(out, in, o, n);
  errno = EINVAL; return -1; /* a legal outcome: callers fall back to read/write, which are simulated */
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
  ENSURE; if (!fdtracked(out) && !fdtracked(in)) return r_copy_file_range(in, oi, out, oo, n, fl);
  errno = EXDEV; return -1;
}
int ftruncate64(int fd, off64_t n) {
  ENSURE; int t = fdtracked(fd); if (!t) return r_ftruncate64(fd, n);
  struct fault *f = decide(C_TRUNC, t - 1); FAIL_IF(f, C_TRUNC, t - 1, -1)
  int rc = r_ftruncate64(fd, n); int e = errno;
  if (!rc) { jrec(4, t - 1, 0, (long)n, 0, 0, ctl->journal ? inode(fd) : 0); touch(fd); }
  logit(C_TRUNC, t - 1, f ? f->kind : 0, (long)n, 0, rc); after(f, C_TRUNC, t - 1); errno = e; return rc;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int do_fsync(int fd, int data) {
  ENSURE; int t = fdtracked(fd);
  if (!t) return data ? r_fdatasync(fd) : r_fsync(fd);
  struct fault *f = decide(C_FSYNC, t - 1); FAIL_IF(f, C_FSYNC, t - 1, -1)
  jrec(5, t - 1, 0, 0, 0, 0, ctl->journal ? inode(fd) : 0);
  logit(C_FSYNC, t - 1, f ? f->kind : 0, 0, 0, 0); after(f, C_FSYNC, t - 1); return 0;
}
int fsync(int fd) { return do_fsync(fd, 0); }
int fdatasync(int fd) { return do_fsync(fd, 1); }

/* ---- names ---- */
static int do_rename(int d1, const char *a, int d2, const char *b) {
  ENSURE; int p1 = resolve(d1, a), p2 = resolve(d2, b);
  if (p1 < 0 && p2 < 0) return r_renameat(d1, a, d2, b);
  int p = p2 >= 0 ? p2 : p1;
  struct fault *f = decide(C_RENAME, p); FAIL_NOINTR(f, C_RENAME, p, -1)
  if (ctl->xdev && p1 >= 0 && p2 >= 0 && ctl->dev2len) {
    const char *x = ctl->paths[p1], *y = ctl->paths[p2];
    int i1 = !strncmp(x, ctl->dev2, ctl->dev2len) && (x[ctl->dev2len] == '/' || !x[ctl->dev2len]);
    int i2 = !strncmp(y, ctl->dev2, ctl->dev2len) && (y[ctl->dev2len] == '/' || !y[ctl->dev2len]);
    if (i1 != i2) { logit(C_RENAME, p, K_ERRNO, EXDEV, p1, -1); errno = EXDEV; return -1; }
  }
  int rc = r_renameat(d1, a, d2, b); int e = errno;
  if (!rc) { jrec(6, p1, p2, 0, 0, 0, 0);
    for (int i = 0; i < MAXFD; i++) if (fdpath[i] == p1 + 1) fdpath[i] = p2 + 1; }
  logit(C_RENAME, p, f ? f->kind : 0, p1, 0, rc ? -e : 0); after(f, C_RENAME, p); errno = e; return rc;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }
static int do_unlink(int d, const char *p, int fl) {
  ENSURE; int pid = resolve(d, p); if (pid < 0) return r_unlinkat(d, p, fl);
  struct fault *f = decide(C_UNLINK, pid); FAIL_NOINTR(f, C_UNLINK, pid, -1)
  int rc = r_unlinkat(d, p, fl); int e = errno;
  if (!rc && !(fl & AT_REMOVEDIR)) jrec(7, pid, 0, 0, 0, 0, 0);
  logit(C_UNLINK, pid, f ? f->kind : 0, fl, 0, rc ? -e : 0); after(f, C_UNLINK, pid); errno = e; return rc;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int mkdir(const char *p, mode_t m) {
  ENSURE; int pid = resolve(AT_FDCWD, p); if (pid < 0) return r_mkdir(p, m);
  struct fault *f = decide(C_MKDIR, pid); FAIL_NOINTR(f, C_MKDIR, pid, -1)
  int rc = r_mkdir(p, m); int e = errno;
  logit(C_MKDIR, pid, f ? f->kind : 0, 0, 0, rc ? -e : 0); after(f, C_MKDIR, pid); errno = e; return rc;
}
int linkat(int d1, const char *a, int d2, const char *b, int fl) {
  ENSURE; int p1 = resolve(d1, a), p2 = resolve(d2, b); if (p1 < 0 && p2 < 0) return r_linkat(d1, a, d2, b, fl);
  int p = p2 >= 0 ? p2 : p1;
  struct fault *f = decide(C_LINK, p); FAIL_NOINTR(f, C_LINK, p, -1)
  int rc = r_linkat(d1, a, d2, b, fl); int e = errno; logit(C_LINK, p, 0, 0, 0, rc ? -e : 0); after(f, C_LINK, p); errno = e; return rc;
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlink(const char *a, const char *b) {
  ENSURE; int p = resolve(AT_FDCWD, b); if (p < 0) return r_symlink(a, b);
  struct fault *f = decide(C_LINK, p); FAIL_NOINTR(f, C_LINK, p, -1)
  int rc = r_symlink(a, b); int e = errno; logit(C_LINK, p, 0, 1, 0, rc ? -e : 0); after(f, C_LINK, p); errno = e; return rc;
}
int chmod(const char *p, mode_t m) {
  ENSURE; int pid = resolve(AT_FDCWD, p); if (pid < 0) return r_chmod(p, m);
  struct fault *f = decide(C_CHMOD, pid); FAIL_NOINTR(f, C_CHMOD, pid, -1)
  int rc = r_chmod(p, m); int e = errno; logit(C_CHMOD, pid, 0, m, 0, rc); after(f, C_CHMOD, pid); errno = e; return rc;
}
int fchmod(int fd, mode_t m) {
  ENSURE; int t = fdtracked(fd); if (!t) return r_fchmod(fd, m);
  struct fault *f = decide(C_CHMOD, t - 1); FAIL_NOINTR(f, C_CHMOD, t - 1, -1)
  int rc = r_fchmod(fd, m); int e = errno; logit(C_CHMOD, t - 1, 0, m, 0, rc); errno = e; return rc;
}
/* stat is logged/faultable as its own class; sizes and times are the real ones (times are set by touch()) */
static int st_pre(int pid, struct fault **fp) {
  struct fault *f = decide(C_STAT, pid); *fp = f;
  if (f && f->kind == K_ERRNO) { logit(C_STAT, pid, K_ERRNO, f->arg, 0, -1); errno = (int)f->arg; return -1; }
  return 0;
}
int stat64(const char *p, struct stat64 *st) {
  ENSURE; int pid = resolve(AT_FDCWD, p); if (pid < 0) return r_stat64(p, st);
  struct fault *f; if (st_pre(pid, &f)) return -1; int rc = r_stat64(p, st); int e = errno; logit(C_STAT, pid, 0, 0, 0, rc ? -e : 0); after(f, C_STAT, pid); errno = e; return rc; }
int lstat64(const char *p, struct stat64 *st) {
  ENSURE; int pid = resolve(AT_FDCWD, p); if (pid < 0) return r_lstat64(p, st);
  struct fault *f; if (st_pre(pid, &f)) return -1; int rc = r_lstat64(p, st); int e = errno; logit(C_STAT, pid, 0, 1, 0, rc ? -e : 0); after(f, C_STAT, pid); errno = e; return rc; }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) {
  ENSURE; int pid = (fl & AT_EMPTY_PATH) ? -1 : resolve(d, p); if (pid < 0) return r_fstatat64(d, p, st, fl);
  struct fault *f; if (st_pre(pid, &f)) return -1; int rc = r_fstatat64(d, p, st, fl); int e = errno; logit(C_STAT, pid, 0, 2, 0, rc ? -e : 0); after(f, C_STAT, pid); errno = e; return rc; }
DIR *opendir(const char *p) {
  ENSURE; int pid = resolve(AT_FDCWD, p); if (pid < 0) return r_opendir(p);
  struct fault *f = decide(C_READDIR, pid); FAIL_NOINTR(f, C_READDIR, pid, NULL)
  inside++; DIR *d = r_opendir(p); inside--; int e = errno; logit(C_READDIR, pid, 0, 0, 0, d ? 0 : -e); errno = e; return d;
}

/* ---- locks ---- */
static int do_fcntl(int fd, int cmd, void *arg) {
  ENSURE; int t = fdtracked(fd);
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
    int n = r_fcntl64(fd, cmd, arg);
    if (n >= 0 && n < MAXFD && fd >= 0 && fd < MAXFD) { fdpath[n] = fdpath[fd]; fdw[n] = fdw[fd]; }
    return n;
  }
  if (!t || !(cmd == F_SETLK || cmd == F_SETLKW)) return r_fcntl64(fd, cmd, arg);
  struct flock *l = arg;
  if (l->l_type == F_UNLCK) return r_fcntl64(fd, cmd, arg);
  struct fault *f = decide(C_LOCK, t - 1); FAIL_IF(f, C_LOCK, t - 1, -1)
  int rc = r_fcntl64(fd, cmd, arg); int e = errno;
  logit(C_LOCK, t - 1, 0, l->l_type, (long)l->l_start, rc ? -e : 0); after(f, C_LOCK, t - 1); errno = e; return rc;
}
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); void *p = va_arg(a, void *); va_end(a); return do_fcntl(fd, cmd, p); }

/* ---- time ---- */
static void clocktick(void) {
  ctl->clock_reads++;
  if (ctl->jump_at >= 0 && ctl->clock_reads == ctl->jump_at) { ctl->now_ns += ctl->jump_ns; ctl->jumps_fired++; }
}
int clock_gettime(clockid_t c, struct timespec *t) {
  ENSURE;
  if (!ctl->clock_on || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC_COARSE)) {
    if (r_clock_gettime) return r_clock_gettime(c, t);
    return (int)syscall(SYS_clock_gettime, c, t);
  }
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) clocktick();
  t->tv_sec = ctl->now_ns / 1000000000; t->tv_nsec = ctl->now_ns % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  ENSURE; if (!ctl->clock_on) return r_gettimeofday(tv, tz);
  clocktick(); tv->tv_sec = ctl->now_ns / 1000000000; tv->tv_usec = (ctl->now_ns % 1000000000) / 1000; return 0;
}
time_t time(time_t *o) {
  ENSURE; if (!ctl->clock_on) return r_time(o);
  clocktick(); time_t s = ctl->now_ns / 1000000000; if (o) *o = s; return s;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  ENSURE; if (!ctl->clock_on) return r_nanosleep(a, b);
  ctl->now_ns += a->tv_sec * 1000000000LL + a->tv_nsec; ctl->sleeps++; return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  ENSURE; if (!ctl->clock_on) return r_clock_nanosleep(c, fl, a, b);
  int64_t v = a->tv_sec * 1000000000LL + a->tv_nsec; if (fl & TIMER_ABSTIME) { if (v > ctl->now_ns) ctl->now_ns = v; } else ctl->now_ns += v;
  ctl->sleeps++; return 0;
}
int usleep(useconds_t u) {
  ENSURE; if (!ctl->clock_on) return r_usleep(u);
  ctl->now_ns += (int64_t)u * 1000; ctl->sleeps++; return 0;
}
/* ---- randomness ---- */
static void fillrandom(void *b, size_t n) {
  unsigned char *p = b; ctl->rnd_reads++;
  for (size_t i = 0; i < n; i++) {
    ctl->rng += 0x9E3779B97F4A7C15ULL; uint64_t z = ctl->rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; p[i] = (unsigned char)(z >> 31);
  }
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  ENSURE; if (!ctl || !ctl->rand_on) return r_getrandom ? r_getrandom(b, n, fl) : syscall(SYS_getrandom, b, n, fl);
  fillrandom(b, n);
  return (ssize_t)n;
}
