// Runtime below the simulator: preemption callback of SanitizerCoverage and interposed system interfaces.
// Everything here acts only while `sim_active` is set, i.e. while a simulated task executes library code.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

__thread int sim_active;
__thread uint64_t sim_steps;   // preemption opportunities passed in the current operation
__thread uint64_t sim_next;    // step at which the scheduler wants to be asked again
__thread int sim_tid = -1;
__thread void *sim_ctx;

uint8_t *sim_cov;              // edges reached (shared memory), may be NULL
uint8_t *sim_hot;              // edges inside synchronisation primitives
int sim_hot_on;
uint32_t sim_nguards;

// implemented in Rust (rt.rs)
extern void sim_slow(int reason);
extern long sim_futex_wait(uint32_t *addr, uint32_t val, int has_to, int64_t to_ns);
extern long sim_futex_wake(uint32_t *addr, int n);
extern int64_t sim_clock(int id);
extern uint64_t sim_entropy(void);
extern const char *sim_getenv(const char *name, int *handled);
extern int sim_open(const char *path, const char **data, size_t *len);
extern const char *sim_name(int kind);
extern unsigned sim_odds(int kind);
extern void sim_sleep(int64_t ns);
extern int sim_cpus(void);
extern int sim_pid(void);
extern int sim_thread_new(void *ctx, int parent);
extern void sim_thread_begin(int tid);
extern void sim_thread_end(int tid);
extern void sim_thread_bind(int tid, uint64_t pth);
extern void sim_thread_join(uint64_t pth);
extern void sim_effect(const char *what);
extern void sim_setenv(const char *name, const char *value);

// Blocks of memory the library moves, fills or compares: work that no basic block of its own shows.
__thread uint64_t sim_moved;
uint64_t sim_get_moved(void) { return sim_moved; }
static void *(*real_cpy)(void *, const void *, size_t), *(*real_move)(void *, const void *, size_t), *(*real_set)(void *, int, size_t);
static int (*real_cmp)(const void *, const void *, size_t);
__attribute__((constructor(101))) static void find_mem(void) {
  void *a = dlsym(RTLD_NEXT, "memcpy"), *b = dlsym(RTLD_NEXT, "memmove"), *c = dlsym(RTLD_NEXT, "memset"), *d = dlsym(RTLD_NEXT, "memcmp");
  real_cpy = (void *(*)(void *, const void *, size_t))a;
  real_move = (void *(*)(void *, const void *, size_t))b;
  real_set = (void *(*)(void *, int, size_t))c;
  real_cmp = (int (*)(const void *, const void *, size_t))d;
}
#define MOVED(n) do { if (sim_active && (n) >= 256) sim_moved += (n); } while (0)
void *memcpy(void *restrict d, const void *restrict s, size_t n) {
  MOVED(n);
  if (real_cpy) return real_cpy(d, s, n);
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  MOVED(n);
  if (real_move) return real_move(d, s, n);
  if ((uintptr_t)d - (uintptr_t)s >= n) return memcpy(d, s, n);
  for (volatile unsigned char *a = d; n; n--) a[n - 1] = ((const volatile unsigned char *)s)[n - 1];
  return d;
}
void *memset(void *d, int v, size_t n) {
  MOVED(n);
  if (real_set) return real_set(d, v, n);
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
int memcmp(const void *a, const void *b, size_t n) {
  MOVED(n);
  if (real_cmp) return real_cmp(a, b, n);
  for (const volatile unsigned char *x = a, *y = b; n; n--, x++, y++)
    if (*x != *y) return *x < *y ? -1 : 1;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }

void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *p = start; p < stop; p++) *p = ++sim_nguards;
}
const uintptr_t *sim_pcs_beg, *sim_pcs_end;
void __sanitizer_cov_pcs_init(const uintptr_t *b, const uintptr_t *e) { sim_pcs_beg = b; sim_pcs_end = e; }

void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!sim_active) return;
  uint32_t i = *g;
  if (sim_cov) sim_cov[i] = 1;
  uint64_t s = ++sim_steps;
  int hot = sim_hot_on && sim_hot[i];
  if (s >= sim_next || hot) {
    int e = errno;
    sim_active = 0;
    sim_slow(hot ? 1 : 0);
    sim_active = 1;
    errno = e;
  }
}

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

static void fill_entropy(void *buf, size_t n) {
  unsigned char *p = buf;
  while (n) {
    uint64_t v = sim_entropy();
    size_t k = n < 8 ? n : 8;
    memcpy(p, &v, k);
    p += k; n -= k;
  }
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (sim_active) {
    if (n == SYS_futex) {
      int op = (int)b & 127;   // without PRIVATE / CLOCK_REALTIME bits
      long r;
      sim_active = 0;
      if (op == 0 || op == 9) {
        const struct timespec *ts = (const struct timespec *)d;
        int64_t to = 0;
        if (ts) {
          to = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
          if (op == 9) { // absolute
            to -= sim_clock(((int)b & 256) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
            if (to < 0) to = 0;
          }
        }
        r = sim_futex_wait((uint32_t *)a, (uint32_t)c, ts != NULL, to);
      } else if (op == 1 || op == 10) {
        r = sim_futex_wake((uint32_t *)a, (int)c);
      } else {
        r = raw6(n, a, b, c, d, e, f);
      }
      sim_active = 1;
      return ret(r);
    }
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getpid) return getpid();
    if (n == SYS_statx) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    if (n == SYS_getrandom) {
      sim_active = 0;
      fill_entropy((void *)a, (size_t)b);
      sim_active = 1;
      return b;
    }
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (sim_active) {
    sim_active = 0;
    fill_entropy(buf, n);
    sim_active = 1;
    return (ssize_t)n;
  }
  return ret(raw6(SYS_getrandom, (long)buf, (long)n, flags, 0, 0, 0));
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (sim_active) {
    sim_active = 0;
    int64_t v = sim_clock((int)id);
    sim_active = 1;
    int64_t s = v / 1000000000LL, ns = v % 1000000000LL;
    if (ns < 0) { ns += 1000000000LL; s--; }
    ts->tv_sec = s; ts->tv_nsec = ns;
    return 0;
  }
  return (int)ret(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

static void effect(const char *what);
static int sleep_ns(int64_t ns) { effect("the call sleeps"); sim_active = 0; sim_sleep(ns); sim_active = 1; return 0; }
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (sim_active) return sleep_ns((int64_t)rq->tv_sec * 1000000000LL + rq->tv_nsec);
  return (int)ret(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  if (sim_active) {
    int64_t t = (int64_t)rq->tv_sec * 1000000000LL + rq->tv_nsec;
    if (flags & TIMER_ABSTIME) { sim_active = 0; t -= sim_clock((int)id); sim_active = 1; if (t < 0) t = 0; }
    return sleep_ns(t);
  }
  long r = raw6(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm, 0, 0);
  return (int)-r;
}
int usleep(useconds_t us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&ts, NULL);
}
int sched_yield(void) {
  if (sim_active) { sim_steps++; sim_active = 0; sim_slow(2); sim_active = 1; return 0; }
  return (int)ret(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}

extern char **environ;
char *getenv(const char *name) {
  if (sim_active) {
    int handled = 0;
    sim_active = 0;
    const char *v = sim_getenv(name, &handled);
    sim_active = 1;
    if (handled) return (char *)v;
  }
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return NULL;
}

// -1: fail with errno; -2: the real file; otherwise a descriptor with simulated contents
static int sim_open_gate(const char *p) {
  const char *data = NULL;
  size_t len = 0;
  sim_active = 0;
  int f = sim_open(p, &data, &len), fd = -2;
  if (f == 0) { errno = ENOENT; fd = -1; }
  else if (f == 1) { errno = EIO; fd = -1; }
  else if (f >= 3) {
    fd = (int)raw6(SYS_memfd_create, (long)"sim", 1, 0, 0, 0, 0);
    if (fd < 0) { errno = ENOENT; fd = -1; }
    else {
      raw6(SYS_write, fd, (long)data, (long)len, 0, 0, 0);
      raw6(SYS_lseek, fd, 0, 0, 0, 0, 0);
    }
  }
  sim_active = 1;
  return fd;
}
char *getcwd(char *buf, size_t n) {
  if (sim_active && buf) {
    sim_active = 0;
    const char *v = sim_name(0);
    sim_active = 1;
    if (v) {
      if (strlen(v) + 1 > n) { errno = ERANGE; return NULL; }
      return strcpy(buf, v);
    }
  }
  long r = raw6(SYS_getcwd, (long)buf, (long)n, 0, 0, 0, 0);
  return r < 0 ? (ret(r), (char *)NULL) : buf;
}
int gethostname(char *buf, size_t n) {
  const char *v = NULL;
  if (sim_active) { sim_active = 0; v = sim_name(1); sim_active = 1; }
  if (!v) v = "host";
  if (strlen(v) + 1 > n) { errno = ENAMETOOLONG; return -1; }
  strcpy(buf, v);
  return 0;
}
// something outside the process, or the process itself, would be changed
static void effect(const char *what) { sim_active = 0; sim_effect(what); sim_active = 1; }
// files written during a run live in memory
static struct { char *path; int fd; } memf[64];
static int nmemf;
static int memf_at(const char *p) {
  for (int i = 0; i < nmemf; i++)
    if (!strcmp(memf[i].path, p)) return i;
  return -1;
}
static int memf_reopen(int i, int flags) {
  char t[40] = "/proc/self/fd/", *e = t + 14;
  int v = memf[i].fd, d = 1;
  while (v / d >= 10) d *= 10;
  for (; d; d /= 10) *e++ = '0' + v / d % 10;
  *e = 0;
  return (int)ret(raw6(SYS_openat, AT_FDCWD, (long)t, flags & ~(O_CREAT | O_EXCL | O_NOFOLLOW), 0, 0, 0));
}
static int sim_open_file(const char *p, int flags) {
  int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (writing) effect("a file is opened for writing");
  int i = memf_at(p);
  if (i >= 0) {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    return memf_reopen(i, flags);
  }
  int f = sim_open_gate(p);
  if (!writing || f == -2 || nmemf == 64) return f == -2 && writing ? (errno = EACCES, -1) : f;
  if (f == -1) {
    if (errno != ENOENT || !(flags & O_CREAT)) return -1;
    f = (int)raw6(SYS_memfd_create, (long)"sim", 1, 0, 0, 0, 0);
    if (f < 0) { errno = EACCES; return -1; }
  }
  memf[nmemf].path = strdup(p);
  memf[nmemf].fd = f;
  return memf_reopen(nmemf++, flags);
}
#define OPEN_BODY(dfd)                                                        \
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);    \
  if (sim_active) { int f = sim_open_file(path, flags); if (f != -2) return f; } \
  return (int)ret(raw6(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
int open(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int open64(const char *path, int flags, ...) { OPEN_BODY(AT_FDCWD) }
int openat(int dfd, const char *path, int flags, ...) { OPEN_BODY(dfd) }
int openat64(int dfd, const char *path, int flags, ...) { OPEN_BODY(dfd) }

// what is known about a path without opening it
static int sim_peek(const char *p, size_t *len) {   // 0: exists, simulated; -1: fails with errno; -2: ask the system
  const char *data = NULL;
  *len = 0;
  int m = memf_at(p);
  if (m >= 0) {
    struct stat st;
    if (raw6(SYS_fstat, memf[m].fd, (long)&st, 0, 0, 0, 0) == 0) *len = (size_t)st.st_size;
    return 0;
  }
  sim_active = 0;
  int f = sim_open(p, &data, len);
  sim_active = 1;
  if (f == 0) { errno = ENOENT; return -1; }
  if (f == 1) { errno = EIO; return -1; }
  return f == 2 ? -2 : 0;
}
int statx(int dfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
  if (sim_active) {
    size_t len;
    int f = path && *path ? sim_peek(path, &len) : -2;
    if (f == -1) return -1;
    if (f == 0) {
      memset(st, 0, sizeof *st);
      st->stx_mask = STATX_BASIC_STATS | STATX_BTIME;
      st->stx_mode = S_IFREG | 0644;
      st->stx_nlink = 1;
      st->stx_size = len;
      st->stx_blksize = 4096;
    } else {
      long r = raw6(SYS_statx, dfd, (long)path, flags, mask, (long)st, 0);
      if (r < 0) return (int)ret(r);
    }
    sim_active = 0;
    int64_t now = sim_clock(CLOCK_REALTIME);
    sim_active = 1;
    int64_t s = now / 1000000000LL;
    st->stx_mtime.tv_sec = st->stx_ctime.tv_sec = st->stx_atime.tv_sec = st->stx_btime.tv_sec = s;
    st->stx_mtime.tv_nsec = st->stx_ctime.tv_nsec = st->stx_atime.tv_nsec = st->stx_btime.tv_nsec = 0;
    st->stx_ino = 1;
    return 0;
  }
  return (int)ret(raw6(SYS_statx, dfd, (long)path, flags, mask, (long)st, 0));
}
static int stat_any(const char *path, struct stat *st, int flags) {
  if (sim_active) {
    size_t len;
    int f = sim_peek(path, &len);
    if (f == -1) return -1;
    if (f == 0) {
      memset(st, 0, sizeof *st);
      st->st_mode = S_IFREG | 0644;
      st->st_nlink = 1;
      st->st_size = (off_t)len;
      return 0;
    }
  }
  return (int)ret(raw6(SYS_newfstatat, AT_FDCWD, (long)path, (long)st, flags, 0, 0));
}
int stat(const char *restrict p, struct stat *restrict st) { return stat_any(p, st, 0); }
int lstat(const char *restrict p, struct stat *restrict st) { return stat_any(p, st, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *restrict p, struct stat64 *restrict st) { return stat_any(p, (struct stat *)st, 0); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { return stat_any(p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int access(const char *p, int mode) {
  if (sim_active) {
    size_t len;
    int f = sim_peek(p, &len);
    if (f != -2) return f;
  }
  return (int)ret(raw6(SYS_faccessat, AT_FDCWD, (long)p, mode, 0, 0, 0));
}
ssize_t readlink(const char *restrict p, char *restrict buf, size_t n) {
  if (sim_active) {
    sim_active = 0;
    const char *v = sim_name(2);
    sim_active = 1;
    if (v) {
      size_t k = strlen(v);
      if (k > n) k = n;
      memcpy(buf, v, k);
      return (ssize_t)k;
    }
  }
  return ret(raw6(SYS_readlink, (long)p, (long)buf, (long)n, 0, 0, 0));
}
static DIR *(*real_opendir)(const char *);
DIR *opendir(const char *p) {
  if (sim_active) { size_t len; if (sim_peek(p, &len) != -2) { errno = ENOENT; return NULL; } }
  if (!real_opendir) real_opendir = dlsym(RTLD_NEXT, "opendir");
  return real_opendir(p);
}
static char *(*real_realpath)(const char *, char *);
char *realpath(const char *restrict p, char *restrict out) {
  if (sim_active) {
    size_t len;
    int f = sim_peek(p, &len);
    if (f == -1) return NULL;
    if (f == 0) {
      char *r = out ? out : malloc(strlen(p) + 2);
      r[0] = '/';
      return strcpy(r + (*p == '/' ? 0 : 1), p), r;
    }
  }
  if (!real_realpath) real_realpath = dlsym(RTLD_NEXT, "realpath");
  return real_realpath(p, out);
}
// standard streams, terminals and identities: as the surroundings have it
static unsigned odds(int kind) {
  sim_active = 0;
  unsigned v = sim_odds(kind);
  sim_active = 1;
  return v;
}
int isatty(int fd) {
  if (sim_active) {
    if (odds(100 + (fd & 7)) & 1) return 1;
    errno = ENOTTY;
    return 0;
  }
  char t[64];
  return ret(raw6(SYS_ioctl, fd, 0x5401, (long)t, 0, 0, 0)) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  if (sim_active && fd >= 0 && fd <= 2) {
    unsigned o = odds(100 + fd);
    if (!(o & 1)) { errno = ENOTTY; return -1; }
    if (req == 0x5413) {   // window size
      unsigned short *w = arg;
      w[0] = 20 + (o >> 8 & 63); w[1] = 60 + (o >> 16 & 127); w[2] = w[3] = 0;
    }
    return 0;
  }
  return (int)ret(raw6(SYS_ioctl, fd, (long)req, (long)arg, 0, 0, 0));
}
static int out_errno(int fd) {
  static const int e[] = {EPIPE, ENOSPC, EIO, EBADF};
  unsigned o = odds(200 + fd);
  return (o & 3) == 3 ? e[o >> 4 & 3] : 0;
}
#define OUTPUT(fd) effect((fd) == 1 ? "something is written to standard output" : (fd) == 2 ? "something is written to standard error" : "something is written to a file or socket")
ssize_t write(int fd, const void *buf, size_t n) {
  if (sim_active) OUTPUT(fd);
  if (sim_active && (fd == 1 || fd == 2)) {   // swallowed
    int e = out_errno(fd);
    if (!e) return (ssize_t)n;
    errno = e;
    return -1;
  }
  return ret(raw6(SYS_write, fd, (long)buf, (long)n, 0, 0, 0));
}
struct iovec;
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (sim_active) OUTPUT(fd);
  if (sim_active && (fd == 1 || fd == 2)) {
    int e = out_errno(fd);
    if (e) { errno = e; return -1; }
    size_t k = 0;
    for (int i = 0; i < n; i++) k += ((const size_t *)v)[2 * i + 1];
    return (ssize_t)k;
  }
  return ret(raw6(SYS_writev, fd, (long)v, n, 0, 0, 0));
}
ssize_t read(int fd, void *buf, size_t n) {
  if (sim_active && fd == 0) {
    effect("standard input is read");
    unsigned o = odds(210);
    if (!(o & 1) || n == 0) return 0;
    if (n > (o >> 8 & 63)) n = o >> 8 & 63;
    memset(buf, '0' + (o >> 16) % 10, n);
    return (ssize_t)n;
  }
  return ret(raw6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0));
}
uid_t getuid(void) { return sim_active ? odds(220) % 3 * 500 : (uid_t)raw6(SYS_getuid, 0, 0, 0, 0, 0, 0); }
uid_t geteuid(void) { return sim_active ? odds(220) % 3 * 500 : (uid_t)raw6(SYS_geteuid, 0, 0, 0, 0, 0, 0); }
// what changes the file system is refused or does nothing
static int no_change(int kind) {
  effect("the file system is changed");
  if (odds(kind) & 1) { errno = EACCES; return -1; }
  return 0;
}
int mkdir(const char *p, mode_t m) { return sim_active ? no_change(230) : (int)ret(raw6(SYS_mkdir, (long)p, m, 0, 0, 0, 0)); }
static int memf_unlink(const char *p) {
  int m = memf_at(p);
  if (m < 0) return no_change(231);
  effect("the file system is changed");
  memf[m].path[0] = 0;
  return 0;
}
int unlink(const char *p) { return sim_active ? memf_unlink(p) : (int)ret(raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0)); }
int rmdir(const char *p) { return sim_active ? no_change(232) : (int)ret(raw6(SYS_rmdir, (long)p, 0, 0, 0, 0, 0)); }
static int memf_rename(const char *p, const char *q) {
  int m = memf_at(p);
  if (m < 0) return no_change(233);
  effect("the file system is changed");
  int o = memf_at(q);
  if (o >= 0) memf[o].path[0] = 0;
  memf[m].path = strdup(q);
  return 0;
}
int rename(const char *p, const char *q) { return sim_active ? memf_rename(p, q) : (int)ret(raw6(SYS_rename, (long)p, (long)q, 0, 0, 0, 0)); }

// command line and environment block as seen by code that walks them
static char **argv_seen;
static int argc_seen;
__attribute__((constructor)) static void note_args(int argc, char **argv) { argc_seen = argc; argv_seen = argv; }
void sim_set_args(char **v, int n) {
  for (int i = 0; i < argc_seen && i < 3; i++) argv_seen[i] = i < n ? v[i] : NULL;
}
void sim_set_environ(char **v) { environ = v; }

int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
  if (sim_active) {
    sim_active = 0;
    int c = sim_cpus();
    sim_active = 1;
    memset(set, 0, n);
    for (int i = 0; i < c; i++) CPU_SET_S(i, n, set);
    return 0;
  }
  long r = raw6(SYS_sched_getaffinity, pid, (long)n, (long)set, 0, 0, 0);
  if (r < 0) return (int)ret(r);
  if ((size_t)r < n) memset((char *)set + r, 0, n - r);
  return 0;
}
long sim_real_sysconf(int name);
pid_t getpid(void) {
  if (sim_active) {
    sim_active = 0;
    int p = sim_pid();
    sim_active = 1;
    return p;
  }
  return (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
}

pid_t getppid(void) {
  if (sim_active) return getpid() / 2 + 1;
  return (pid_t)raw6(SYS_getppid, 0, 0, 0, 0, 0, 0);
}
pid_t gettid(void) {
  if (sim_active) return getpid() + sim_tid;
  return (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
}

// threads created by library code become simulated tasks
struct start { void *(*fn)(void *); void *arg; int tid; void *ctx; };
static void *thread_main(void *p) {
  struct start s = *(struct start *)p;
  free(p);
  sim_tid = s.tid;
  sim_ctx = s.ctx;
  sim_thread_begin(s.tid);
  sim_active = 1;
  void *r = s.fn(s.arg);
  sim_active = 0;
  sim_thread_end(s.tid);
  return r;
}
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
__attribute__((constructor)) static void resolve(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!sim_active) return real_create(t, a, fn, arg);
  sim_active = 0;
  struct start *s = malloc(sizeof *s);
  s->fn = fn; s->arg = arg; s->ctx = sim_ctx;
  s->tid = sim_thread_new(sim_ctx, sim_tid);
  int tid = s->tid;
  int r = real_create(t, a, thread_main, s);
  if (r == 0) sim_thread_bind(tid, (uint64_t)*t);
  sim_active = 1;
  return r;
}
// the environment, other processes, sockets
static int (*real_setenv)(const char *, const char *, int);
static int (*real_unsetenv)(const char *);
static void (*real_exit)(int) __attribute__((noreturn));
__attribute__((constructor)) static void resolve2(void) {
  real_setenv = dlsym(RTLD_NEXT, "setenv");
  real_unsetenv = dlsym(RTLD_NEXT, "unsetenv");
  real_exit = dlsym(RTLD_NEXT, "exit");
}
int setenv(const char *k, const char *v, int over) {
  if (!sim_active) return real_setenv(k, v, over);
  effect("an environment variable is set");
  sim_active = 0;
  sim_setenv(k, v);
  sim_active = 1;
  return 0;
}
int unsetenv(const char *k) {
  if (!sim_active) return real_unsetenv(k);
  effect("an environment variable is removed");
  sim_active = 0;
  sim_setenv(k, NULL);
  sim_active = 1;
  return 0;
}
void exit(int code) {
  if (sim_active) effect("the process is ended");
  real_exit(code);
}
int chdir(const char *p) {
  if (sim_active) { effect("the working directory is changed"); return 0; }
  return (int)ret(raw6(SYS_chdir, (long)p, 0, 0, 0, 0, 0));
}
#define REFUSED(decl, name, args, what)                                      \
  decl {                                                                      \
    if (sim_active) { effect(what); errno = EACCES; return -1; }              \
    static __typeof__(&name) real;                                            \
    if (!real) real = dlsym(RTLD_NEXT, #name);                                \
    return real args;                                                         \
  }
REFUSED(int socket(int d, int t, int q), socket, (d, t, q), "a socket is opened")
REFUSED(int socketpair(int d, int t, int q, int v[2]), socketpair, (d, t, q, v), "a socket is opened")
REFUSED(int pipe2(int v[2], int f), pipe2, (v, f), "a pipe is opened")
REFUSED(pid_t fork(void), fork, (), "a process is started")
REFUSED(int chmod(const char *p, mode_t m), chmod, (p, m), "the file system is changed")
REFUSED(int link(const char *p, const char *q), link, (p, q), "the file system is changed")
REFUSED(int linkat(int a, const char *p, int b, const char *q, int f), linkat, (a, p, b, q, f), "the file system is changed")
REFUSED(int symlink(const char *p, const char *q), symlink, (p, q), "the file system is changed")
REFUSED(int unlinkat(int a, const char *p, int f), unlinkat, (a, p, f), "the file system is changed")
REFUSED(int kill(pid_t p, int g), kill, (p, g), "a signal is sent")
int posix_spawnp(pid_t *p, const char *f, const void *a, const void *b, char *const v[], char *const e[]) {
  if (sim_active) { effect("a process is started"); return EACCES; }
  static int (*real)(pid_t *, const char *, const void *, const void *, char *const[], char *const[]);
  if (!real) real = dlsym(RTLD_NEXT, "posix_spawnp");
  return real(p, f, a, b, v, e);
}

int pthread_join(pthread_t t, void **v) {
  if (sim_active) {
    sim_active = 0;
    sim_thread_join((uint64_t)t);
    int r = real_join(t, v);
    sim_active = 1;
    return r;
  }
  return real_join(t, v);
}

// accessors for Rust
int sim_get_active(void) { return sim_active; }
void sim_set_active(int v) { sim_active = v; }
uint64_t sim_get_steps(void) { return sim_steps; }
void sim_set_steps(uint64_t v) { sim_steps = v; }
void sim_set_next(uint64_t v) { sim_next = v; }
uint64_t sim_get_next(void) { return sim_next; }
int sim_get_tid(void) { return sim_tid; }
void sim_set_tid(int v) { sim_tid = v; }
void *sim_get_ctx(void) { return sim_ctx; }
void sim_set_ctx(void *v) { sim_ctx = v; }
void sim_set_cov(uint8_t *cov, uint8_t *hot) { sim_cov = cov; sim_hot = hot; }
void sim_set_hot_on(int v) { sim_hot_on = v && sim_hot; }
uint32_t sim_guard_count(void) { return sim_nguards; }
const uintptr_t *sim_pcs(int end) { return end ? sim_pcs_end : sim_pcs_beg; }
long sim_raw_now(void) { struct timespec ts; raw6(SYS_clock_gettime, 1, (long)&ts, 0, 0, 0, 0); return ts.tv_sec * 1000000000L + ts.tv_nsec; }

// the heap of library code
#include <sys/mman.h>
#define ARENA_BASE 0x600000000000UL
#define ARENA_SIZE (4UL << 30)
#define NCLASS 31
static int arena_ready;
static uintptr_t arena_top, arena_free[NCLASS];
static volatile int arena_lock;
static int64_t arena_live[2]; // blocks and bytes in use
static int64_t arena_limit = INT64_MAX, arena_peak; // what may be in use; what has been
extern void sim_refused(size_t n, int64_t live);
void sim_arena_cap(int64_t more) { arena_peak = arena_live[1]; arena_limit = more < 0 ? INT64_MAX : arena_live[1] + more; }
int64_t sim_arena_peak(void) { return arena_peak; }
void sim_arena_live(int64_t *v) { v[0] = arena_live[0]; v[1] = arena_live[1]; }
void sim_arena_init(void) {
  if (arena_ready) return;
  void *p = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | 0x100000, -1, 0);
  arena_ready = (uintptr_t)p == ARENA_BASE;
  arena_top = ARENA_BASE;
}
static int arena_class(size_t n, size_t al) {
  if (n < al) n = al;
  if (n < 16) n = 16;
  return 64 - __builtin_clzl(n - 1);
}
// where in its block an allocation starts: allocations need not be aligned to their size
static uint32_t arena_skew;
void sim_set_skew(uint32_t v) { arena_skew = v; }
static inline size_t skew_of(int c, size_t n, size_t al) {
  size_t slack = (1UL << c) - n;
  if (!arena_skew || al > 16 || n > (1UL << c) || slack < 16) return 0;
  if (slack > 2048) slack = 2048;
  return (arena_skew * 2654435761u >> 7) % (slack / 16 + 1) * 16;
}
static inline void *block_of(void *p, int c) {
  size_t k = 1UL << c, m = k < 4096 ? k : 4096;
  return (void *)((uintptr_t)p & ~(m - 1));
}
static inline int arena_has(void *p) { return (uintptr_t)p - ARENA_BASE < ARENA_SIZE; }
static void alock(void) { while (__sync_lock_test_and_set(&arena_lock, 1)) ; }
static void aunlock(void) { __sync_lock_release(&arena_lock); }
static void *sys_alloc(size_t n, size_t al) {
  if (al <= 16) return malloc(n);
  void *p = NULL;
  return posix_memalign(&p, al, n) ? NULL : p;
}
void *sim_alloc(size_t n, size_t al) {
  int c = arena_class(n, al);
  if (!sim_active || !arena_ready) return sys_alloc(n, al);
  if (arena_live[1] + (int64_t)n > arena_limit) {
    sim_active = 0;
    sim_refused(n, arena_live[1]);
    sim_active = 1;
    return NULL;
  }
  if (c >= NCLASS) return sys_alloc(n, al);
  alock();
  uintptr_t p = arena_free[c];
  if (p) {
    arena_free[c] = *(uintptr_t *)p;
  } else {
    size_t k = 1UL << c, m = (k < 4096 ? k : 4096);
    if (al > m) m = al;
    p = (arena_top + m - 1) & ~(m - 1);
    if (p + k > ARENA_BASE + ARENA_SIZE) { aunlock(); return sys_alloc(n, al); }
    arena_top = p + k;
  }
  arena_live[0]++;
  arena_live[1] += n;
  if (arena_live[1] > arena_peak) arena_peak = arena_live[1];
  aunlock();
  return (void *)(p + skew_of(c, n, al));
}
void sim_dealloc(void *p, size_t n, size_t al) {
  if (!arena_has(p)) { free(p); return; }
  int c = arena_class(n, al);
  p = block_of(p, c);
  alock();
  *(uintptr_t *)p = arena_free[c];
  arena_free[c] = (uintptr_t)p;
  arena_live[0]--;
  arena_live[1] -= n;
  aunlock();
}
void *sim_realloc(void *p, size_t n, size_t al, size_t m) {
  if (!arena_has(p) && !sim_active && al <= 16) return realloc(p, m);
  void *q = sim_alloc(m, al);
  if (q) { memcpy(q, p, n < m ? n : m); sim_dealloc(p, n, al); }
  return q;
}
void sim_junk(size_t n, int fr) {
  int a = sim_active;
  sim_active = 1;
  void *p = sim_alloc(n, 8), *q = sim_alloc(n, 8);
  if (fr) sim_dealloc(p, n, 8);
  (void)q;
  sim_active = a;
}
