/* LD_PRELOAD shim: count the file operations on checkpoint files and kill the
 * process right before, in the middle of, or after the n-th one.
 *
 *   CRASH_AT     the operation to die at (0: never)
 *   CRASH_MODE   0: before the operation, 1: after the first half of the data
 *                (writes) or before the operation, 2: after the operation
 *   CRASH_RANK   the MPI rank this applies to
 *   CRASH_LOG    log file of the operations
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 4096
static char *fdname[NFD];
static int count, at = -1, mode, active, logfd = -1;

#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) \
    real = (__typeof__(&name))dlsym(RTLD_NEXT, #name);

static void init(void)
{
  if (at >= 0)
    return;
  const char *a = getenv("CRASH_AT"), *m = getenv("CRASH_MODE"),
             *r = getenv("CRASH_RANK"), *me = getenv("OMPI_COMM_WORLD_RANK"),
             *l = getenv("CRASH_LOG");
  at = a ? atoi(a) : 0;
  mode = m ? atoi(m) : 0;
  active = atoi(r ? r : "0") == atoi(me ? me : "0");
  if (active && l) {
    static int (*ropen)(const char *, int, ...);
    ropen = dlsym(RTLD_NEXT, "open");
    logfd = ropen(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  }
}

static int relevant(const char *p)
{
  return p && strstr(p, "-checkpoint") != 0;
}

static const char *base(const char *p)
{
  const char *s = strrchr(p, '/');
  return s ? s + 1 : p;
}

static void die(void)
{
  kill(getpid(), SIGKILL);
  for (;;)
    pause();
}

/* count an operation; returns 1 if we have to die in the middle of it */
static int tick(const char *op, const char *name)
{
  init();
  if (!active)
    return 0;
  ++count;
  if (logfd >= 0) {
    char b[300];
    int n = snprintf(b, sizeof b, "%d %s %s\n", count, op, base(name));
    static ssize_t (*rw)(int, const void *, size_t);
    rw = dlsym(RTLD_NEXT, "write");
    rw(logfd, b, n);
  }
  if (count == at) {
    if (mode == 0)
      die();
    return mode;
  }
  return 0;
}

static void flag(int fd, const char *p)
{
  if (fd >= 0 && fd < NFD) {
    free(fdname[fd]);
    fdname[fd] = relevant(p) ? strdup(p) : 0;
  }
}

static const char *name_of(int fd)
{
  return fd >= 0 && fd < NFD ? fdname[fd] : 0;
}

static int writing(int flags)
{
  return (flags & O_ACCMODE) != O_RDONLY;
}

#define OPEN(fn) \
  int fn(const char *p, int flags, ...) \
  { \
    REAL(fn) \
    va_list ap; \
    va_start(ap, flags); \
    int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; \
    va_end(ap); \
    int k = 0; \
    if (relevant(p) && writing(flags)) \
      k = tick("open", p); \
    if (k == 1) \
      die(); \
    int fd = real(p, flags, m); \
    if (relevant(p) && writing(flags)) \
      flag(fd, p); \
    else \
      flag(fd, 0); \
    if (k) \
      die(); \
    return fd; \
  }
OPEN(open)
OPEN(open64)

#define OPENAT(fn) \
  int fn(int d, const char *p, int flags, ...) \
  { \
    REAL(fn) \
    va_list ap; \
    va_start(ap, flags); \
    int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; \
    va_end(ap); \
    int k = 0; \
    if (relevant(p) && writing(flags)) \
      k = tick("open", p); \
    if (k == 1) \
      die(); \
    int fd = real(d, p, flags, m); \
    flag(fd, writing(flags) ? p : 0); \
    if (k) \
      die(); \
    return fd; \
  }
OPENAT(openat)
OPENAT(openat64)

#define FOPEN(fn) \
  FILE *fn(const char *p, const char *m) \
  { \
    REAL(fn) \
    int w = relevant(p) && strpbrk(m, "wa+"); \
    int k = w ? tick("open", p) : 0; \
    if (k == 1) \
      die(); \
    FILE *f = real(p, m); \
    if (f) \
      flag(fileno(f), w ? p : 0); \
    if (k) \
      die(); \
    return f; \
  }
FOPEN(fopen)
FOPEN(fopen64)

ssize_t write(int fd, const void *b, size_t n)
{
  REAL(write)
  const char *p = name_of(fd);
  int k = p ? tick("write", p) : 0;
  ssize_t r = real(fd, b, k == 1 ? n / 2 : n);
  if (k)
    die();
  return r;
}

#define PWRITE(fn, off) \
  ssize_t fn(int fd, const void *b, size_t n, off o) \
  { \
    REAL(fn) \
    const char *p = name_of(fd); \
    int k = p ? tick("write", p) : 0; \
    ssize_t r = real(fd, b, k == 1 ? n / 2 : n, o); \
    if (k) \
      die(); \
    return r; \
  }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *v, int n)
{
  REAL(writev)
  const char *p = name_of(fd);
  int k = p ? tick("write", p) : 0;
  ssize_t r = real(fd, v, k == 1 ? (n + 1) / 2 : n);
  if (k)
    die();
  return r;
}

#define PWRITEV(fn, off) \
  ssize_t fn(int fd, const struct iovec *v, int n, off o) \
  { \
    REAL(fn) \
    const char *p = name_of(fd); \
    int k = p ? tick("write", p) : 0; \
    ssize_t r = real(fd, v, k == 1 ? (n + 1) / 2 : n, o); \
    if (k) \
      die(); \
    return r; \
  }
PWRITEV(pwritev, off_t)
PWRITEV(pwritev64, off64_t)

size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
  REAL(fwrite)
  const char *p = name_of(fileno(f));
  int k = p ? tick("write", p) : 0;
  size_t r = real(b, s, k == 1 ? n / 2 : n, f);
  if (k) {
    fflush(f);
    die();
  }
  return r;
}

int ftruncate(int fd, off_t n)
{
  REAL(ftruncate)
  const char *p = name_of(fd);
  int k = p ? tick("truncate", p) : 0;
  if (k == 1)
    die();
  int r = real(fd, n);
  if (k)
    die();
  return r;
}

int close(int fd)
{
  REAL(close)
  const char *p = name_of(fd);
  int k = p ? tick("close", p) : 0;
  if (k == 1)
    die();
  if (p)
    flag(fd, 0);
  int r = real(fd);
  if (k)
    die();
  return r;
}

int fclose(FILE *f)
{
  REAL(fclose)
  int fd = fileno(f);
  const char *p = name_of(fd);
  int k = p ? tick("close", p) : 0;
  if (k == 1)
    die();
  if (p)
    flag(fd, 0);
  int r = real(f);
  if (k)
    die();
  return r;
}

int rename(const char *a, const char *b)
{
  REAL(rename)
  int k = relevant(a) || relevant(b) ? tick("rename", b) : 0;
  if (k == 1)
    die();
  int r = real(a, b);
  if (k)
    die();
  return r;
}

#define ONE(fn) \
  int fn(const char *a) \
  { \
    REAL(fn) \
    int k = relevant(a) ? tick(#fn, a) : 0; \
    if (k == 1) \
      die(); \
    int r = real(a); \
    if (k) \
      die(); \
    return r; \
  }
ONE(unlink)
ONE(remove)
