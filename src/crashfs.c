// LD_PRELOAD: ends the process at the n-th file system operation on a checkpoint file.
// CRASHFS_NEEDLE: substring of the paths that count; CRASHFS_AT: number of the operation
// (0: never), CRASHFS_COUNT: file the number of operations is written to at exit;
// CRASHFS_RANK: rank (OMPI_COMM_WORLD_RANK) that dies; CRASHFS_TORN: write half of the data first.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long count, at = -1;
static int armed = -1, torn;
static const char *needle;
static char tracked[4096];

static void init(void)
{
  if (armed >= 0)
    return;
  armed = 0;
  needle = getenv("CRASHFS_NEEDLE");
  if (!needle)
    return;
  const char *r = getenv("CRASHFS_RANK"), *me = getenv("OMPI_COMM_WORLD_RANK");
  armed = !r || !me || atoi(r) == atoi(me);
  at = getenv("CRASHFS_AT") ? atol(getenv("CRASHFS_AT")) : 0;
  torn = getenv("CRASHFS_TORN") != NULL;
}

static void bump(void)
{
  const char *f = getenv("CRASHFS_COUNT");
  if (f) {
    char b[64];
    int n = snprintf(b, sizeof b, "%ld\n", count);
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
    ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
    int fd = o(f, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      if (w(fd, b, n) != n) {
      }
      int (*cl)(int) = dlsym(RTLD_NEXT, "close");
      cl(fd);
    }
  }
}

// true: this operation is the last one
static int hit(void)
{
  if (!armed)
    return 0;
  ++count;
  bump();
  return at && count == at;
}

static int ours(const char *p)
{
  init();
  return armed && p && strstr(p, needle) != NULL;
}

static int ours_fd(int fd)
{
  init();
  return armed && fd >= 0 && fd < (int)sizeof(tracked) && tracked[fd];
}

static void die(void) { _exit(86); }

static void track(int fd, const char *p)
{
  if (fd >= 0 && fd < (int)sizeof(tracked))
    tracked[fd] = armed > 0 && strstr(p, needle) != NULL;
}

#define REAL(ret, name, ...) ret (*real)(__VA_ARGS__) = dlsym(RTLD_NEXT, #name)

int rename(const char *a, const char *b)
{
  REAL(int, rename, const char *, const char *);
  if (ours(a) || ours(b))
    if (hit())
      die();
  return real(a, b);
}

int unlink(const char *a)
{
  REAL(int, unlink, const char *);
  if (ours(a) && hit())
    die();
  return real(a);
}

int remove(const char *a)
{
  REAL(int, remove, const char *);
  if (ours(a) && hit())
    die();
  return real(a);
}

int truncate64(const char *a, off_t n)
{
  REAL(int, truncate64, const char *, off_t);
  if (ours(a) && hit())
    die();
  return real(a, n);
}

int ftruncate64(int fd, off_t n)
{
  REAL(int, ftruncate64, int, off_t);
  if (ours_fd(fd) && hit())
    die();
  return real(fd, n);
}

int ftruncate(int fd, off_t n)
{
  REAL(int, ftruncate, int, off_t);
  if (ours_fd(fd) && hit())
    die();
  return real(fd, n);
}

#define OPEN(name)                                                                \
  int name(const char *p, int flags, ...)                                         \
  {                                                                               \
    va_list ap;                                                                   \
    va_start(ap, flags);                                                          \
    mode_t m = va_arg(ap, mode_t);                                                \
    va_end(ap);                                                                   \
    int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, #name);                \
    int mine = ours(p) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));      \
    if (mine && hit())                                                            \
      die();                                                                      \
    int fd = real(p, flags, m);                                                   \
    if (mine)                                                                     \
      track(fd, p);                                                               \
    else if (fd >= 0 && fd < (int)sizeof(tracked))                                \
      tracked[fd] = 0;                                                            \
    return fd;                                                                    \
  }
OPEN(open)
OPEN(open64)

#define FOPEN(name)                                                               \
  FILE *name(const char *p, const char *mode)                                     \
  {                                                                               \
    REAL(FILE *, name, const char *, const char *);                               \
    int mine = ours(p) && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+')); \
    if (mine && hit())                                                            \
      die();                                                                      \
    FILE *f = real(p, mode);                                                      \
    if (f) {                                                                      \
      int fd = fileno(f);                                                         \
      if (fd >= 0 && fd < (int)sizeof(tracked))                                   \
        tracked[fd] = mine;                                                       \
      if (mine)                                                                   \
        setvbuf(f, NULL, _IOFBF, 512);                                            \
    }                                                                             \
    return f;                                                                     \
  }
FOPEN(fopen)
FOPEN(fopen64)

ssize_t write(int fd, const void *b, size_t n)
{
  REAL(ssize_t, write, int, const void *, size_t);
  if (ours_fd(fd) && hit()) {
    if (torn && real(fd, b, n / 2) < 0) {
    }
    die();
  }
  return real(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (ours_fd(fd) && hit()) {
    if (torn && n > 0 && real(fd, v, 1) < 0) {
    }
    die();
  }
  return real(fd, v, n);
}

size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  if (f && ours_fd(fileno(f)) && hit()) {
    if (torn) {
      real(b, s, n / 2, f);
      fflush(f);
    }
    die();
  }
  return real(b, s, n, f);
}

#define PW(name, off)                                                             \
  ssize_t name(int fd, const void *b, size_t n, off o)                            \
  {                                                                               \
    REAL(ssize_t, name, int, const void *, size_t, off);                          \
    if (ours_fd(fd) && hit()) {                                                   \
      if (torn && real(fd, b, n / 2, o) < 0) {                                    \
      }                                                                           \
      die();                                                                      \
    }                                                                             \
    return real(fd, b, n, o);                                                     \
  }
PW(pwrite, off_t)
PW(pwrite64, off_t)

int close(int fd)
{
  REAL(int, close, int);
  if (ours_fd(fd)) {
    tracked[fd] = 0;
    if (hit())
      die();
  }
  return real(fd);
}

int fclose(FILE *f)
{
  REAL(int, fclose, FILE *);
  int fd = f ? fileno(f) : -1;
  if (ours_fd(fd)) {
    tracked[fd] = 0;
    if (hit())
      die(); /* what is still buffered is lost */
  }
  return real(f);
}
