/* LD_PRELOAD library: logs every change of files below MC_TRACE_DIR made by
 * the process, with the data written, to MC_TRACE_LOG, in program order. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int log_fd = -1;
static const char *dir;
static size_t dir_len;

__attribute__((constructor)) static void init(void) {
  const char *path = getenv("MC_TRACE_LOG");
  dir = getenv("MC_TRACE_DIR");
  if (!path || !dir) return;
  dir_len = strlen(dir);
  int fd = syscall(SYS_openat, AT_FDCWD, path,
                   O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 700);
  syscall(SYS_close, fd);
}

static int inside(const char *p) {
  return log_fd >= 0 && p && !strncmp(p, dir, dir_len);
}

static const char *absolute(int at, const char *p, char *buf) {
  char base[PATH_MAX];
  if (!p || p[0] == '/') return p;
  if (at == AT_FDCWD) {
    if (syscall(SYS_getcwd, base, sizeof base) < 0) return NULL;
  } else {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", at);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, base, sizeof base - 1);
    if (n < 0) return NULL;
    base[n] = 0;
  }
  snprintf(buf, PATH_MAX, "%s/%s", base, p);
  return buf;
}

static const char *path_of(int fd, char *buf) {
  char link[64];
  if (log_fd < 0) return NULL;
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, link, buf, PATH_MAX - 1);
  if (n < 0) return NULL;
  buf[n] = 0;
  return inside(buf) ? buf : NULL;
}

static void emit(const char *head, const void *data, size_t n) {
  size_t h = strlen(head);
  char *all = malloc(h + n);
  memcpy(all, head, h);
  if (n) memcpy(all + h, data, n);
  size_t done = 0;
  while (done < h + n) {
    ssize_t w = syscall(SYS_write, log_fd, all + done, h + n - done);
    if (w <= 0) abort();
    done += w;
  }
  free(all);
}

static void log_write(const char *p, off_t off, const void *data, size_t n) {
  char head[PATH_MAX + 100];
  snprintf(head, sizeof head, "W %lld %zu %s\n", (long long)off, n, p);
  emit(head, data, n);
}

static void log_plain(const char *what, long long n, const char *p) {
  char head[PATH_MAX + 100];
  snprintf(head, sizeof head, "%s %lld 0 %s\n", what, n, p);
  emit(head, NULL, 0);
}

static int do_open(int at, const char *p, int flags, mode_t mode) {
  char buf[PATH_MAX];
  int fd = syscall(SYS_openat, at, p, flags, mode);
  int err = errno;
  const char *a = absolute(at, p, buf);
  if (fd >= 0 && inside(a) && (flags & (O_CREAT | O_TRUNC)))
    log_plain("O", !!(flags & O_TRUNC), a);
  errno = err;
  return fd;
}

#define MODE \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, mode); }
int openat64(int at, const char *p, int flags, ...) { MODE return do_open(at, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t write(int fd, const void *d, size_t n) {
  char buf[PATH_MAX];
  const char *p = path_of(fd, buf);
  ssize_t w = syscall(SYS_write, fd, d, n);
  if (p && w > 0) {
    int err = errno;
    log_write(p, syscall(SYS_lseek, fd, 0, SEEK_CUR) - w, d, w);
    errno = err;
  }
  return w;
}

ssize_t pwrite(int fd, const void *d, size_t n, off_t off) {
  char buf[PATH_MAX];
  const char *p = path_of(fd, buf);
  ssize_t w = syscall(SYS_pwrite64, fd, d, n, off);
  if (p && w > 0) log_write(p, off, d, w);
  return w;
}
ssize_t pwrite64(int fd, const void *d, size_t n, off64_t off) { return pwrite(fd, d, n, off); }

ssize_t writev(int fd, const struct iovec *v, int n) {
  char buf[PATH_MAX];
  if (!path_of(fd, buf)) return syscall(SYS_writev, fd, v, n);
  ssize_t all = 0;
  for (int i = 0; i < n; i++) {
    ssize_t w = write(fd, v[i].iov_base, v[i].iov_len);
    if (w < 0) return all ? all : w;
    all += w;
  }
  return all;
}

size_t fwrite(const void *d, size_t size, size_t n, FILE *f) {
  static size_t (*real)(const void *, size_t, size_t, FILE *);
  char buf[PATH_MAX];
  if (!real) real = dlsym(RTLD_NEXT, "fwrite");
  if (!path_of(fileno(f), buf) || !size || !n) return real(d, size, n, f);
  fflush(f);
  size_t done = 0;
  while (done < size * n) {
    ssize_t w = write(fileno(f), (const char *)d + done, size * n - done);
    if (w <= 0) return done / size;
    done += w;
  }
  fseek(f, 0, SEEK_CUR);
  return n;
}

/* copies inside of the kernel: the caller falls back to read and write */
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
  char buf[PATH_MAX];
  if (path_of(out, buf)) { errno = ENOTSOCK; return -1; }
  return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned flags) {
  char buf[PATH_MAX];
  if (path_of(out, buf)) { errno = EXDEV; return -1; }
  return syscall(SYS_copy_file_range, in, oi, out, oo, n, flags);
}

int ftruncate(int fd, off_t n) {
  char buf[PATH_MAX];
  const char *p = path_of(fd, buf);
  int r = syscall(SYS_ftruncate, fd, n);
  if (p && !r) log_plain("T", n, p);
  return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n) {
  char buf[PATH_MAX];
  int r = syscall(SYS_truncate, p, n);
  const char *a = absolute(AT_FDCWD, p, buf);
  if (!r && inside(a)) log_plain("T", n, a);
  return r;
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }

static int do_rename(int a, const char *p, int b, const char *q, unsigned fl) {
  char x[PATH_MAX], y[PATH_MAX];
  int r = syscall(SYS_renameat2, a, p, b, q, fl);
  int err = errno;
  const char *from = absolute(a, p, x), *to = absolute(b, q, y);
  if (!r && inside(from) && inside(to)) {
    log_write(from, -1, to, strlen(to));
  }
  errno = err;
  return r;
}
int rename(const char *p, const char *q) { return do_rename(AT_FDCWD, p, AT_FDCWD, q, 0); }
int renameat(int a, const char *p, int b, const char *q) { return do_rename(a, p, b, q, 0); }
int renameat2(int a, const char *p, int b, const char *q, unsigned fl) { return do_rename(a, p, b, q, fl); }

static int do_unlink(int at, const char *p, int flags) {
  char buf[PATH_MAX];
  const char *a = absolute(at, p, buf);
  int r = syscall(SYS_unlinkat, at, p, flags);
  if (!r && inside(a)) log_plain("U", 0, a);
  return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int at, const char *p, int flags) { return do_unlink(at, p, flags); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) {
  int r = unlink(p);
  if (r && errno == EISDIR) r = rmdir(p);
  return r;
}

int mkdirat(int at, const char *p, mode_t m) {
  char buf[PATH_MAX];
  const char *a = absolute(at, p, buf);
  int r = syscall(SYS_mkdirat, at, p, m);
  if (!r && inside(a)) log_plain("M", 0, a);
  return r;
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
