/* Preloaded into the command line tool: numbers its file operations, logs them, and makes one of
 * them fail (SIA_AT, SIA_KIND). Descriptors 0-2 and system paths are left alone.
 * kinds: e<errno> fail; s short transfer; S<errno> half transfer, next transfer of that file fails;
 *        i interrupted once; k killed before; h killed after half a transfer */
#define _GNU_SOURCE
#undef _FILE_OFFSET_BITS
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdatomic.h>

static atomic_int count = 0;
static int at = -1, logfd = -1, ready = 0, pending_fd = -1, pending_errno = 0;
static char kind = 0;
static int kerr = 0;
static unsigned char mine[4096];
static char names[4096][256];

__attribute__((constructor)) static void init(void) {
  const char *l = getenv("SIA_LOG"), *a = getenv("SIA_AT"), *k = getenv("SIA_KIND");
  if (l) {
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
    syscall(SYS_close, fd);
  }
  if (a) at = atoi(a);
  if (k && *k) { kind = k[0]; kerr = atoi(k + 1); }
  ready = 1;
}
static int watched(const char *p) {
  static const char *skip[] = {"/proc", "/sys/", "/dev/", "/etc/", "/usr/", "/lib"};
  for (unsigned i = 0; i < sizeof skip / sizeof *skip; i++)
    if (!strncmp(p, skip[i], strlen(skip[i]))) return 0;
  return ready;
}
static int mark(const char *op, const char *path, long n) {
  int i = atomic_fetch_add(&count, 1);
  if (logfd >= 0) {
    char b[512];
    int m = snprintf(b, sizeof b, "%d %s %ld %s\n", i, op, n, path);
    syscall(SYS_write, logfd, b, m);
  }
  if (i != at) return 0;
  if (kind == 'k') { kill(getpid(), SIGKILL); for (;;) pause(); }
  return 1;
}
static int faulty(int hit) { /* for operations without a size */
  if (!hit) return 0;
  if (kind == 'e' || kind == 'S') { errno = kerr; return 1; }
  if (kind == 'i') { errno = EINTR; return 1; }
  return 0;
}
static long do_open(int dir, const char *p, int fl, mode_t m) {
  if (watched(p)) {
    if (faulty(mark(fl & O_CREAT ? "create" : "open", p, 0))) return -1;
  }
  long fd = syscall(SYS_openat, dir, p, fl, m);
  if (fd < 0) { return -1; }
  if (fd < 4096) { mine[fd] = watched(p); if (mine[fd]) { strncpy(names[fd], p, 255); } }
  return fd;
}
#define VMODE va_list v; va_start(v, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(v, mode_t) : 0; va_end(v);
int open(const char *p, int fl, ...) { VMODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { VMODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { VMODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { VMODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int own(int fd) { return ready && fd > 2 && fd < 4096 && mine[fd]; }
static ssize_t xfer(int w, int fd, void *b, size_t n) {
  long call = w ? SYS_write : SYS_read;
  if (!own(fd)) return syscall(call, fd, b, n);
  if (fd == pending_fd && w == 1) { pending_fd = -1; errno = pending_errno; mark("write", names[fd], n); return -1; }
  if (mark(w ? "write" : "read", names[fd], n)) {
    size_t half = n > 1 ? n / 2 : n;
    switch (kind) {
      case 'e': errno = kerr; return -1;
      case 'i': errno = EINTR; return -1;
      case 's': return syscall(call, fd, b, half);
      case 'S': if (n < 2) { errno = kerr; return -1; } pending_fd = fd; pending_errno = kerr; return syscall(call, fd, b, half);
      case 'h': if (w && n > 1) syscall(call, fd, b, half); kill(getpid(), SIGKILL); for (;;) pause();
    }
  }
  return syscall(call, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return xfer(0, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return xfer(1, fd, (void *)b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!own(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return xfer(1, fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!own(fd)) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return xfer(0, fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) { errno = ENOSYS; return -1; }
int mkdir(const char *p, mode_t m) {
  if (watched(p) && faulty(mark("mkdir", p, 0))) return -1;
  return syscall(SYS_mkdir, p, m);
}
char *realpath(const char *p, char *r) {
  static char *(*next)(const char *, char *);
  if (!next) next = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
  if (watched(p) && faulty(mark("resolve", p, 0))) return NULL;
  return next(p, r);
}
/* callers probe it with null pointers, which the header's declaration rules out */
int shim_statx(int d, const char *p, int fl, unsigned mask, void *b) __asm__("statx");
int shim_statx(int d, const char *p, int fl, unsigned mask, void *b) {
  if (p && *p && watched(p) && faulty(mark("stat", p, 0))) return -1;
  return syscall(SYS_statx, d, p, fl, mask, b);
}
int rename(const char *p, const char *q) {
  if (watched(p) && faulty(mark("rename", q, 0))) return -1;
  return syscall(SYS_rename, p, q);
}
int ftruncate64(int fd, off64_t n) {
  if (own(fd) && faulty(mark("truncate", names[fd], n))) return -1;
  return syscall(SYS_ftruncate, fd, n);
}
int unlink(const char *p) { /* kill only */
  if (watched(p)) mark("unlink", p, 0);
  return syscall(SYS_unlink, p);
}
int fsync(int fd) {
  if (own(fd)) mark("fsync", names[fd], 0);
  return syscall(SYS_fsync, fd);
}
int close(int fd) {
  if (own(fd)) { mark("close", names[fd], 0); mine[fd] = 0; }
  return syscall(SYS_close, fd);
}
