/* LD_PRELOAD shim: counts (and can cut short or fail) the file operations on paths below one directory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[4096];
static int armed, mode, tracked[4096];
static long target, count;
/* mode 0: count only; 1: die before the operation; 2: die half way through a write (or after another operation);
   3: this and every later write/truncate fails with ENOSPC; 4: only this one fails with EIO */
void vf_arm(const char *d, long k, int m) { strncpy(dir, d, sizeof dir - 1); target = k; mode = m; count = 0; armed = 1; }
static char kinds[1 << 20];
long vf_count(void) { return count; }
const char *vf_kinds(void) { return kinds; } /* of the operations counted: o(pen) w(rite) t(runcate) r(ename) u(nlink) */
void vf_disarm(void) { armed = 0; }
static int hit(int kind) {
  long c = ++count;
  if (c < (long)sizeof kinds) kinds[c - 1] = kind;
  if (mode == 3) return c >= target;
  return mode && c == target;
}
static int in(const char *p) {
  char full[8192], cwd[4096];
  if (!armed || !p) return 0;
  if (p[0] != '/' && getcwd(cwd, sizeof cwd)) { snprintf(full, sizeof full, "%s/%s", cwd, p); p = full; }
  return strncmp(p, dir, strlen(dir)) == 0;
}
#define REAL(name) static __typeof__(&name) r; if (!r) r = dlsym(RTLD_NEXT, #name)
static void die(void) { _exit(77); }
static int do_open(int (*f)(const char *, int, ...), const char *p, int fl, mode_t m) {
  int t = in(p) && (fl & (O_WRONLY | O_RDWR));
  if (t && (fl & (O_TRUNC | O_CREAT))) {
    if (hit('o')) { if (mode == 1) die(); if (mode == 2) { f(p, fl, m); die(); } if (mode >= 3) { errno = mode == 3 ? ENOSPC : EIO; return -1; } }
  }
  int fd = f(p, fl, m);
  if (fd >= 0 && fd < 4096) tracked[fd] = t;
  return fd;
}
#define OPENER(name) int name(const char *p, int fl, ...) { REAL(name); mode_t m = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open((int (*)(const char *, int, ...))r, p, fl, m); }
OPENER(open) OPENER(open64)
int openat(int d, const char *p, int fl, ...) {
  REAL(openat); mode_t m = 0;
  if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
  int fd = r(d, p, fl, m);
  if (fd >= 0 && fd < 4096) tracked[fd] = in(p) && (fl & (O_WRONLY | O_RDWR));
  return fd;
}
int close(int fd) { REAL(close); if (fd >= 0 && fd < 4096) tracked[fd] = 0; return r(fd); }
#define ON(fd) (armed && (fd) >= 0 && (fd) < 4096 && tracked[fd])
#define WFAULT(full, half, kind) if (ON(fd) && hit(kind)) { if (mode == 1) die(); if (mode == 2) { half; die(); } errno = mode == 3 ? ENOSPC : EIO; return -1; } return full;
ssize_t write(int fd, const void *b, size_t n) { REAL(write); WFAULT(r(fd, b, n), r(fd, b, n / 2), 'w') }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); WFAULT(r(fd, b, n, o), r(fd, b, n / 2, o), 'w') }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); WFAULT(r(fd, b, n, o), r(fd, b, n / 2, o), 'w') }
ssize_t writev(int fd, const struct iovec *v, int c) { REAL(writev); WFAULT(r(fd, v, c), (c > 1 ? r(fd, v, c / 2) : r(fd, v, 0)), 'w') }
int ftruncate(int fd, off_t n) { REAL(ftruncate); WFAULT(r(fd, n), r(fd, n), 't') }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); WFAULT(r(fd, n), r(fd, n), 't') }
int fsync(int fd) { REAL(fsync); return r(fd); }
#define PFAULT(full, kind) if ((in(p) || in(q)) && hit(kind)) { if (mode == 1) die(); if (mode == 2) { full; die(); } errno = mode == 3 ? ENOSPC : EIO; return -1; } return full;
int rename(const char *p, const char *q) { REAL(rename); PFAULT(r(p, q), 'r') }
int renameat(int a, const char *p, int b, const char *q) { REAL(renameat); PFAULT(r(a, p, b, q), 'r') }
int renameat2(int a, const char *p, int b, const char *q, unsigned f) { REAL(renameat2); PFAULT(r(a, p, b, q, f), 'r') }
int unlink(const char *p) { REAL(unlink); const char *q = NULL; PFAULT(r(p), 'u') }
int unlinkat(int a, const char *p, int f) { REAL(unlinkat); const char *q = NULL; PFAULT(r(a, p, f), 'u') }
int truncate(const char *p, off_t n) { REAL(truncate); const char *q = NULL; PFAULT(r(p, n), 't') }
int link(const char *p, const char *q) { REAL(link); PFAULT(r(p, q), 'r') }
