/* Preloaded into the tools: numbers the file operations below a directory and makes one of them fail.
   VF_DIR  directory whose files are watched
   VF_LOG  file that receives one line per operation: "<n> <op> <path>"
   VF_AT   number of the operation that fails (1..)     VF_HOW  errno number | "short" | "kill" (before) | "killafter"
   VF_STICKY  "1": all later operations of the same kind fail too */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir_[4096], hows_[64]; static int logfd_ = -1, ready_, at_, sticky_, n_; static char stickyop_[32];
static char names_[1024][256]; /* watched descriptors */

static void start(void) {
  if (ready_) return; ready_ = 1;
  const char* d = getenv("VF_DIR"); if (d) snprintf(dir_, sizeof dir_, "%s", d);
  const char* l = getenv("VF_LOG"); if (l && *l) logfd_ = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
  const char* a = getenv("VF_AT"); at_ = a ? atoi(a) : 0; const char* h = getenv("VF_HOW"); if (h) snprintf(hows_, sizeof hows_, "%s", h);
  const char* s = getenv("VF_STICKY"); sticky_ = s && *s == '1';
}
static int inside(const char* p) {
  start(); if (!dir_[0] || !p) return 0;
  if (p[0] != '/') return 1; /* the tools run inside the directory */
  size_t n = strlen(dir_); return strncmp(p, dir_, n) == 0;
}
/* returns 0: go on, 1: fail with errno set, 2: short, 3: kill afterwards */
static int hit(const char* op, const char* path) {
  ++n_; char b[700]; int len = snprintf(b, sizeof b, "%d %s %s\n", n_, op, path); if (logfd_ >= 0) { if (syscall(SYS_write, logfd_, b, (size_t)len)) {} }
  int now = n_ == at_ || (sticky_ && at_ && n_ > at_ && !strcmp(op, stickyop_)); if (!now) return 0;
  snprintf(stickyop_, sizeof stickyop_, "%s", op);
  if (!strcmp(hows_, "kill")) { syscall(SYS_kill, getpid(), SIGKILL); }
  if (!strcmp(hows_, "killafter")) return 3;
  if (!strcmp(hows_, "short")) return 2;
  errno = atoi(hows_); return 1;
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
static void watch(int fd, const char* p) { if (fd >= 0 && fd < 1024) snprintf(names_[fd], sizeof names_[fd], "%s", p); }
static int watched(int fd) { return fd > 2 && fd < 1024 && names_[fd][0]; }

static int open_(const char* op, int (*real)(const char*, int, ...), const char* p, int fl, mode_t m) {
  int in = inside(p), h = in ? hit(fl & (O_WRONLY | O_RDWR) ? "openw" : "openr", p) : 0; (void)op;
  if (h == 1) return -1;
  int fd = real(p, fl, m); if (in) watch(fd, p); if (h == 3) die(); return fd;
}
#define OPEN(name) int name(const char* p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } REAL(int, #name, const char*, int, ...); return open_(#name, real, p, fl, m); }
OPEN(open)
OPEN(open64)
#define FOPEN(name) FILE* name(const char* p, const char* mode) { REAL(FILE*, #name, const char*, const char*); int in = inside(p), h = in ? hit(strpbrk(mode, "wa+") ? "openw" : "openr", p) : 0; if (h == 1) return NULL; FILE* f = real(p, mode); if (in && f) watch(fileno(f), p); if (h == 3) die(); return f; }
FOPEN(fopen)
FOPEN(fopen64)
ssize_t read(int fd, void* b, size_t n) {
  REAL(ssize_t, "read", int, void*, size_t); if (!watched(fd)) return real(fd, b, n);
  int h = hit("read", names_[fd]); if (h == 1) return -1; if (h == 2 && n > 1) n = n / 3 + 1;
  ssize_t r = real(fd, b, n); if (h == 3) die(); return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  REAL(ssize_t, "write", int, const void*, size_t); if (!watched(fd)) return real(fd, b, n);
  int h = hit("write", names_[fd]); if (h == 1) return -1; if (h == 2 && n > 1) n = n / 3 + 1;
  ssize_t r = real(fd, b, n); if (h == 3) die(); return r;
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  REAL(ssize_t, "writev", int, const struct iovec*, int); if (!watched(fd)) return real(fd, v, k);
  int h = hit("write", names_[fd]); if (h == 1) return -1;
  if (h == 2) { for (int i = 0; i < k; ++i) if (v[i].iov_len) { size_t n = v[i].iov_len > 1 ? v[i].iov_len / 3 + 1 : 1; ssize_t r = syscall(SYS_write, fd, v[i].iov_base, n); return r; } }
  ssize_t r = real(fd, v, k); if (h == 3) die(); return r;
}
int close(int fd) {
  REAL(int, "close", int); if (!watched(fd)) return real(fd);
  int h = hit("close", names_[fd]); names_[fd][0] = 0; int r = real(fd); if (h == 3) die(); if (h == 1) { errno = atoi(hows_); return -1; } return r;
}
int fclose(FILE* f) {
  REAL(int, "fclose", FILE*); int fd = f ? fileno(f) : -1; if (!watched(fd)) return real(f);
  int h = hit("close", names_[fd]); names_[fd][0] = 0; int r = real(f); if (h == 3) die(); if (h == 1) { errno = atoi(hows_); return EOF; } return r;
}
int rename(const char* a, const char* b) {
  REAL(int, "rename", const char*, const char*); int h = inside(a) || inside(b) ? hit("rename", b) : 0; if (h == 1) return -1; int r = real(a, b); if (h == 3) die(); return r;
}
int remove(const char* p) { REAL(int, "remove", const char*); int h = inside(p) ? hit("unlink", p) : 0; if (h == 1) return -1; int r = real(p); if (h == 3) die(); return r; }
int unlink(const char* p) { REAL(int, "unlink", const char*); int h = inside(p) ? hit("unlink", p) : 0; if (h == 1) return -1; int r = real(p); if (h == 3) die(); return r; }
