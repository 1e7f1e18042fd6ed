// Preloaded into a run: counts the operations that change files in the working
// directory and injects a crash or a fault at one of them.
//   CRASH_AT=n    the operation it happens at (0: never, only count)
//   CRASH_MODE=   kill   the process dies in the middle of the operation
//                 power  the same, and data not yet synced to disk is lost
//                 full   from here on the disk is full
//                 blip   this one operation fails, later ones succeed
//   CRASH_LOG=f   one line per operation
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int at, mode, logfd = -1, full, busy;
static long nev;
static char cwd[4096];
static struct { int dup; long synced; int dirty; char path[512]; } F[512];
static int nF, fd2F[1024];
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void start(void) {
  const char *s = getenv("CRASH_AT"), *m = getenv("CRASH_MODE"), *l = getenv("CRASH_LOG");
  at = s ? atoi(s) : 0; mode = m ? m[0] : 'k';
  if (!getcwd(cwd, sizeof cwd)) _exit(99);
  memset(fd2F, -1, sizeof fd2F);
  if (l) logfd = open(l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (logfd >= 0) { int h = fcntl(logfd, F_DUPFD_CLOEXEC, 900); if (h >= 0) { close(logfd); logfd = h; } }
}
static int wanted(const char *p) {
  char b[8192];
  if (p[0] != '/') { if (p[0] == '.' && p[1] == '/') p += 2; }
  else { size_t n = strlen(cwd); if (strncmp(p, cwd, n) || p[n] != '/') return 0; p += n + 1; }
  (void) b;
  size_t n = strlen(p);
  return !(n > 4 && !strcmp(p + n - 4, ".trc")) && strcmp(p, "stdout") && strcmp(p, "stderr") && strcmp(p, "ops");
}
static int of_fd(int fd) { return fd >= 0 && fd < 1024 ? fd2F[fd] : -1; }
static void track(int fd, const char *path) {
  if (fd < 0 || fd >= 1024 || !wanted(path) || nF >= 512) return;
  int k; struct stat st;
  fstat(fd, &st);
  if (!S_ISREG(st.st_mode)) return;
  for (k = 0; k < nF; k++) if (!strcmp(F[k].path, path)) break;
  if (k == nF) nF++; else close(F[k].dup);
  F[k].dup = fcntl(fd, F_DUPFD_CLOEXEC, 300); F[k].synced = st.st_size; F[k].dirty = 0;
  snprintf(F[k].path, sizeof F[k].path, "%s", path);
  fd2F[fd] = k;
}
static void die(void) {
  if (mode == 'p') for (int k = 0; k < nF; k++) if (F[k].dirty) { struct stat st; fstat(F[k].dup, &st); if (st.st_size > F[k].synced) if (ftruncate(F[k].dup, F[k].synced)) _exit(98); }
  syscall(SYS_kill, getpid(), SIGKILL);
  for (;;) pause();
}
// 1: this operation is the one
static int event(const char *op, const char *what) {
  if (busy) return 0;
  nev++;
  if (logfd >= 0) { char b[700]; int n = snprintf(b, sizeof b, "%ld %s %s\n", nev, op, what); syscall(SYS_write, logfd, b, n); }
  return at && nev == at;
}
static int fails(int now) { if (now && (mode == 'f' || mode == 'b')) { if (mode == 'f') full = 1; return 1; } return full; }

// file opened for writing
static FILE *opened(FILE *f, const char *p, const char *m) {
  if (!f || m[0] == 'r' && !strchr(m, '+') || !wanted(p)) return f;
  track(fileno(f), p);
  int now = event("open", p);
  if (now && (mode == 'k' || mode == 'p')) die();
  fails(now && mode == 'f');
  return f;
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return opened(real(p, m), p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return opened(real(p, m), p, m); }
static int openx(int fd, const char *p, int flags) {
  if (fd < 0 || !(flags & (O_WRONLY | O_RDWR)) || !wanted(p)) return fd;
  track(fd, p);
  int now = event("open", p);
  if (now && (mode == 'k' || mode == 'p')) die();
  fails(now && mode == 'f');
  return fd;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); REAL(int, open, const char *, int, ...); return openx(real(p, fl, md), p, fl); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); REAL(int, open64, const char *, int, ...); return openx(real(p, fl, md), p, fl); }

// data through stdio
static size_t broken_fwrite(size_t (*real)(const void *, size_t, size_t, FILE *), const void *b, size_t s, size_t n, FILE *f) {
  // the device under the descriptor has no space: the real stdio and kernel produce the error
  int fd = fileno(f), keep = dup(fd), dev = syscall(SYS_openat, AT_FDCWD, "/dev/full", O_WRONLY, 0);
  busy = 1; dup2(dev, fd); close(dev);
  size_t r = real(b, s, n, f);
  if (fflush(f)) r = 0;
  dup2(keep, fd); close(keep); busy = 0;
  return r;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  int k = of_fd(fileno(f));
  if (k < 0 || busy) return real(b, s, n, f);
  int now = event("fwrite", F[k].path);
  if (now && (mode == 'k' || mode == 'p')) { busy = 1; F[k].dirty = 1; real(b, 1, s * n / 2, f); if (nev & 1) fflush(f); die(); }
  if (fails(now)) return broken_fwrite(real, b, s, n, f);
  F[k].dirty = 1;
  return real(b, s, n, f);
}
int fflush(FILE *f) {
  REAL(int, fflush, FILE *);
  int k = f ? of_fd(fileno(f)) : -1;
  if (k < 0 || busy) return real(f);
  int now = event("fflush", F[k].path);
  if (now && (mode == 'k' || mode == 'p')) die();
  if (fails(now)) { broken_fwrite(fwrite, "", 0, 0, f); errno = ENOSPC; return EOF; }
  return real(f);
}
int fclose(FILE *f) {
  REAL(int, fclose, FILE *);
  int fd = fileno(f), k = of_fd(fd);
  if (k < 0 || busy) return real(f);
  int now = event("fclose", F[k].path);
  if (now && (mode == 'k' || mode == 'p')) die();
  int r = 0;
  if (fails(now)) { broken_fwrite(fwrite, "", 0, 0, f); r = EOF; }
  fd2F[fd] = -1;
  if (real(f)) r = EOF;
  if (r) errno = ENOSPC;
  return r;
}
int fsync(int fd) {
  REAL(int, fsync, int);
  int k = of_fd(fd);
  if (k < 0 || busy) return real(fd);
  int now = event("fsync", F[k].path);
  if (now && (mode == 'k' || mode == 'p')) die();
  if (fails(now)) { errno = ENOSPC; return -1; }
  struct stat st; fstat(fd, &st); F[k].synced = st.st_size; F[k].dirty = 0;
  return 0;      // no need to wait for a real disk
}
int fdatasync(int fd) { return fsync(fd); }
void sync(void) { for (int k = 0; k < nF; k++) { struct stat st; fstat(F[k].dup, &st); F[k].synced = st.st_size; F[k].dirty = 0; } }

// data through descriptors (the HDF5 library)
#define W(name, off) \
ssize_t name(int fd, const void *b, size_t n, off_t o) { \
  REAL(ssize_t, name, int, const void *, size_t, off_t); \
  int k = of_fd(fd); if (k < 0 || busy) return real(fd, b, n, o); \
  int now = event("pwrite", F[k].path); \
  if (now && (mode == 'k' || mode == 'p')) { F[k].dirty = 1; real(fd, b, n / 2, o); die(); } \
  if (fails(now)) { errno = ENOSPC; return -1; } \
  F[k].dirty = 1; return real(fd, b, n, o); }
W(pwrite, o) W(pwrite64, o)
ssize_t write(int fd, const void *b, size_t n) {
  int k = of_fd(fd); if (k < 0 || busy) return syscall(SYS_write, fd, b, n);
  int now = event("write", F[k].path);
  if (now && (mode == 'k' || mode == 'p')) { F[k].dirty = 1; syscall(SYS_write, fd, b, n / 2); die(); }
  if (fails(now)) { errno = ENOSPC; return -1; }
  F[k].dirty = 1; return syscall(SYS_write, fd, b, n);
}
int ftruncate(int fd, off_t n) {
  int k = of_fd(fd); if (k < 0 || busy) return syscall(SYS_ftruncate, fd, n);
  int now = event("truncate", F[k].path);
  if (now && (mode == 'k' || mode == 'p')) die();
  if (fails(now)) { errno = ENOSPC; return -1; }
  F[k].dirty = 1; if (F[k].synced > n) F[k].synced = n;
  return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int close(int fd) { if (fd >= 0 && fd < 1024) fd2F[fd] = -1; return syscall(SYS_close, fd); }

// names
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *);
  int w = wanted(b), now = w && event("rename", b);
  if (now && (mode == 'k' || mode == 'p')) { if (nev & 1) { real(a, b); } die(); }
  if (w && now && mode == 'b') { errno = EIO; return -1; }
  if (now) fails(now);
  int r = real(a, b);
  if (!r) for (int k = 0; k < nF; k++) if (!strcmp(F[k].path, a)) snprintf(F[k].path, sizeof F[k].path, "%s", b);
  return r;
}
static int gone(const char *p, const char *op) {
  int now = wanted(p) && event(op, p);
  if (now && (mode == 'k' || mode == 'p')) { if (nev & 1) syscall(SYS_unlinkat, AT_FDCWD, p, 0); die(); }
  if (now && mode == 'f') fails(now);
  return now && mode == 'b';
}
int remove(const char *p) { REAL(int, remove, const char *); if (gone(p, "remove")) { errno = EIO; return -1; } return real(p); }
int unlink(const char *p) { REAL(int, unlink, const char *); if (gone(p, "remove")) { errno = EIO; return -1; } return real(p); }
