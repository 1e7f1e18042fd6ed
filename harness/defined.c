// Linked into the driver that runs under valgrind's memcheck: is what goes into
// files and what the observation points see defined?
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <hdf5.h>
#include <valgrind/memcheck.h>

static uintptr_t base;
static long undefined(const void *p, size_t n) {
  VALGRIND_DISABLE_ERROR_REPORTING;
  unsigned long a = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
  VALGRIND_ENABLE_ERROR_REPORTING;
  return a ? (long) (a - (unsigned long) p) : -1;
}
static long off(void *ra) {
  Dl_info d;
  if (!base && dladdr((void *) undefined, &d)) base = (uintptr_t) d.dli_fbase;
  return (long) ((uintptr_t) ra - base);
}
static long nseen, nbytes;
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) {
  static size_t (*real)(const void *, size_t, size_t, FILE *);
  if (!real) real = dlsym(RTLD_NEXT, "fwrite");
  if (f != stdout && f != stderr) {
    nseen++; nbytes += a * b;
    long u = undefined(p, a * b);
    if (u >= 0) { fprintf(stderr, "UNDEF file %lx byte %ld of %zu\n", off(__builtin_return_address(0)), u, a * b); VALGRIND_MAKE_MEM_DEFINED(p, a * b); }
  }
  return real(p, a, b, f);
}
herr_t H5Dwrite(hid_t d, hid_t t, hid_t m, hid_t s, hid_t x, const void *p) {
  static herr_t (*real)(hid_t, hid_t, hid_t, hid_t, hid_t, const void *);
  if (!real) real = dlsym(RTLD_NEXT, "H5Dwrite");
  hid_t sp = H5Dget_space(d);
  size_t n = (size_t) H5Sget_simple_extent_npoints(sp) * H5Tget_size(t);
  H5Sclose(sp);
  nseen++; nbytes += n;
  long u = undefined(p, n);
  if (u >= 0) {
    char nm[256] = "?", fn[256] = "?";
    H5Iget_name(d, nm, sizeof nm); H5Fget_name(d, fn, sizeof fn);
    fprintf(stderr, "UNDEF hdf5 %s %s element %ld of %zu\n", nm, fn, u / (long) H5Tget_size(t), n / H5Tget_size(t));
    VALGRIND_MAKE_MEM_DEFINED(p, n);
  }
  return real(d, t, m, s, x, p);
}
void vm_defined(const char *where, const char *name, const void *p, long size, long n) {
  nseen++; nbytes += size * n;
  long u = undefined(p, size * n);
  if (u >= 0) {
    char b[128];
    long c = 0;
    for (long i = 0; i < n; i++) if (undefined((const char *) p + i * size, size) >= 0) c++;
    fprintf(stderr, "UNDEF state %s %s element %ld of %ld, %ld in all\n", where, name, u / size, n, c);
  }
}
__attribute__((destructor)) static void end(void) { fprintf(stderr, "SEEN %ld buffers %ld bytes\n", nseen, nbytes); }
