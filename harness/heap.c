// Preloaded: follows heap blocks. At every vm_mark() call of the driver (end of a
// RunMDOODZ call) the blocks that are still live and were allocated since the
// previous mark are summarised per allocation site; open descriptors are counted.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <execinfo.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <dirent.h>

#define N (1 << 20)
#define BT 10
typedef struct { void *p; size_t n; int era; void *bt[BT]; int nb; } Blk;
static Blk *tab;
static long nalloc, nfree;
static int era, on;
static __thread int busy;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static inline unsigned hash(void *p) { uintptr_t x = (uintptr_t) p >> 4; x *= 0x9E3779B97F4A7C15ull; return (unsigned) (x >> 44) & (N - 1); }
static void add(void *p, size_t n) {
  if (!on || busy || !p) return;
  busy = 1;
  void *bt[BT + 2];
  int nb = backtrace(bt, BT + 2);
  pthread_mutex_lock(&mu);
  if (!tab) tab = __libc_calloc(N, sizeof *tab);
  unsigned h = hash(p), k;
  for (k = 0; k < N && tab[h].p > (void *) 1; k++) h = (h + 1) & (N - 1);
  if (k < N) { Blk *b = &tab[h]; b->p = p; b->n = n; b->era = era; b->nb = nb > 2 ? nb - 2 : 0; memcpy(b->bt, bt + 2, sizeof(void *) * b->nb); }
  nalloc++;
  pthread_mutex_unlock(&mu);
  busy = 0;
}
static void del(void *p) {
  if (!on || busy || !p || !tab) return;
  pthread_mutex_lock(&mu);
  unsigned h = hash(p);
  for (unsigned k = 0; k < N && tab[h].p; k++, h = (h + 1) & (N - 1))
    if (tab[h].p == p) { tab[h].p = (void *) 1; nfree++; break; }
  pthread_mutex_unlock(&mu);
}
void *malloc(size_t n) { void *p = __libc_malloc(n); add(p, n); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); add(p, a * b); return p; }
void *realloc(void *q, size_t n) { del(q); void *p = __libc_realloc(q, n); add(p, n); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); add(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **q, size_t a, size_t n) { *q = memalign(a, n); return *q ? 0 : 12; }
void free(void *p) { del(p); __libc_free(p); }

void heap_mark(const char *what) {
  busy = 1;
  const char *fn = getenv("HEAP_LOG");
  FILE *f = fn ? fopen(fn, "a") : NULL;
  int nfd = 0;
  DIR *d = opendir("/proc/self/fd");
  if (d) { while (readdir(d)) nfd++; closedir(d); }
  if (f) {
    fprintf(f, "MARK %s fds %d allocs %ld frees %ld\n", what, nfd - 3 - 1, nalloc, nfree);
    for (long i = 0; tab && i < N; i++)
      if (tab[i].p > (void *) 1 && tab[i].era == era) {
        fprintf(f, "LIVE %zu", tab[i].n);
        for (int j = 0; j < tab[i].nb; j++) {
          Dl_info di;
          if (dladdr(tab[i].bt[j], &di)) fprintf(f, " %s:%s:%lx", di.dli_fname ? (strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname) : "?", di.dli_sname ? di.dli_sname : "", (long) ((char *) tab[i].bt[j] - (char *) di.dli_fbase));
          else fprintf(f, " ?");
        }
        fprintf(f, "\n");
      }
    fclose(f);
  }
  era++;
  on = 1;
  busy = 0;
}
