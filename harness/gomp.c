// OpenMP run-time for race detection: the entry points that gcc emits, on plain
// pthreads, so that ThreadSanitizer sees every synchronisation. Threads are
// created and joined per parallel region; VERIF_THREADS sets their number and
// VERIF_JITTER perturbs their order.
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>

typedef struct {
  int               n;
  pthread_barrier_t bar;
  pthread_mutex_t   mx;
  long              next, end, incr, chunk, started;   // work-shared loop
  int               singles, sections;
} Team;
typedef struct { void (*fn)(void *); void *data; Team *t; int id, ls, on; unsigned long region; } Arg;

static __thread Team *team;
static __thread int   me;
static __thread int   loop_seen, single_seen;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static unsigned long regions, threads_started;
static int wanted;

static int nthreads(void) {
  if (!wanted) {
    const char *s = getenv("VERIF_THREADS");
    wanted = s ? atoi(s) : 4;
    if (wanted < 1) wanted = 1;
  }
  return wanted;
}
static void jitter(int id, unsigned long region, int on) {
  if (!on) return;
  unsigned long h = (region * 2654435761u + id * 40503u + on) % 7;
  if (h == 0) usleep(200);
  else if (h < 3) sched_yield();
}
static void *start(void *p) {
  Arg *a = p;
  team = a->t; me = a->id; single_seen = 0; loop_seen = a->ls;
  jitter(a->id, a->region, a->on);
  a->fn(a->data);
  return NULL;
}
static void report(void) { fprintf(stderr, "GOMP regions %lu threads %lu\n", __atomic_load_n(&regions, 0), __atomic_load_n(&threads_started, 0)); }

#define API __attribute__((visibility("hidden")))
static void par(void (*fn)(void *), void *data, unsigned num, const Team *loop) {
  int n = num ? (int) num : team ? 1 : nthreads();
  unsigned long reg = __atomic_add_fetch(&regions, 1, 0);
  if (reg == 1) atexit(report);
  Team  t = {0};
  if (loop) t = *loop;
  t.n = n;
  int ls = loop != NULL, on = getenv("VERIF_JITTER") ? atoi(getenv("VERIF_JITTER")) : 0;
  Team *outer = team; int outer_me = me, ol = loop_seen, os = single_seen;
  pthread_barrier_init(&t.bar, NULL, n);
  pthread_mutex_init(&t.mx, NULL);
  pthread_t th[n]; Arg a[n];
  for (int i = 1; i < n; i++) {
    a[i] = (Arg){fn, data, &t, i, ls, on, reg};
    if (pthread_create(&th[i], NULL, start, &a[i])) { fprintf(stderr, "gomp: no thread\n"); abort(); }
    __atomic_add_fetch(&threads_started, 1, 0);
  }
  team = &t; me = 0; single_seen = 0; loop_seen = ls;
  jitter(0, reg, on);
  fn(data);
  for (int i = 1; i < n; i++) pthread_join(th[i], NULL);
  team = outer; me = outer_me; loop_seen = ol; single_seen = os;
  pthread_barrier_destroy(&t.bar);
  pthread_mutex_destroy(&t.mx);
}
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags) { (void) flags; par(fn, data, num, NULL); }
API void GOMP_barrier(void) { if (team) pthread_barrier_wait(&team->bar); }
API void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
API void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
API void GOMP_critical_name_start(void **p) { (void) p; pthread_mutex_lock(&crit); }
API void GOMP_critical_name_end(void **p) { (void) p; pthread_mutex_unlock(&crit); }
API void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
API void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
API bool GOMP_single_start(void) {
  if (!team) return true;
  pthread_mutex_lock(&team->mx);
  bool r = team->singles == single_seen;
  if (r) team->singles++;
  single_seen++;
  pthread_mutex_unlock(&team->mx);
  return r;
}
// loops with a dynamic, guided or runtime schedule: handed out in chunks
static bool take(long *s, long *e) {
  Team *t = team;
  pthread_mutex_lock(&t->mx);
  bool r = t->incr > 0 ? t->next < t->end : t->next > t->end;
  if (r) {
    *s = t->next;
    long to = t->next + t->chunk * t->incr;
    if (t->incr > 0 ? to > t->end : to < t->end) to = t->end;
    *e = t->next = to;
  }
  pthread_mutex_unlock(&t->mx);
  return r;
}
static bool loop_start(long s, long e, long incr, long chunk, long *ps, long *pe) {
  static Team serial = {.n = 1, .mx = PTHREAD_MUTEX_INITIALIZER};
  if (!team) { serial.started = loop_seen; team = &serial; pthread_barrier_init(&serial.bar, NULL, 1); }
  Team *t = team;
  pthread_mutex_lock(&t->mx);
  if (t->started == loop_seen) { t->started++; t->next = s; t->end = e; t->incr = incr; t->chunk = chunk > 0 ? chunk : 1; }
  loop_seen++;
  pthread_mutex_unlock(&t->mx);
  return take(ps, pe);
}
API bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
API bool GOMP_loop_dynamic_next(long *a, long *b) { return take(a, b); }
API bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
API bool GOMP_loop_guided_next(long *a, long *b) { return take(a, b); }
API bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
API bool GOMP_loop_runtime_next(long *a, long *b) { return take(a, b); }
API bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
API bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return take(a, b); }
API bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
API bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return take(a, b); }
API bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
API bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return take(a, b); }
API void GOMP_loop_end(void) { GOMP_barrier(); }
API void GOMP_loop_end_nowait(void) {}
#define PLOOP(NAME) API void NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void) f; par(fn, d, n, &(Team){.next = s, .end = e, .incr = i, .chunk = c > 0 ? c : 1, .started = 1}); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define RLOOP(NAME) API void NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void) f; par(fn, d, n, &(Team){.next = s, .end = e, .incr = i, .chunk = 1, .started = 1}); }
RLOOP(GOMP_parallel_loop_runtime) RLOOP(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
API unsigned GOMP_sections_next(void) { long a, b; return take(&a, &b) ? (unsigned) a : 0; }
API unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long) n + 1, 1, 1, &a, &b) ? (unsigned) a : 0; }
API void GOMP_sections_end(void) { GOMP_barrier(); }
API void GOMP_sections_end_nowait(void) {}
API void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned num, unsigned n, unsigned f) { (void) f; par(fn, d, num, &(Team){.next = 1, .end = (long) n + 1, .incr = 1, .chunk = 1, .started = 1}); }
API int omp_get_num_threads(void) { return team ? team->n : 1; }
API int omp_get_max_threads(void) { return nthreads(); }
API int omp_get_thread_num(void) { return team ? me : 0; }
API int omp_get_num_procs(void) { return nthreads(); }
API int omp_in_parallel(void) { return team && team->n > 1; }
API void omp_set_num_threads(int n) { wanted = n > 0 ? n : 1; }
API void omp_set_dynamic(int d) { (void) d; }
API void omp_set_nested(int d) { (void) d; }
API double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
