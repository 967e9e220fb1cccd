/* A stand-in for the OpenMP runtime and for ThreadSanitizer's hooks.
 *
 * Code compiled with -fopenmp -fsanitize=thread and linked with this file runs its threads as
 * coroutines on one real thread.  Which thread goes on at each scheduling point is read from a
 * schedule; with `preempt` also single memory accesses are scheduling points.  Every access to
 * memory that is not on the running coroutine's own stack is recorded with the unit of work it
 * belongs to: the n-th SINGLE or SECTION of a phase, a chunk of a scheduled loop, or else the
 * thread.  Barriers separate phases.  Nothing here judges anything. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stddef.h>
#include <ucontext.h>
#include <sys/mman.h>

/* linked with --wrap: the code's own calls are recorded, ours are not */
void *__real_memset(void *, int, size_t); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t);
#define memset __real_memset
#define memcpy __real_memcpy
#define memmove __real_memmove
#define STACK (64UL << 20)
#define MAXT 64
enum { U_THREAD, U_SINGLE, U_SECTION, U_CHUNK };

struct thread {
  ucontext_t ctx;
  char *stack;
  bool done, waiting;
  int phase, singles, ukind, uno, wsh;        /* singles: SINGLE constructs passed in this phase */
  int loops;
  void (*fn)(void *);
  void *data;
};
static struct thread th[MAXT];
static ucontext_t home;
static int nthreads = 1, cur = -1, region = 0, live;
static int want_threads = 1;
static const int *sched; static int nsched, isched;
static uint64_t rng; static int preempt_every;
static int lock_owner = -1;
static bool in_atomic;

/* claims: which thread took / passed the k-th SINGLE (or section) of a phase */
struct claim { int region, phase, kind, no, thread, took; };
static struct claim *claims; static int nclaims, capclaims;
static void claim(int kind, int no, int took) {
  if (nclaims == capclaims) claims = realloc(claims, sizeof *claims * (capclaims = capclaims ? 2 * capclaims : 256));
  claims[nclaims++] = (struct claim){region, th[cur].phase, kind, no, cur, took};
}

/* ---- accesses ---- */
struct acc { uint64_t addr; int region, phase, kind, no, rw; };
static struct acc *tab; static size_t ntab, captab;
static uint64_t hash(const struct acc *a) {
  uint64_t h = a->addr * 0x9E3779B97F4A7C15ull;
  h ^= ((uint64_t)a->region << 40) ^ ((uint64_t)a->phase << 30) ^ ((uint64_t)a->kind << 28) ^ ((uint64_t)a->no << 4) ^ (uint64_t)a->rw;
  h *= 0xD6E8FEB86659FD93ull; return h ^ (h >> 32);
}
static void put(const struct acc *a) {
  if (2 * (ntab + 1) > captab) {
    struct acc *old = tab; size_t n = captab;
    captab = captab ? 2 * captab : 1 << 14; tab = calloc(captab, sizeof *tab); ntab = 0;
    for (size_t i = 0; i < n; i++) if (old[i].addr) put(&old[i]);
    free(old);
  }
  size_t i = hash(a) & (captab - 1);
  while (tab[i].addr) {
    if (!memcmp(&tab[i], a, sizeof *a)) return;
    i = (i + 1) & (captab - 1);
  }
  tab[i] = *a; ntab++;
}
static void yield_(void);
static void access_(const void *p, size_t n, int rw) {
  if (cur < 0) return;
  struct thread *t = &th[cur];
  uint64_t a = (uint64_t)p;
  if (a >= (uint64_t)t->stack && a < (uint64_t)t->stack + STACK) return;
  if (!in_atomic && lock_owner != cur)
    for (uint64_t w = a >> 2; w <= (a + n - 1) >> 2; w++) {
      struct acc r; memset(&r, 0, sizeof r);
      r.addr = w; r.region = region; r.phase = t->phase; r.kind = t->ukind; r.no = t->ukind == U_THREAD ? cur : t->uno; r.rw = rw;
      put(&r);
    }
  if (preempt_every && !in_atomic) {
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    if ((rng >> 33) % preempt_every == 0) yield_();
  }
}

/* ---- scheduling ---- */
static int pick(void) {             /* the schedule's thread, or the next one that can go on */
  int k = nsched ? sched[isched++ % nsched] : 0;
  for (int i = 0; i < nthreads; i++) {
    int t = (((k + i) % nthreads) + nthreads) % nthreads;
    if (!th[t].done && !th[t].waiting) return t;
  }
  return -1;
}
static void yield_(void) {          /* back to the scheduler loop */
  int me = cur;
  swapcontext(&th[me].ctx, &home);
}
static void entry(int i) { th[i].fn(th[i].data); th[i].done = true; live--; swapcontext(&th[i].ctx, &home); }

static void run(void (*fn)(void *), void *data, unsigned n) {
  if (cur >= 0) { fn(data); return; }          /* nested: one thread */
  nthreads = n ? (int)n : want_threads; if (nthreads > MAXT) nthreads = MAXT;
  live = nthreads;
  for (int i = 0; i < nthreads; i++) {
    memset(&th[i].done, 0, sizeof th[i] - offsetof(struct thread, done));
    th[i].fn = fn; th[i].data = data;
    if (!th[i].stack) th[i].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&th[i].ctx);
    th[i].ctx.uc_stack.ss_sp = th[i].stack; th[i].ctx.uc_stack.ss_size = STACK; th[i].ctx.uc_link = &home;
    makecontext(&th[i].ctx, (void (*)(void))entry, 1, i);
  }
  while (live) {
    int k = pick();
    if (k < 0) {                               /* everybody who is left waits: the barrier opens */
      for (int i = 0; i < nthreads; i++) if (th[i].waiting) { th[i].waiting = false; th[i].phase++; th[i].singles = 0; th[i].loops = 0; }
      continue;
    }
    cur = k; swapcontext(&home, &th[k].ctx); cur = -1;
  }
  region++;
}
static void unit(int kind, int no) { th[cur].ukind = kind; th[cur].uno = no; }

/* ---- work sharing state, per phase and ordinal ---- */
#define MAXW 4096
static struct { int region, phase, ord; long next, end, incr, chunk; int count; bool used; } ws[MAXW];
static int find(int ord, int kind) {
  int ph = th[cur].phase;
  for (int i = 0; i < MAXW; i++) {
    if (ws[i].used && ws[i].region == region && ws[i].phase == ph && ws[i].ord == ord * 4 + kind) return i;
    if (!ws[i].used) { ws[i].used = true; ws[i].region = region; ws[i].phase = ph; ws[i].ord = ord * 4 + kind; ws[i].count = 0; ws[i].next = 1; return i; }
  }
  abort();
}

/* ---- the runtime's interface ---- */
int omp_get_thread_num(void) { return cur < 0 ? 0 : cur; }
int omp_get_num_threads(void) { return cur < 0 ? 1 : nthreads; }
int omp_get_max_threads(void) { return want_threads; }
int omp_get_num_procs(void) { return want_threads; }
int omp_in_parallel(void) { return cur >= 0; }
void omp_set_num_threads(int n) { want_threads = n; }
int omp_get_thread_num_(void) { return omp_get_thread_num(); }
int omp_get_num_threads_(void) { return omp_get_num_threads(); }
int omp_get_max_threads_(void) { return want_threads; }
void omp_set_num_threads_(const int *n) { want_threads = *n; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run(fn, data, n); }
void GOMP_barrier(void) { unit(U_THREAD, 0); if (cur >= 0) { th[cur].waiting = true; yield_(); } }
bool GOMP_single_start(void) {
  unit(U_THREAD, 0);
  yield_();
  int no = ++th[cur].singles, w = find(no, 0);
  bool mine = ws[w].count++ == 0;
  claim(U_SINGLE, no, mine);
  if (mine) unit(U_SINGLE, no);
  return mine;
}
void GOMP_atomic_start(void) { while (lock_owner >= 0 && lock_owner != cur) yield_(); lock_owner = cur; }
void GOMP_atomic_end(void) { lock_owner = -1; }
void GOMP_critical_start(void) { GOMP_atomic_start(); }
void GOMP_critical_end(void) { GOMP_atomic_end(); }
void GOMP_critical_name_start(void **p) { GOMP_atomic_start(); }
void GOMP_critical_name_end(void **p) { GOMP_atomic_end(); }

unsigned GOMP_sections_next(void) {
  unit(U_THREAD, 0); yield_();
  int w = find(th[cur].loops, 1);
  if (ws[w].next > ws[w].end) return 0;
  unsigned k = (unsigned)ws[w].next++;
  int no = 1000 * th[cur].loops + (int)k;
  claim(U_SECTION, no, 1); unit(U_SECTION, no);
  return k;
}
unsigned GOMP_sections_start(unsigned n) {
  th[cur].loops++;
  int w = find(th[cur].loops, 1); ws[w].end = n;
  return GOMP_sections_next();
}
static unsigned par_sections;
void GOMP_sections_end_nowait(void) { unit(U_THREAD, 0); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned flags) {
  par_sections = count;
  /* threads find the construct ready-made: first construct of phase 0 */
  nthreads = n ? (int)n : want_threads;
  for (int i = 0; i < MAXW; i++)
    if (!ws[i].used) { ws[i].used = true; ws[i].region = region; ws[i].phase = 0; ws[i].ord = 0 * 4 + 1; ws[i].next = 1; ws[i].end = count; break; }
  run(fn, data, n);
}
static bool chunk_next(long *a, long *b) {
  unit(U_THREAD, 0); yield_();
  int w = find(th[cur].loops, 2);
  long left = ws[w].incr > 0 ? ws[w].end - ws[w].next : ws[w].next - ws[w].end;
  if (left <= 0) return false;
  long step = ws[w].chunk * ws[w].incr;
  *a = ws[w].next; *b = *a + step;
  if (ws[w].incr > 0 ? *b > ws[w].end : *b < ws[w].end) *b = ws[w].end;
  ws[w].next = *b;
  unit(U_CHUNK, 1000 * th[cur].loops + (int)(*a & 511));
  return true;
}
static bool loop_start(long s, long e, long incr, long chunk, long *a, long *b) {
  th[cur].loops++;
  int w = find(th[cur].loops, 2);
  if (!ws[w].count++) { ws[w].next = s; ws[w].end = e; ws[w].incr = incr; ws[w].chunk = chunk > 0 ? chunk : 1; }
  return chunk_next(a, b);
}
#define LOOP(k) \
  bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  bool GOMP_loop_##k##_next(long *a, long *b) { return chunk_next(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return chunk_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return chunk_next(a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { unit(U_THREAD, 0); }
static void par_loop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) {
  for (int k = 0; k < MAXW; k++)
    if (!ws[k].used) { ws[k].used = true; ws[k].region = region; ws[k].phase = 0; ws[k].ord = 0 * 4 + 2; ws[k].count = 1;
                       ws[k].next = s; ws[k].end = e; ws[k].incr = i; ws[k].chunk = c > 0 ? c : 1; break; }
  run(fn, d, n);
}
#define PLOOP(k) void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1); }

/* memory is not given back during a run: an address stands for one object */
void *__real_malloc(size_t); void __real_free(void *);
static void **kept; static size_t nkept, capkept;
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
void __wrap_free(void *p) {
  if (cur < 0) { __real_free(p); return; }
  if (nkept == capkept) kept = realloc(kept, sizeof *kept * (capkept = capkept ? 2 * capkept : 256));
  kept[nkept++] = p;
}

/* ---- ThreadSanitizer's hooks ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); } \
  void __tsan_volatile_read##n(void *p) { access_(p, n, 0); } \
  void __tsan_volatile_write##n(void *p) { access_(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) access_(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { if (n) access_(p, n, 1); }
void __tsan_vptr_update(void **p, void *v) {}
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int o) { return *p; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int o) { *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int o) { T x = *p; *p = v; return x; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int o) { T x = *p; *p = x + v; return x; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int o) { T x = *p; *p = x - v; return x; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int o) { T x = *p; *p = x & v; return x; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int o) { T x = *p; *p = x | v; return x; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) { if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) { T x = *p; if (x == c) *p = v; return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}

#undef memset
#undef memcpy
#undef memmove
void *__wrap_memset(void *p, int c, size_t n) { if (n) access_(p, n, 1); return __real_memset(p, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { access_(s, n, 0); access_(d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { access_(s, n, 0); access_(d, n, 1); } return __real_memmove(d, s, n); }

/* ---- for the harness ---- */
void vf_setup(int threads, const int *s, int n, long seed, int preempt) {
  want_threads = threads; sched = s; nsched = n; isched = 0; rng = (uint64_t)seed * 2862933555777941757ull + 3037000493ull; preempt_every = preempt;
  while (nkept) __real_free(kept[--nkept]);
  ntab = 0; if (tab) __real_memset(tab, 0, captab * sizeof *tab);
  nclaims = 0; region = 0; __real_memset(ws, 0, sizeof ws); lock_owner = -1; cur = -1;
}
long vf_accesses(long *out, long cap) {       /* rows of 6 */
  long k = 0;
  for (size_t i = 0; i < captab; i++) if (tab[i].addr) {
    if (out && k < cap) { long *o = out + 6 * k; o[0] = (long)tab[i].addr; o[1] = tab[i].region; o[2] = tab[i].phase; o[3] = tab[i].kind; o[4] = tab[i].no; o[5] = tab[i].rw; }
    k++;
  }
  return k;
}
long vf_claims(int *out, long cap) {          /* rows of 6 */
  for (long i = 0; i < nclaims && i < cap; i++) __real_memcpy(out + 6 * i, &claims[i], sizeof claims[i]);
  return nclaims;
}
