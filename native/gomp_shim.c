/* A small OpenMP runtime on pthreads, to observe and steer the parallel regions of the extension.
 *
 * - Every parallel region starts real threads (visible to ThreadSanitizer, unlike libgomp's
 *   futexes) and joins them.
 * - Loop iterations are handed out under a seeded policy (first come, random owner, round robin,
 *   all to one thread, blocks), always in increasing order for each thread, as dynamic schedules
 *   may do.  Handing out uses relaxed atomics only, so the loop itself orders nothing.
 * - Threads are delayed at seeded random points (region start, iteration, critical sections).
 * - Every event is counted and hashed, so a check can report what it actually saw.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <stdbool.h>

#define MAXSHARE 64
#define MAXT 256

typedef struct {
    long start, end, incr, chunk;
    long next;              /* relaxed atomic: next iteration index (first come) */
    int ready, left;
} Share;

typedef struct Team {
    int n;
    void (*fn)(void *);
    void *data;
    Share share[MAXSHARE];
    pthread_mutex_t lock;
    pthread_barrier_t bar;
    long single;
    long hash;
    struct Team *parent;
} Team;

typedef struct {
    Team *team;
    int tid;
    int nshare;             /* loops this thread has started */
    long pos;               /* last iteration number looked at */
    long single;
    uint64_t rng;
    void *prev;
} Self;

static __thread Self *me;
static int max_threads = 0;
static uint64_t g_seed = 0;
static int g_mode = 0;      /* assignment policy */
static int g_delay = 0;     /* in 1/256: how often to delay */
static pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t g_atomic = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t g_named = PTHREAD_MUTEX_INITIALIZER;

/* counters: regions, threads, iterations, criticals, delays, loops, contended criticals,
 * hash of who did what */
static long stat_[8];
#define COUNT(i) __atomic_fetch_add(&stat_[i], 1, __ATOMIC_RELAXED)

static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

static uint64_t rnd(void)
{
    if (!me) return 0;
    me->rng = mix(me->rng);
    return me->rng;
}

static void delay(void)
{
    if (!g_delay || !me) return;
    uint64_t r = rnd();
    if ((int)(r & 255) >= g_delay) return;
    COUNT(4);
    r >>= 8;
    switch (r % 4) {
      case 0: sched_yield(); break;
      case 1: { volatile int i; for (i=0; i<(int)((r>>8) % 3000); ++i); } break;
      case 2: usleep((r >> 8) % 50); break;
      default: usleep((r >> 8) % 400); break;
    }
}

/* control, called through ctypes */
void verif_omp_config(uint64_t seed, int mode, int delays)
{
    g_seed = seed; g_mode = mode; g_delay = delays;
}
void verif_omp_stats(long *out) { memcpy(out, stat_, sizeof(stat_)); }
void verif_omp_reset(void) { memset(stat_, 0, sizeof(stat_)); }

int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_get_max_threads(void) { return max_threads > 0 ? max_threads : omp_get_num_procs(); }
void omp_set_num_threads(int n) { max_threads = n > MAXT ? MAXT : n; }
int omp_get_num_threads(void) { return me ? me->team->n : 1; }
int omp_get_thread_num(void) { return me ? me->tid : 0; }
int omp_in_parallel(void) { return me && me->team->n > 1; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int d) { (void)d; }
int omp_get_level(void) { return me ? 1 : 0; }
void omp_set_schedule(int k, int c) { (void)k; (void)c; }
double omp_get_wtime(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
void omp_init_lock(void **l) { *l = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*l, 0); }
void omp_destroy_lock(void **l) { pthread_mutex_destroy(*l); free(*l); }
void omp_set_lock(void **l) { pthread_mutex_lock(*l); }
void omp_unset_lock(void **l) { pthread_mutex_unlock(*l); }
int omp_test_lock(void **l) { return pthread_mutex_trylock(*l) == 0; }

static void enter(Self *s, Team *t, int tid)
{
    memset(s, 0, sizeof(*s));
    s->team = t; s->tid = tid; s->prev = me;
    s->rng = mix(g_seed ^ mix(tid + 1000003ULL * (uint64_t)t->hash));
    me = s;
    delay();
}

typedef struct { Team *t; int tid; } Arg;

static void *entry(void *p)
{
    Arg *a = p;
    Self s;
    enter(&s, a->t, a->tid);
    a->t->fn(a->t->data);
    me = s.prev;
    return 0;
}

static void team_run(void (*fn)(void *), void *data, unsigned n, const Share *first)
{
    static long regions = 0;
    Team *t = calloc(1, sizeof(Team));
    pthread_t th[MAXT];
    Arg arg[MAXT];
    unsigned i;
    if (n == 0) n = omp_get_max_threads();
    if (me) n = 1;                      /* no nesting */
    if (n > MAXT) n = MAXT;
    t->n = n; t->fn = fn; t->data = data;
    t->hash = __atomic_add_fetch(&regions, 1, __ATOMIC_RELAXED);
    if (first) { t->share[0] = *first; t->share[0].ready = 1; t->share[0].left = n; }
    pthread_mutex_init(&t->lock, 0);
    pthread_barrier_init(&t->bar, 0, n);
    COUNT(0);
    __atomic_fetch_add(&stat_[1], n, __ATOMIC_RELAXED);
    for (i=1; i<n; ++i) {
        arg[i].t = t; arg[i].tid = i;
        if (pthread_create(&th[i], 0, entry, &arg[i]) != 0) abort();
    }
    arg[0].t = t; arg[0].tid = 0;
    entry(&arg[0]);
    for (i=1; i<n; ++i) pthread_join(th[i], 0);
    pthread_barrier_destroy(&t->bar);
    pthread_mutex_destroy(&t->lock);
    free(t);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    (void)flags;
    team_run(fn, data, n, 0);
}

/* the implicit team of one outside parallel regions */
static Self *self(void)
{
    static __thread Self lone;
    static __thread Team *lt;
    if (me) return me;
    if (!lt) { lt = calloc(1, sizeof(Team)); lt->n = 1; pthread_mutex_init(&lt->lock, 0);
               pthread_barrier_init(&lt->bar, 0, 1); }
    lone.team = lt;
    return &lone;
}

static void share_set(Share *sh, long start, long end, long incr, long chunk)
{
    sh->start = start; sh->end = end; sh->incr = incr; sh->chunk = chunk > 0 ? chunk : 1;
    sh->next = 0;
}

static long share_n(Share *sh)
{
    if (sh->incr > 0) return sh->end > sh->start ? (sh->end - sh->start + sh->incr - 1) / sh->incr : 0;
    return sh->start > sh->end ? (sh->start - sh->end - sh->incr - 1) / -sh->incr : 0;
}

static int owner(Self *s, long blk, long nblk)
{
    int n = s->team->n;
    switch (g_mode) {
      case 1: return (int)(mix(g_seed ^ mix(blk + 7919ULL * s->team->hash)) % n);
      case 2: return (int)(blk % n);
      case 3: return (int)(mix(g_seed + s->team->hash) % n);
      case 4: return (int)(nblk ? blk * n / nblk : 0);
      case 5: return n - 1 - (int)(nblk ? blk * n / nblk : 0);
    }
    return 0;
}

static bool loop_next(long *istart, long *iend)
{
    Self *s = self();
    Share *sh = &s->team->share[(s->nshare - 1) % MAXSHARE];
    long n = share_n(sh), nblk = (n + sh->chunk - 1) / sh->chunk, b;
    delay();
    if (g_mode == 0) {
        b = __atomic_fetch_add(&sh->next, 1, __ATOMIC_RELAXED);
    } else {
        for (b = s->pos; b < nblk && owner(s, b, nblk) != s->tid; ++b);
        s->pos = b + 1;
    }
    if (b >= nblk) return false;
    COUNT(2);
    __atomic_fetch_add(&stat_[7], (long)(mix(b * 64 + s->tid + s->team->n * 4096) >> 8),
                       __ATOMIC_RELAXED);
    *istart = sh->start + b * sh->chunk * sh->incr;
    long e = (b + 1) * sh->chunk; if (e > n) e = n;
    *iend = sh->start + e * sh->incr;
    return true;
}

static bool loop_start(long start, long end, long incr, long chunk, long *istart, long *iend)
{
    Self *s = self();
    Share *sh = &s->team->share[s->nshare % MAXSHARE];
    s->nshare++;
    s->pos = 0;
    pthread_mutex_lock(&s->team->lock);
    if (!sh->ready) {
        share_set(sh, start, end, incr, chunk);
        sh->ready = 1; sh->left = s->team->n;
        COUNT(5);
    }
    pthread_mutex_unlock(&s->team->lock);
    return loop_next(istart, iend);
}

static void loop_done(void)
{
    Self *s = self();
    Share *sh = &s->team->share[(s->nshare - 1) % MAXSHARE];
    pthread_mutex_lock(&s->team->lock);
    if (--sh->left == 0) sh->ready = 0;
    pthread_mutex_unlock(&s->team->lock);
}

void GOMP_barrier(void)
{
    Self *s = self();
    delay();
    pthread_barrier_wait(&s->team->bar);
}
bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
bool GOMP_cancellation_point(int w) { (void)w; return false; }
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }

void GOMP_loop_end_nowait(void) { loop_done(); }
void GOMP_loop_end(void) { loop_done(); GOMP_barrier(); }
bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return false; }

#define START(name) \
bool GOMP_loop_##name##_start(long a, long b, long c, long d, long *i, long *e) \
{ return loop_start(a, b, c, d, i, e); } \
bool GOMP_loop_##name##_next(long *i, long *e) { return loop_next(i, e); }
START(static) START(dynamic) START(guided) START(nonmonotonic_dynamic) START(nonmonotonic_guided)

#define START3(name) \
bool GOMP_loop_##name##_start(long a, long b, long c, long *i, long *e) \
{ return loop_start(a, b, c, 1, i, e); } \
bool GOMP_loop_##name##_next(long *i, long *e) { return loop_next(i, e); }
START3(runtime) START3(nonmonotonic_runtime) START3(maybe_nonmonotonic_runtime)

#define START_U(name) \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long a, unsigned long b, unsigned long c, \
    unsigned long d, unsigned long *i, unsigned long *e) \
{ (void)up; return loop_start(a, b, c, d, (long *)i, (long *)e); } \
bool GOMP_loop_ull_##name##_next(unsigned long *i, unsigned long *e) \
{ return loop_next((long *)i, (long *)e); }
START_U(static) START_U(dynamic) START_U(guided) START_U(nonmonotonic_dynamic)
START_U(nonmonotonic_guided)

#define PLOOP(name) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, \
    long c, long d, unsigned flags) \
{ (void)flags; Share sh; memset(&sh, 0, sizeof(sh)); share_set(&sh, a, b, c, d); \
  COUNT(5); team_run_loop(fn, data, n, &sh); }

/* in a combined region the outlined function starts with ..._next */
static void team_run_loop(void (*fn)(void *), void *data, unsigned n, const Share *sh);
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)

typedef struct { void (*fn)(void *); void *data; } Wrap;
static void wrap(void *p)
{
    Wrap *w = p;
    me->nshare = 1; me->pos = 0;
    w->fn(w->data);
}
static void team_run_loop(void (*fn)(void *), void *data, unsigned n, const Share *sh)
{
    Wrap w = { fn, data };
    team_run(wrap, &w, n, sh);
}

static void crit_lock(pthread_mutex_t *m)
{
    delay();
    if (pthread_mutex_trylock(m) != 0) { COUNT(6); pthread_mutex_lock(m); }
    COUNT(3);
}
void GOMP_critical_start(void) { crit_lock(&g_crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&g_crit); delay(); }
void GOMP_critical_name_start(void **p)
{
    pthread_mutex_lock(&g_named);
    if (!*p) { *p = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*p, 0); }
    pthread_mutex_unlock(&g_named);
    crit_lock(*p);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(*p); delay(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&g_atomic); }

bool GOMP_single_start(void)
{
    Self *s = self();
    bool r;
    delay();
    pthread_mutex_lock(&s->team->lock);
    r = s->team->single == s->single;
    if (r) s->team->single++;
    s->single++;
    pthread_mutex_unlock(&s->team->lock);
    return r;
}

unsigned GOMP_sections_start(unsigned n)
{
    long i, e;
    return loop_start(1, n + 1, 1, 1, &i, &e) ? (unsigned)i : 0;
}
unsigned GOMP_sections_next(void)
{
    long i, e;
    return loop_next(&i, &e) ? (unsigned)i : 0;
}
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}

/* tasks run at once */
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align,
               bool if_clause, unsigned flags)
{
    (void)if_clause; (void)flags;
    if (cpy) {
        char *buf = malloc(size + align);
        char *p = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
        cpy(p, data); fn(p); free(buf);
    } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
