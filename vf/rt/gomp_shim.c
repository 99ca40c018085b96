/* OpenMP entry points used by gcc, on plain pthreads, for ThreadSanitizer runs.
   Team members synchronise only where OpenMP does: fork, join, barrier, critical and
   atomic.  Work sharing is by member number, so it adds no ordering between
   iterations of different threads: a report is a race of the loop itself. */
#include <pthread.h>
#include <stdbool.h>
#include <stdlib.h>

typedef struct { long next, end, incr, chunk; int arrived; } Share;
typedef struct Team { int n; pthread_barrier_t bar; Share sh[64]; } Team;
typedef struct { Team *t; int id; int ns; void (*fn)(void *); void *data; long mine; } Member;
static __thread Member *me;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
#define WIDTH 4

int omp_get_thread_num(void) { return me ? me->id : 0; }
int omp_get_num_threads(void) { return me ? me->t->n : 1; }
int omp_get_max_threads(void) { return me ? 1 : WIDTH; }
int omp_in_parallel(void) { return me && me->t->n > 1; }
int omp_get_num_procs(void) { return WIDTH; }
void omp_set_num_threads(int n) { (void)n; }

static void *run(void *a) { me = a; me->fn(me->data); return 0; }

static void team(void (*fn)(void *), void *data, unsigned n, long a, long b, long inc, long chunk, int loop) {
    Member *up = me, m[WIDTH];
    pthread_t th[WIDTH];
    Team *t = calloc(1, sizeof(Team));
    if (n == 0 || n > WIDTH) n = WIDTH;
    if (up) n = 1;
    t->n = n;
    pthread_barrier_init(&t->bar, 0, n);
    if (loop) { t->sh[0].next = a; t->sh[0].end = b; t->sh[0].incr = inc; t->sh[0].chunk = chunk; t->sh[0].arrived = 2; }
    for (unsigned i = 0; i < n; i++) { m[i].t = t; m[i].id = i; m[i].ns = loop ? 0 : -1; m[i].fn = fn; m[i].mine = 0; m[i].data = data; }
    if (n == 1) { run(&m[0]); }
    else {
        for (unsigned i = 0; i < n; i++) pthread_create(&th[i], 0, run, &m[i]);
        for (unsigned i = 0; i < n; i++) pthread_join(th[i], 0);
    }
    me = up;
    pthread_barrier_destroy(&t->bar);
    free(t);
}
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned fl) { team(fn, d, n, 0, 0, 0, 0, 0); }
void GOMP_barrier(void) { if (me) pthread_barrier_wait(&me->t->bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
bool GOMP_single_start(void) {
    if (!me) return true;
    me->ns++;
    int z = 0;
    return __atomic_compare_exchange_n(&me->t->sh[me->ns & 63].arrived, &z, 2, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}
static bool next(long *s, long *e) {
    /* round robin: member id takes iterations id, id + n, ... */
    Share *h = &me->t->sh[me->ns & 63];
    long k = h->next + (me->id + me->mine++ * me->t->n) * h->incr;
    if (h->incr > 0 ? k >= h->end : k <= h->end) return false;
    *s = k;
    *e = k + h->incr;
    return true;
}
static Team solo_team;
static Member solo;
static bool start(long a, long b, long inc, long chunk, long *s, long *e) {
    if (!me) { solo_team.n = 1; solo.t = &solo_team; solo.ns = -1; me = &solo; }
    me->ns++;
    me->mine = 0;
    Share *h = &me->t->sh[me->ns & 63];
    int z = 0;
    if (__atomic_compare_exchange_n(&h->arrived, &z, 1, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        h->next = a; h->end = b; h->incr = inc; h->chunk = chunk;
        __atomic_store_n(&h->arrived, 2, __ATOMIC_RELEASE);
    }
    while (__atomic_load_n(&h->arrived, __ATOMIC_ACQUIRE) != 2) {}
    return next(s, e);
}
#define KIND(k) \
bool GOMP_loop_##k##_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e); } \
bool GOMP_loop_##k##_next(long *s, long *e) { return next(s, e); } \
void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned fl) { team(fn, d, n, a, b, i, c, 1); }
KIND(guided) KIND(dynamic) KIND(nonmonotonic_guided) KIND(nonmonotonic_dynamic) KIND(static)
bool GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return next(s, e); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { team(fn, d, n, a, b, i, 1, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned fl) { team(fn, d, n, a, b, i, 1, 1); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
