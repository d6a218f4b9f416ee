/* A minimal stand-in for libgomp, made of pthreads only, so that ThreadSanitizer sees every synchronisation of an
   OpenMP region (libgomp itself is not instrumented and would cause false reports).  Threads are started afresh for
   each region, in a shuffled order with random delays, so that schedules differ from region to region. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>

typedef struct {
    pthread_barrier_t barrier;
    pthread_mutex_t lock;
    unsigned n;
    /* dynamic loop */
    unsigned long gen;
    long next, end, incr, chunk;
} team_t;
typedef struct { void (*fn)(void *); void *data; unsigned id; team_t *team; unsigned delay; } arg_t;

static __thread unsigned my_id;
static __thread team_t *my_team;
static __thread unsigned long my_gen;
static pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER, atomic_lock = PTHREAD_MUTEX_INITIALIZER;
static atomic_ulong regions, threads;
static atomic_uint rng = 12345;

__attribute__((visibility("default"))) unsigned long verif_omp_regions(void) { return regions; }
__attribute__((visibility("default"))) unsigned long verif_omp_threads(void) { return threads; }

static unsigned rnd(void) {
    unsigned x = atomic_fetch_add(&rng, 2654435761u);
    x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u;
    return x ^ (x >> 16);
}

int omp_get_thread_num(void) { return my_team ? (int)my_id : 0; }
int omp_get_num_threads(void) { return my_team ? (int)my_team->n : 1; }
int omp_get_max_threads(void) { char *s = getenv("OMP_NUM_THREADS"); int n = s ? atoi(s) : 8; return n > 0 ? n : 8; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return my_team != 0; }
void omp_set_num_threads(int n) { (void)n; }

static void *entry(void *p) {
    arg_t *a = p;
    team_t *old = my_team; unsigned old_id = my_id; unsigned long old_gen = my_gen;
    my_team = a->team; my_id = a->id; my_gen = 0;
    if (a->delay) usleep(a->delay);
    a->fn(a->data);
    my_team = old; my_id = old_id; my_gen = old_gen;
    return 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    (void)flags;
    if (!n) n = omp_get_max_threads();
    if (n > 64) n = 64;
    if (my_team) n = 1; /* nested */
    team_t team = {.n = n};
    pthread_t t[64]; arg_t a[64]; unsigned order[64];
    pthread_barrier_init(&team.barrier, 0, n);
    pthread_mutex_init(&team.lock, 0);
    for (unsigned i = 0; i < n; i++) order[i] = i;
    for (unsigned i = n; i > 2; i--) { unsigned j = 1 + rnd() % (i - 1), x = order[i - 1]; order[i - 1] = order[j]; order[j] = x; }
    bool started[64] = {false};
    for (unsigned k = 1; k < n; k++) {
        unsigned i = order[k];
        a[i] = (arg_t){fn, data, i, &team, rnd() % 4 ? 0 : rnd() % 60};
        started[i] = pthread_create(&t[i], 0, entry, &a[i]) == 0;
        if (!started[i]) abort();
    }
    a[0] = (arg_t){fn, data, 0, &team, rnd() % 4 ? 0 : rnd() % 60};
    entry(&a[0]);
    for (unsigned i = 1; i < n; i++) pthread_join(t[i], 0);
    pthread_barrier_destroy(&team.barrier);
    pthread_mutex_destroy(&team.lock);
    regions++; threads += n;
}

void GOMP_barrier(void) { if (my_team) pthread_barrier_wait(&my_team->barrier); }
void GOMP_critical_start(void) { pthread_mutex_lock(&critical); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void **p) { (void)p; GOMP_critical_start(); }
void GOMP_critical_name_end(void **p) { (void)p; GOMP_critical_end(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomic_lock); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomic_lock); }
bool GOMP_single_start(void) { return !my_team || my_id == 0; }

/* loops with a schedule other than static */
static bool loop_next(long *s, long *e) {
    team_t *t = my_team; bool ok;
    pthread_mutex_lock(&t->lock);
    ok = t->incr > 0 ? t->next < t->end : t->next > t->end;
    if (ok) {
        *s = t->next; *e = *s + t->chunk * t->incr;
        if (t->incr > 0 ? *e > t->end : *e < t->end) *e = t->end;
        t->next = *e;
    }
    pthread_mutex_unlock(&t->lock);
    return ok;
}
static team_t serial;
static bool loop_start(long start, long end, long incr, long chunk, long *s, long *e) {
    if (!my_team) { (void)serial; *s = start; *e = end; return incr > 0 ? start < end : start > end; }
    team_t *t = my_team;
    pthread_mutex_lock(&t->lock);
    if (my_gen++ == t->gen) { t->gen++; t->next = start; t->end = end; t->incr = incr; t->chunk = chunk > 0 ? chunk : 1; }
    pthread_mutex_unlock(&t->lock);
    return loop_next(s, e);
}
static bool next_any(long *s, long *e) { return my_team ? loop_next(s, e) : false; }
#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long a, long b, long c, long d, long *s, long *e) { return loop_start(a, b, c, d, s, e); } \
    bool GOMP_loop_##kind##_next(long *s, long *e) { return next_any(s, e); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
static bool rt_start(long a, long b, long c, long *s, long *e) { return loop_start(a, b, c, 1, s, e); }
bool GOMP_loop_runtime_start(long a, long b, long c, long *s, long *e) { return rt_start(a, b, c, s, e); }
bool GOMP_loop_runtime_next(long *s, long *e) { return next_any(s, e); }
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long c, long *s, long *e) { return rt_start(a, b, c, s, e); }
bool GOMP_loop_nonmonotonic_runtime_next(long *s, long *e) { return next_any(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long *s, long *e) { return rt_start(a, b, c, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return next_any(s, e); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
