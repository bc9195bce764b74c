/* OpenMP runtime on plain threads, so that ThreadSanitizer sees how threads are started
 * and joined (libgomp itself is not instrumented).  Threads start in a random order and
 * with random delays ($VP_GOMP_SEED). */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sched.h>

static __thread int tid = 0, team = 1, nthreads = 0, nested = 0;
static __thread unsigned rs = 0;
static unsigned long regions = 0, started = 0;

static unsigned rnd(void)
{
    if (!rs)
    {
        const char *s = getenv("VP_GOMP_SEED");
        rs = 2463534242u ^ (s ? (unsigned) atoi(s) * 2654435761u : 0u) ^ (unsigned) tid * 40503u;
    }
    rs ^= rs << 13; rs ^= rs >> 17; rs ^= rs << 5;
    return rs;
}
struct job { void (*fn)(void *); void *data; int tid, team, delay; };
static void *body(void *p)
{
    struct job *j = p;
    tid = j->tid;
    team = j->team;
    if (j->delay > 0) usleep(j->delay);
    else sched_yield();
    j->fn(j->data);
    return NULL;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    (void) flags;
    if (n == 0) n = nthreads > 0 ? nthreads : 1;
    if (team > 1 || nested || n > 64) n = 1;
    if (n == 1)
    {
        int st = tid, sm = team;
        tid = 0;
        team = 1;
        nested += sm > 1;
        fn(data);
        nested -= sm > 1;
        tid = st;
        team = sm;
        return;
    }
    __atomic_add_fetch(&regions, 1, __ATOMIC_RELAXED);
    __atomic_add_fetch(&started, n, __ATOMIC_RELAXED);
    struct job j[64];
    pthread_t t[64];
    for (unsigned i = 0; i < n; i++)
        j[i] = (struct job){fn, data, (int) i, (int) n, (rnd() & 1) ? (int) (rnd() % 300) : 0};
    int rev = rnd() & 1;
    for (unsigned k = 1; k < n; k++)
    {
        unsigned i = rev ? n - k : k;
        if (pthread_create(&t[i], NULL, body, &j[i])) abort();
    }
    team = (int) n;
    if (j[0].delay > 0) usleep(j[0].delay);
    fn(data);
    team = 1;
    for (unsigned i = 1; i < n; i++) pthread_join(t[i], NULL);
}
int omp_get_thread_num(void) { return tid; }
int omp_get_num_threads(void) { return team; }
int omp_get_max_threads(void) { return nthreads > 0 ? nthreads : 1; }
void omp_set_num_threads(int n) { nthreads = n; }
unsigned long vp_gomp_regions(void) { return regions; }
unsigned long vp_gomp_threads(void) { return started; }
