/* Controlled scheduler.  Code under test is compiled with clang's thread instrumentation restricted to
 * atomics, but linked with this file instead of the TSan runtime: every atomic operation and every
 * pthread call of the program becomes a scheduling point.  When VS_SEED is set, threads run strictly
 * one at a time and the next thread to run is picked pseudo-randomly from the seed, so that a run
 * explores one interleaving, chosen by the seed and reproducible.  Deadlocks (no thread can run) are
 * reported.  Without VS_SEED everything passes straight through. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXT 256

enum { UNUSED, RUNNABLE, ON_MUTEX, ON_COND, ON_JOIN, DONE };

struct thr {
    volatile int  state;
    void         *what;      /* mutex, condition or thread waited for */
    uint64_t      stalled;   /* not picked before this step, unless nothing else can run */
    sem_t         sem;
    pthread_t     handle;
    void       *(*fn)(void *);
    void         *arg;
};

static struct thr thr[MAXT];
static int        nthr;
static int        active;
static int        cur;
static uint64_t   rng;
static uint64_t   steps, switches, stalls, spurious, hash = 14695981039346656037ULL, points;
static unsigned   period;        /* mean number of points between preemptions */
static unsigned   stall_period;
static uint64_t   max_steps;
static __thread int self = -1;

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_sched_yield(void);
int __real_nanosleep(const struct timespec *, struct timespec *);

static uint32_t rnd(void)
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return (uint32_t)(rng * 0x2545F4914F6CDD1DULL >> 32);
}

static void report(void)
{
    const char *out = getenv("VS_OUT");
    if (out) {
        FILE *f = fopen(out, "a");
        if (f) {
            fprintf(f, "%d %llu %llu %llu %llu %llx\n", nthr, (unsigned long long)steps, (unsigned long long)switches,
                    (unsigned long long)stalls, (unsigned long long)spurious, (unsigned long long)hash);
            fclose(f);
        }
    }
}

static void die(const char *what)
{
    int i;
    fprintf(stderr, "VSCHED: %s after %llu steps, %llu switches;", what, (unsigned long long)steps, (unsigned long long)switches);
    for (i = 0; i < nthr; i++)
        fprintf(stderr, " thread %d %s", i, thr[i].state == RUNNABLE ? "runnable" : thr[i].state == ON_MUTEX ? "waits for a mutex" :
                thr[i].state == ON_COND ? "waits for a condition" : thr[i].state == ON_JOIN ? "waits for a thread" : "finished");
    fprintf(stderr, "\n");
    report();
    _exit(97);
}

static void switch_to(int next)
{
    const int me = self;
    if (next == me)
        return;
    ++switches;
    hash = (hash ^ ((uint64_t)next << 32 ^ steps)) * 1099511628211ULL;
    cur = next;
    sem_post(&thr[next].sem);
    if (thr[me].state != DONE)
        while (sem_wait(&thr[me].sem)) { }
}

/* Picks a thread to run; other_than: avoid this one if possible */
static int pick(int other_than)
{
    int cand[MAXT], n = 0, pass, i;
    for (pass = 0; pass < 3 && ! n; pass++)
        for (i = 0; i < nthr; i++) {
            if (thr[i].state != RUNNABLE)
                continue;
            if (pass < 2 && i == other_than)
                continue;
            if (pass < 1 && thr[i].stalled > steps)
                continue;
            cand[n++] = i;
        }
    if ( ! n)
        die("deadlock");
    return cand[n == 1 ? 0 : rnd() % (uint32_t)n];
}

static void step(void)
{
    if (++steps > max_steps)
        die("no end in sight");
}

static void forced(void)
{
    step();
    switch_to(pick(self));
}

static void point(void)
{
    if ( ! active || self < 0)
        return;
    step();
    if (nthr < 2)
        return;
    ++points;
    if (rnd() % period)
        return;
    if (stall_period && ! (rnd() % stall_period)) {
        static const uint16_t len[] = { 20, 100, 400, 2000, 10000 };
        ++stalls;
        thr[self].stalled = steps + 1 + rnd() % len[rnd() % 5];
        switch_to(pick(self));
        return;
    }
    switch_to(pick(-1));
}

static void at_exit(void)
{
    if (self >= 0 && active) {
        active = 0;
        report();
    }
}

__attribute__((constructor)) static void vs_init(void)
{
    const char *seed = getenv("VS_SEED");
    if (seed && *seed) {
        static const unsigned periods[] = { 2, 3, 5, 10, 30, 100, 300 };
        static const unsigned stallp[]  = { 0, 2, 4, 10, 30 };
        const char *m = getenv("VS_MAX");
        int i;
        rng = strtoull(seed, 0, 0) * 0x9E3779B97F4A7C15ULL + 0x1234567ULL;
        for (i = 0; i < 8; i++)
            rnd();
        period       = periods[rnd() % 7];
        stall_period = stallp[rnd() % 5];
        max_steps    = m ? strtoull(m, 0, 0) : 2000000000ULL;
        sem_init(&thr[0].sem, 0, 0);
        thr[0].state  = RUNNABLE;
        thr[0].handle = pthread_self();
        nthr   = 1;
        self   = 0;
        active = 1;
        atexit(at_exit);
    }
}

uint64_t vs_steps(void) { return steps; }

static void *trampoline(void *arg)
{
    struct thr *t = (struct thr *)arg;
    void *ret;
    int i;
    self = (int)(t - thr);
    while (sem_wait(&t->sem)) { }
    ret = t->fn(t->arg);
    for (i = 0; i < nthr; i++)
        if (thr[i].state == ON_JOIN && thr[i].what == (void *)t)
            thr[i].state = RUNNABLE;
    t->state = DONE;
    if (active)
        switch_to(pick(self));
    return ret;
}

int __wrap_pthread_create(pthread_t *handle, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    struct thr *t = 0;
    int i, err;
    if ( ! active || self < 0)
        return __real_pthread_create(handle, attr, fn, arg);
    for (i = 1; i < nthr; i++)          /* slots of joined threads are reused */
        if (thr[i].state == UNUSED) {
            t = &thr[i];
            break;
        }
    if ( ! t) {
        if (nthr == MAXT)
            die("too many threads");
        t = &thr[nthr];
    }
    t->fn  = fn;
    t->arg = arg;
    t->stalled = 0;
    sem_init(&t->sem, 0, 0);
    err = __real_pthread_create(handle, attr, trampoline, t);
    if (err)
        return err;
    t->handle = *handle;
    t->state  = RUNNABLE;
    if (t == &thr[nthr])
        ++nthr;
    point();
    return 0;
}

int __wrap_pthread_join(pthread_t handle, void **ret)
{
    int i, err;
    struct thr *t = 0;
    if ( ! active || self < 0)
        return __real_pthread_join(handle, ret);
    for (i = 0; i < nthr; i++)
        if (thr[i].state != UNUSED && pthread_equal(thr[i].handle, handle))
            t = &thr[i];
    if (t) {
        while (t->state != DONE) {
            thr[self].what  = t;
            thr[self].state = ON_JOIN;
            forced();
        }
    }
    err = __real_pthread_join(handle, ret);
    if (t)
        t->state = UNUSED;
    return err;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if ( ! active || self < 0)
        return __real_pthread_mutex_lock(m);
    point();
    for (;;) {
        const int err = pthread_mutex_trylock(m);
        if (err != EBUSY)
            return err;
        thr[self].what  = m;
        thr[self].state = ON_MUTEX;
        forced();
    }
}

static void wake_mutex(pthread_mutex_t *m)
{
    int i;
    for (i = 0; i < nthr; i++)
        if (thr[i].state == ON_MUTEX && thr[i].what == m)
            thr[i].state = RUNNABLE;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    const int err = __real_pthread_mutex_unlock(m);
    if (active && self >= 0) {
        wake_mutex(m);
        point();
    }
    return err;
}

int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if ( ! active || self < 0)
        return __real_pthread_cond_wait(c, m);
    __real_pthread_mutex_unlock(m);
    wake_mutex(m);
    if (rnd() % 16) {
        thr[self].what  = c;
        thr[self].state = ON_COND;
    }
    else
        ++spurious;
    forced();
    return __wrap_pthread_mutex_lock(m);
}

static void wake_cond(pthread_cond_t *c, int all)
{
    int cand[MAXT], n = 0, i;
    for (i = 0; i < nthr; i++)
        if (thr[i].state == ON_COND && thr[i].what == c)
            cand[n++] = i;
    if ( ! n)
        return;
    if (all)
        for (i = 0; i < n; i++)
            thr[cand[i]].state = RUNNABLE;
    else
        thr[cand[rnd() % (uint32_t)n]].state = RUNNABLE;
}

int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    if ( ! active || self < 0)
        return __real_pthread_cond_signal(c);
    wake_cond(c, 0);
    point();
    return 0;
}

int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    if ( ! active || self < 0)
        return __real_pthread_cond_broadcast(c);
    wake_cond(c, 1);
    point();
    return 0;
}

int __wrap_sched_yield(void)
{
    if ( ! active || self < 0)
        return __real_sched_yield();
    forced();
    return 0;
}

int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
    if ( ! active || self < 0)
        return __real_nanosleep(a, b);
    thr[self].stalled = steps + 200 + rnd() % 2000;
    forced();
    return 0;
}

/* Instrumentation interface */

void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
#define NOP(name) void name(void *p) { (void)p; }
#define NOPS(n) NOP(__tsan_read##n) NOP(__tsan_write##n) NOP(__tsan_unaligned_read##n) NOP(__tsan_unaligned_write##n) NOP(__tsan_read_write##n) NOP(__tsan_unaligned_read_write##n)
NOPS(1) NOPS(2) NOPS(4) NOPS(8) NOPS(16)
NOP(__tsan_vptr_read)
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
void __tsan_read_range(void *a, unsigned long n) { (void)a; (void)n; }
void __tsan_write_range(void *a, unsigned long n) { (void)a; (void)n; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }

#define SC __ATOMIC_SEQ_CST
#define RMW(N, T, name, op) T __tsan_atomic##N##_##name(volatile T *p, T v, int mo) { (void)mo; point(); return op(p, v, SC); }
#define ATOMICS(N, T) \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) { (void)mo; point(); return __atomic_load_n(p, SC); } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { (void)mo; point(); __atomic_store_n(p, v, SC); } \
    RMW(N, T, exchange, __atomic_exchange_n) \
    RMW(N, T, fetch_add, __atomic_fetch_add) \
    RMW(N, T, fetch_sub, __atomic_fetch_sub) \
    RMW(N, T, fetch_and, __atomic_fetch_and) \
    RMW(N, T, fetch_or, __atomic_fetch_or) \
    RMW(N, T, fetch_xor, __atomic_fetch_xor) \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) \
        { (void)mo; (void)fmo; point(); return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) \
        { (void)mo; (void)fmo; point(); return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) \
        { (void)mo; (void)fmo; point(); __atomic_compare_exchange_n(p, &e, v, 0, SC, SC); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(); __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
