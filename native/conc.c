/* Concurrent workloads on one shared object, array or buffer.  Every operation is recorded with tickets
 * taken before its start and after its end; after each round the history of each key or index is checked
 * for linearizability, and the final contents for conservation.
 * usage: conc MODE SEED ROUNDS THREADS OPS KEYS GC     MODE: obj, arr, push, buf */
#include "inc/kos_array.h"
#include "inc/kos_atomic.h"
#include "inc/kos_buffer.h"
#include "inc/kos_constants.h"
#include "inc/kos_defs.h"
#include "inc/kos_entity.h"
#include "inc/kos_error.h"
#include "inc/kos_instance.h"
#include "inc/kos_memory.h"
#include "inc/kos_object.h"
#include "inc/kos_string.h"
#include "inc/kos_threads.h"
#include "inc/kos_utils.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAX_THREADS 16
#define MAX_OPS     256
#define MAX_KEYS    64
#define MAX_HIST    64
#define ABSENT      (-1)

enum OP { READ, WRITE, DELETE, CAS, NOP };

struct op {
    int      op;
    int      key;
    int64_t  value;    /* value written, or value read */
    int64_t  expected; /* for CAS */
    uint64_t t0, t1;
    int      thread;
};

struct thread {
    int       id;
    uint64_t  rng;
    int       nops;
    struct op ops[MAX_OPS];
    int       error;
    char      what[256];
};

static const char *mode;
static int      n_rounds, n_threads, n_ops, n_keys, gc_rate, prefilled;
static struct thread threads[MAX_THREADS];
static KOS_LOCAL shared;
static int      started;
static uint64_t ticket_counter;
static uint64_t total_ops, total_hist, overlaps, gcs;
static int      pushed_idx[MAX_THREADS][MAX_OPS];

static uint64_t ticket(void) { return __atomic_fetch_add(&ticket_counter, 1, __ATOMIC_RELAXED); }

static uint32_t rnd(uint64_t *s)
{
    *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17;
    return (uint32_t)(*s * 0x2545F4914F6CDD1DULL >> 32);
}

static void fail(struct thread *t, const char *fmt, long long a, long long b)
{
    if ( ! t->error) {
        t->error = 1;
        snprintf(t->what, sizeof(t->what), fmt, a, b);
    }
}

/* Odd ids are stored as heap-allocated integers, others as small ones */
static KOS_OBJ_ID make(KOS_CONTEXT ctx, int64_t id)
{
    return (id & 1) ? KOS_new_int(ctx, (int64_t)0x7000000000000000LL + id) : TO_SMALL_INT((intptr_t)id);
}

static int64_t unmake(KOS_OBJ_ID o)
{
    if (o == KOS_VOID)
        return 0;
    if (IS_SMALL_INT(o)) {
        const int64_t v = GET_SMALL_INT(o);
        return (v & 1) ? -1000 : v;
    }
    if (GET_OBJ_TYPE(o) == OBJ_INTEGER) {
        const int64_t v = OBJPTR(INTEGER, o)->value - (int64_t)0x7000000000000000LL;
        return (v & 1) ? v : -1001;
    }
    return -1002;
}

static KOS_OBJ_ID key_name(KOS_CONTEXT ctx, int key)
{
    char buf[32];
    snprintf(buf, sizeof(buf), "%c%d", 'a' + key % 26, key * 7919);
    return KOS_new_cstring(ctx, buf);
}

static KOS_OBJ_ID fill_name(KOS_CONTEXT ctx, int thread, int n)
{
    char buf[32];
    snprintf(buf, sizeof(buf), "f%d.%d", thread, n);
    return KOS_new_cstring(ctx, buf);
}

static void record(struct thread *t, int op, int key, int64_t value, int64_t expected, uint64_t t0)
{
    struct op *o = &t->ops[t->nops++];
    o->t1       = ticket();
    o->op       = op;
    o->key      = key;
    o->value    = value;
    o->expected = expected;
    o->t0       = t0;
    o->thread   = t->id;
}

static int is_set(struct thread *t, KOS_CONTEXT ctx, int64_t *v, KOS_OBJ_ID o)
{
    (void)t;
    if (IS_BAD_PTR(o)) {
        KOS_clear_exception(ctx);
        *v = ABSENT;
        return 0;
    }
    *v = unmake(o);
    return 1;
}

static void run_obj(KOS_CONTEXT ctx, struct thread *t)
{
    int  i;
    int  nfill = 0;
    char filled[MAX_OPS];

    for (i = 0; i < n_ops; i++) {
        const uint32_t what = rnd(&t->rng) % 100;
        const int      key  = (int)(rnd(&t->rng) % (uint32_t)n_keys);
        const int64_t  id   = 1 + t->id + (int64_t)(i + 1) * n_threads;
        uint64_t       t0;
        int64_t        v;
        KOS_LOCAL      name, val;

        if (gc_rate && ! (rnd(&t->rng) % (uint32_t)gc_rate)) {
            if (KOS_collect_garbage(ctx, 0) != KOS_SUCCESS)
                fail(t, "collection failed", 0, 0);
            __atomic_fetch_add(&gcs, 1, __ATOMIC_RELAXED);
        }

        KOS_init_local(ctx, &val);
        KOS_init_local(ctx, &name);

        if (what < 35) {
            name.o = key_name(ctx, key);
            val.o  = make(ctx, id);
            t0 = ticket();
            if (KOS_set_property(ctx, shared.o, name.o, val.o) != KOS_SUCCESS) {
                KOS_clear_exception(ctx);
                fail(t, "setting a property failed", 0, 0);
            }
            record(t, WRITE, key, id, 0, t0);
        }
        else if (what < 65) {
            name.o = key_name(ctx, key);
            t0 = ticket();
            is_set(t, ctx, &v, KOS_get_property_shallow(ctx, shared.o, name.o));
            record(t, READ, key, v, 0, t0);
        }
        else if (what < 80) {
            name.o = key_name(ctx, key);
            t0 = ticket();
            if (KOS_delete_property(ctx, shared.o, name.o) != KOS_SUCCESS) {
                KOS_clear_exception(ctx);
                fail(t, "deleting a property failed", 0, 0);
            }
            record(t, DELETE, key, ABSENT, 0, t0);
        }
        else if (what < 92) {
            /* Private keys: whatever other threads do, this thread sees its own writes */
            name.o = fill_name(ctx, t->id, nfill);
            val.o  = make(ctx, id);
            if (KOS_set_property(ctx, shared.o, name.o, val.o) != KOS_SUCCESS) {
                KOS_clear_exception(ctx);
                fail(t, "setting a property failed", 0, 0);
            }
            is_set(t, ctx, &v, KOS_get_property_shallow(ctx, shared.o, name.o));
            if (v != id)
                fail(t, "a property only this thread writes reads %lld after writing %lld", v, id);
            if (rnd(&t->rng) % 4 == 0) {
                if (KOS_delete_property(ctx, shared.o, name.o) != KOS_SUCCESS)
                    KOS_clear_exception(ctx);
                is_set(t, ctx, &v, KOS_get_property_shallow(ctx, shared.o, name.o));
                if (v != ABSENT)
                    fail(t, "a property only this thread writes reads %lld after deleting it", v, 0);
                filled[nfill++] = 0;
            }
            else
                filled[nfill++] = 1;
        }
        else if (nfill) {
            const int which = (int)(rnd(&t->rng) % (uint32_t)nfill);
            name.o = fill_name(ctx, t->id, which);
            is_set(t, ctx, &v, KOS_get_property_shallow(ctx, shared.o, name.o));
            if ((v != ABSENT) != filled[which])
                fail(t, "a property only this thread writes reads %lld, expected present=%lld", v, filled[which]);
        }
        KOS_destroy_top_locals(ctx, &name, &val);
    }

    for (i = 0; i < nfill; i++)
        pushed_idx[t->id][i] = filled[i];
    pushed_idx[t->id][nfill] = -1;
}

static void run_arr(KOS_CONTEXT ctx, struct thread *t)
{
    int       i;
    KOS_LOCAL last;

    KOS_init_local(ctx, &last);

    for (i = 0; i < n_ops; i++) {
        const uint32_t what = rnd(&t->rng) % 100;
        const int      key  = (int)(rnd(&t->rng) % (uint32_t)n_keys);
        const int64_t  id   = 1 + t->id + (int64_t)(i + 1) * n_threads;
        uint64_t       t0;
        int64_t        v;
        KOS_LOCAL      val;

        if (gc_rate && ! (rnd(&t->rng) % (uint32_t)gc_rate)) {
            if (KOS_collect_garbage(ctx, 0) != KOS_SUCCESS)
                fail(t, "collection failed", 0, 0);
            __atomic_fetch_add(&gcs, 1, __ATOMIC_RELAXED);
        }

        KOS_init_local(ctx, &val);

        if (what < 25) {
            val.o = make(ctx, id);
            t0 = ticket();
            if (KOS_array_write(ctx, shared.o, key, val.o) != KOS_SUCCESS) {
                KOS_clear_exception(ctx);
                fail(t, "writing an existing element failed", 0, 0);
            }
            record(t, WRITE, key, id, 0, t0);
        }
        else if (what < 55) {
            t0 = ticket();
            val.o = KOS_array_read(ctx, shared.o, key);
            if ( ! is_set(t, ctx, &v, val.o))
                fail(t, "reading an existing element failed", 0, 0);
            record(t, READ, key, v, 0, t0);
            last.o = v == ABSENT ? KOS_VOID : val.o;
        }
        else if (what < 80 && ! IS_BAD_PTR(last.o)) {
            const int64_t expected = unmake(last.o);
            int64_t       old;
            val.o = make(ctx, id);
            t0 = ticket();
            val.o = KOS_array_cas(ctx, shared.o, key, last.o, val.o);
            if ( ! is_set(t, ctx, &old, val.o))
                fail(t, "compare-and-swap of an existing element failed", 0, 0);
            record(t, CAS, key, id, expected, t0);
            t->ops[t->nops - 1].op = old == expected ? CAS : READ;
            if (old != expected)
                t->ops[t->nops - 1].value = old;
            last.o = val.o;
        }
        else if (what < 97) {
            uint32_t idx = 0;
            val.o = make(ctx, id);
            if (KOS_array_push(ctx, shared.o, val.o, &idx) != KOS_SUCCESS) {
                KOS_clear_exception(ctx);
                fail(t, "push failed", 0, 0);
            }
            is_set(t, ctx, &v, KOS_array_read(ctx, shared.o, (int)idx));
            if (v != id)
                fail(t, "an element just pushed reads %lld instead of %lld", v, id);
        }
        else if (KOS_array_reserve(ctx, shared.o, KOS_get_array_size(shared.o) + rnd(&t->rng) % 16) != KOS_SUCCESS) {
            KOS_clear_exception(ctx);
            fail(t, "reserve failed", 0, 0);
        }
        KOS_destroy_top_local(ctx, &val);
    }
    KOS_destroy_top_local(ctx, &last);
}

static void run_push(KOS_CONTEXT ctx, struct thread *t)
{
    int i;
    for (i = 0; i < n_ops; i++) {
        const int64_t id  = 1 + t->id + (int64_t)(i + 1) * n_threads;
        uint32_t      idx = 0;
        KOS_LOCAL     val;

        if (gc_rate && ! (rnd(&t->rng) % (uint32_t)gc_rate)) {
            if (KOS_collect_garbage(ctx, 0) != KOS_SUCCESS)
                fail(t, "collection failed", 0, 0);
            __atomic_fetch_add(&gcs, 1, __ATOMIC_RELAXED);
        }

        KOS_init_local(ctx, &val);
        val.o = make(ctx, id);
        if (KOS_array_push(ctx, shared.o, val.o, &idx) != KOS_SUCCESS) {
            KOS_clear_exception(ctx);
            fail(t, "push failed", 0, 0);
        }
        pushed_idx[t->id][i] = (int)idx;
        if (i && (int)idx <= pushed_idx[t->id][i - 1])
            fail(t, "push returned index %lld after index %lld", idx, pushed_idx[t->id][i - 1]);

        /* Read back something pushed earlier by this thread, and something by another one */
        {
            const int which = (int)(rnd(&t->rng) % (uint32_t)(i + 1));
            int64_t   v;
            is_set(t, ctx, &v, KOS_array_read(ctx, shared.o, pushed_idx[t->id][which]));
            if (v != 1 + t->id + (int64_t)(which + 1) * n_threads)
                fail(t, "an element pushed earlier reads %lld (push number %lld)", v, which);
            is_set(t, ctx, &v, KOS_array_read(ctx, shared.o, (int)(rnd(&t->rng) % KOS_get_array_size(shared.o))));
            if (v < ABSENT || v > 1 + (int64_t)(n_ops + 1) * n_threads)
                fail(t, "an element nobody pushed was read: %lld", v, 0);
        }
        KOS_destroy_top_local(ctx, &val);
        ++t->nops;
    }
}

static void run_buf(KOS_CONTEXT ctx, struct thread *t)
{
    /* Each thread owns the bytes at indices equal to its number modulo the number of threads */
    int     i;
    uint8_t mine[MAX_OPS];
    memset(mine, 0, sizeof(mine));
    for (i = 0; i < n_ops; i++) {
        const int slot = (int)(rnd(&t->rng) % (uint32_t)n_keys);
        const int idx  = slot * n_threads + t->id;
        const uint32_t what = rnd(&t->rng) % 10;
        if (what < 6) {
            const uint8_t b = (uint8_t)rnd(&t->rng);
            uint8_t *data = KOS_buffer_data_volatile(ctx, shared.o);
            if ( ! data) {
                KOS_clear_exception(ctx);
                fail(t, "no buffer data", 0, 0);
                return;
            }
            data[idx] = b;
            mine[slot] = b;
            if (data[idx] != b)
                fail(t, "byte %lld reads %lld after it was written", idx, data[idx]);
        }
        else if (what < 9) {
            const uint8_t *data = KOS_buffer_data_const(shared.o);
            if (data[idx] != mine[slot])
                fail(t, "byte %lld reads %lld, not what its only writer wrote", idx, data[idx]);
        }
        else if (gc_rate) {
            if (KOS_collect_garbage(ctx, 0) != KOS_SUCCESS)
                fail(t, "collection failed", 0, 0);
            __atomic_fetch_add(&gcs, 1, __ATOMIC_RELAXED);
        }
        ++t->nops;
    }
}

static KOS_OBJ_ID thread_fn(KOS_CONTEXT ctx, KOS_OBJ_ID this_obj, KOS_OBJ_ID args)
{
    struct thread *t = &threads[GET_SMALL_INT(this_obj)];
    (void)args;
    __atomic_fetch_add(&started, 1, __ATOMIC_RELAXED);
    while (__atomic_load_n(&started, __ATOMIC_RELAXED) < n_threads) {
        KOS_suspend_context(ctx);
        kos_yield();
        if (KOS_resume_context(ctx) != KOS_SUCCESS) {
            KOS_clear_exception(ctx);
            fail(t, "cannot resume", 0, 0);
        }
    }
    switch (mode[0]) {
        case 'o': run_obj(ctx, t); break;
        case 'a': run_arr(ctx, t); break;
        case 'p': run_push(ctx, t); break;
        default:  run_buf(ctx, t); break;
    }
    return KOS_VOID;
}

/* Linearizability of a register with at most 64 operations (Wing and Gong, with memoization) */

static struct op *H[MAX_HIST];
static int        nh;
static uint64_t  *memo_key;
static int64_t   *memo_val;
#define MEMO (1 << 18)
static int        memo_gen_count;
static int       *memo_gen;
static uint64_t   visited;

static int seen(uint64_t done, int64_t v)
{
    uint64_t h = (done * 0x9E3779B97F4A7C15ULL) ^ ((uint64_t)v * 0xC2B2AE3D27D4EB4FULL);
    int      i;
    h = (h ^ (h >> 29)) & (MEMO - 1);
    for (i = 0; i < 64; i++, h = (h + 1) & (MEMO - 1)) {
        if (memo_gen[h] != memo_gen_count) {
            memo_gen[h] = memo_gen_count;
            memo_key[h] = done;
            memo_val[h] = v;
            return 0;
        }
        if (memo_key[h] == done && memo_val[h] == v)
            return 1;
    }
    return 0;
}

static int lin(uint64_t done, int64_t v)
{
    const uint64_t all = nh == 64 ? ~0ULL : (1ULL << nh) - 1;
    uint64_t       min_t1 = ~0ULL;
    int            i;

    if (done == all)
        return 1;
    if (seen(done, v))
        return 0;
    if (++visited > 20000000ULL)
        return 1; /* give up: not counted as a violation */

    for (i = 0; i < nh; i++)
        if ( ! (done >> i & 1) && H[i]->t1 < min_t1)
            min_t1 = H[i]->t1;

    for (i = 0; i < nh; i++) {
        const struct op *o = H[i];
        int64_t          nv = v;
        if ((done >> i & 1) || o->t0 > min_t1)
            continue;
        switch (o->op) {
            case READ:   if (o->value != v) continue; break;
            case WRITE:  nv = o->value; break;
            case DELETE: nv = ABSENT; break;
            default:     if (o->expected != v) continue; nv = o->value; break;
        }
        if (lin(done | 1ULL << i, nv))
            return 1;
    }
    return 0;
}

static int cmp_op(const void *a, const void *b)
{
    const uint64_t x = (*(struct op *const *)a)->t0, y = (*(struct op *const *)b)->t0;
    return x < y ? -1 : x > y;
}

static int check_histories(struct op *final_ops, int n_final, int64_t initial)
{
    int key, i, j, bad = 0;
    for (key = 0; key < n_keys; key++) {
        nh = 0;
        for (i = 0; i < n_threads; i++)
            for (j = 0; j < threads[i].nops; j++)
                if (threads[i].ops[j].key == key && nh < MAX_HIST - 1)
                    H[nh++] = &threads[i].ops[j];
                else if (threads[i].ops[j].key == key)
                    goto next;      /* too long to check */
        for (i = 0; i < n_final; i++)
            if (final_ops[i].key == key)
                H[nh++] = &final_ops[i];
        qsort(H, (size_t)nh, sizeof(H[0]), cmp_op);
        for (i = 0; i < nh; i++)
            for (j = i + 1; j < nh; j++)
                if (H[j]->t0 < H[i]->t1 && H[j]->thread != H[i]->thread)
                    ++overlaps;
        ++memo_gen_count;
        visited = 0;
        ++total_hist;
        if ( ! lin(0, initial)) {
            static const char *names[] = { "read", "write", "delete", "cas", "?" };
            printf("NOT LINEARIZABLE: key %d\n", key);
            for (i = 0; i < nh; i++)
                printf("  [%llu,%llu] thread %d %s %lld%s%.0lld\n", (unsigned long long)H[i]->t0, (unsigned long long)H[i]->t1,
                       H[i]->thread, names[H[i]->op], (long long)H[i]->value, H[i]->op == CAS ? " expected " : "",
                       (long long)(H[i]->op == CAS ? H[i]->expected : 0));
            bad = 1;
        }
next:;
    }
    return bad;
}

static int check_round(KOS_CONTEXT ctx)
{
    struct op fin[MAX_KEYS];
    int       i, j, bad = 0;
    int64_t   v;

    for (i = 0; i < n_threads; i++) {
        total_ops += (uint64_t)threads[i].nops;
        if (threads[i].error) {
            printf("WRONG: thread %d: %s\n", i, threads[i].what);
            bad = 1;
        }
    }

    if (mode[0] == 'o') {
        for (i = 0; i < n_keys; i++) {
            fin[i].op = READ; fin[i].key = i; fin[i].thread = -1; fin[i].expected = 0;
            fin[i].t0 = ticket();
            is_set(0, ctx, &v, KOS_get_property_shallow(ctx, shared.o, key_name(ctx, i)));
            fin[i].value = v;
            fin[i].t1 = ticket();
        }
        for (i = 0; i < n_threads; i++)
            for (j = 0; pushed_idx[i][j] >= 0; j++) {
                is_set(0, ctx, &v, KOS_get_property_shallow(ctx, shared.o, fill_name(ctx, i, j)));
                if ((v != ABSENT) != pushed_idx[i][j]) {
                    printf("WRONG: property f%d.%d reads %lld at the end, expected present=%d\n", i, j, (long long)v, pushed_idx[i][j]);
                    bad = 1;
                }
            }
        /* The object lists exactly the properties which read as present */
        {
            KOS_LOCAL it;
            int listed = 0, expect = 0;
            KOS_init_local(ctx, &it);
            it.o = KOS_new_iterator(ctx, shared.o, KOS_SHALLOW);
            while ( ! KOS_iterator_next(ctx, it.o))
                ++listed;
            KOS_destroy_top_local(ctx, &it);
            for (i = 0; i < n_keys; i++)
                expect += fin[i].value != ABSENT;
            for (i = 0; i < n_threads; i++)
                for (j = 0; pushed_idx[i][j] >= 0; j++)
                    expect += pushed_idx[i][j];
            if (listed != expect) {
                printf("WRONG: the object lists %d properties, %d are present\n", listed, expect);
                bad = 1;
            }
        }
        bad |= check_histories(fin, n_keys, prefilled ? 0 : ABSENT);
    }
    else if (mode[0] == 'a') {
        int pushes = 0;
        for (i = 0; i < n_keys; i++) {
            fin[i].op = READ; fin[i].key = i; fin[i].thread = -1; fin[i].expected = 0;
            fin[i].t0 = ticket();
            is_set(0, ctx, &v, KOS_array_read(ctx, shared.o, i));
            fin[i].value = v;
            fin[i].t1 = ticket();
        }
        (void)pushes;
        bad |= check_histories(fin, n_keys, 0);
    }
    else if (mode[0] == 'p') {
        const uint32_t size = KOS_get_array_size(shared.o);
        if (size != (uint32_t)(n_threads * n_ops)) {
            printf("WRONG: %u elements after %d pushes\n", size, n_threads * n_ops);
            bad = 1;
        }
        else
            for (i = 0; i < n_threads; i++)
                for (j = 0; j < n_ops; j++) {
                    is_set(0, ctx, &v, KOS_array_read(ctx, shared.o, pushed_idx[i][j]));
                    if (v != 1 + i + (int64_t)(j + 1) * n_threads) {
                        printf("WRONG: element %d pushed by thread %d reads %lld\n", pushed_idx[i][j], i, (long long)v);
                        bad = 1;
                    }
                }
    }
    return bad;
}

int main(int argc, char *argv[])
{
    KOS_INSTANCE inst;
    KOS_CONTEXT  ctx;
    uint64_t     seed;
    int          round, bad = 0;

    if (argc != 8)
        return 2;
    mode      = argv[1];
    seed      = strtoull(argv[2], 0, 0) * 0x9E3779B97F4A7C15ULL + 77;
    n_rounds  = atoi(argv[3]);
    n_threads = atoi(argv[4]);
    n_ops     = atoi(argv[5]);
    n_keys    = atoi(argv[6]);
    gc_rate   = atoi(argv[7]);
    memo_key  = calloc(MEMO, sizeof(*memo_key));
    memo_val  = calloc(MEMO, sizeof(*memo_val));
    memo_gen  = calloc(MEMO, sizeof(*memo_gen));

    if (KOS_instance_init(&inst, 0, &ctx) != KOS_SUCCESS)
        return 2;

    for (round = 0; round < n_rounds && ! bad; round++) {
        KOS_THREAD *handles[MAX_THREADS];
        KOS_LOCAL   func;
        int         i;

        KOS_init_local(ctx, &shared);
        KOS_init_local(ctx, &func);
        func.o = KOS_new_builtin_function(ctx, KOS_STR_EMPTY, thread_fn, KOS_NULL);

        if (mode[0] == 'o') {
            shared.o = KOS_new_object(ctx);
            prefilled = (int)(rnd(&seed) % 2);
            if (prefilled)
                for (i = 0; i < n_keys; i++) {
                    KOS_LOCAL name;
                    KOS_init_local(ctx, &name);
                    name.o = key_name(ctx, i);
                    if (KOS_set_property(ctx, shared.o, name.o, KOS_VOID) != KOS_SUCCESS)
                        return 2;
                    KOS_destroy_top_local(ctx, &name);
                }
        }
        else if (mode[0] == 'a')
            shared.o = KOS_new_array(ctx, (uint32_t)n_keys);
        else if (mode[0] == 'p')
            shared.o = KOS_new_array(ctx, 0);
        else {
            shared.o = KOS_new_buffer(ctx, (unsigned)(n_keys * n_threads));
            memset(KOS_buffer_data_volatile(ctx, shared.o), 0, (size_t)(n_keys * n_threads));
        }
        if (IS_BAD_PTR(shared.o))
            return 2;

        ticket_counter = 1;
        started        = 0;
        for (i = 0; i < n_threads; i++) {
            threads[i].id    = i;
            threads[i].nops  = 0;
            threads[i].error = 0;
            threads[i].rng   = seed * 31 + (uint64_t)i * 0x1234567 + 99;
            pushed_idx[i][0] = -1;
            rnd(&threads[i].rng);
        }
        rnd(&seed);
        for (i = 0; i < n_threads; i++) {
            KOS_OBJ_ID args = KOS_new_array(ctx, 0);
            handles[i] = kos_thread_create(ctx, func.o, TO_SMALL_INT(i), args);
            if ( ! handles[i]) {
                printf("cannot create a thread\n");
                return 2;
            }
        }
        for (i = 0; i < n_threads; i++)
            if (IS_BAD_PTR(kos_thread_join(ctx, handles[i]))) {
                printf("WRONG: thread %d failed\n", i);
                KOS_clear_exception(ctx);
                bad = 1;
            }

        if (check_round(ctx)) {
            printf("round %d\n", round);
            bad = 1;
        }
        KOS_destroy_top_locals(ctx, &func, &shared);
    }

    KOS_instance_destroy(&inst);
    free(memo_key); free(memo_val); free(memo_gen);
    printf("rounds %d operations %llu histories %llu overlaps %llu collections %llu bad %d\n", round, (unsigned long long)total_ops,
           (unsigned long long)total_hist, (unsigned long long)overlaps, (unsigned long long)gcs, bad);
    return bad;
}
