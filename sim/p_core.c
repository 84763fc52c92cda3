/* P07: hash map. P08: task iterator. */
#include "sim.h"
#include <errno.h>
#include "metac/backend/hashmap.h"
#include "metac/backend/iterator.h"

/* ================= P07 ================= */
typedef struct { int v; int cls; int i; } hkey_t; /* the key is the number v, i its place in the model */
static int hk_hash(void *k) {
    hkey_t *h = k;
    switch (h->cls) {
    case 0: return h->v;
    case 1: return 42;
    case 2: return h->v & 3;
    case 3: return (int)-((unsigned)h->v * 7919u);
    case 4: return hashmapIntHash(&h->v);
    default: return hashmapHash(&h->v, sizeof h->v);
    }
}
static bool hk_eq(void *a, void *b) { return ((hkey_t *)a)->v == ((hkey_t *)b)->v; }
static bool hk_eq_int(void *a, void *b) { return hashmapIntEquals(&((hkey_t *)a)->v, &((hkey_t *)b)->v); }
typedef struct { int used; void *val; } hslot_t;
typedef struct { hslot_t *m; int range; int *seen; int cnt, stop_at, calls, bad; int cls; void *memo_val; void *memo_key; } hctx_t;
static bool hm_cb(void *key, void *value, void *context) {
    hctx_t *c = context; hkey_t *k = key;
    c->cnt++;
    if (k->i < 0 || k->i >= c->range || !c->m[k->i].used || c->m[k->i].val != value) c->bad = 1;
    else c->seen[k->i]++;
    return c->cnt != c->stop_at;
}
static void *hm_memo(void *key, void *context) { hctx_t *c = context; c->calls++; c->memo_key = key; return c->memo_val; }
static void p07_full(Hashmap *map, hslot_t *m, int range, int size) {
    CHECK((int)SUTQ(hashmapSize(map)) == size, "map-size", "size is %d, model has %d", (int)SUTQ(hashmapSize(map)), size);
    hctx_t *c = halloc(sizeof *c); c->m = m; c->seen = halloc(sizeof(int) * (size_t)range); c->range = range; c->stop_at = -1;
    SUTQV(hashmapForEach(map, hm_cb, c));
    CHECK(!c->bad, "map-content", "iteration shows an entry which is not in the model");
    CHECK(c->cnt == size, "map-content", "iteration shows %d entries of %d", c->cnt, size);
    for (int i = 0; i < range; i++) CHECK(c->seen[i] == (m[i].used ? 1 : 0), "map-content", "key %d is shown %d times", i, c->seen[i]);
}
static void p07_body(sim_task_t *t) {
    rng_t r = rng_make(sim_plan->seed, 0x70700, (uint64_t)t->id);
    int cls = rng_i(&r, 0, 5), big = sim_plan->seed % 800 == 7 && t->id == 0, range = big ? rng_i(&r, 20000, 70000) : rng_i(&r, 1, rng_p(&r, 20) ? 400 : 60);
    if (big && cls && cls < 3) cls = 0;
    hkey_t *keys = halloc(sizeof *keys * (size_t)range), *alias = halloc(sizeof *keys * (size_t)range);
    hslot_t *m = halloc(sizeof *m * (size_t)range);
    unsigned steps[] = { 1, 1, 256, 1000003, 65536, 8388608 }, step = steps[rng_n(&r, 6)], from = rng_p(&r, 50) ? 0 : (unsigned)rng_u64(&r); if (range > 256 && step > 1000003 || big && step != 1000003) step = 1;
    for (int i = 0; i < range; i++) { keys[i].v = alias[i].v = (int)(from + (unsigned)i * step); keys[i].i = alias[i].i = i; keys[i].cls = alias[i].cls = cls; }
    bool (*eq)(void *, void *) = rng_p(&r, 50) ? hk_eq : hk_eq_int;
    int size = 0, nops = big ? 30 : rng_i(&r, 10, 60), reps = big ? 4000 : range > 100 ? 12 : 4;
    size_t caps[] = { 0, 1, 3, 16, 100 };
    Hashmap *map = NULL;
    for (int op = 0; op < nops; op++) {
        rng_t q = rng_make(sim_plan->seed, 0x70701 + (uint64_t)t->id, (uint64_t)op);
        if (!op_on(t, op)) continue;
        if (!map) {
            map = SUT(hashmapCreate(caps[rng_n(&q, 5)], hk_hash, eq));
            if (!map) {
                CHECK(sim_last_hits(), "map-create", "create fails although no allocation failed");
                map = SUTQ(hashmapCreate(caps[rng_n(&q, 5)], hk_hash, eq));
                CHECK(map, "map-create", "create fails after memory is back");
            }
        }
        for (int rep = 0; rep < reps; rep++) {
            int k = (int)rng_n(&q, (uint64_t)range); hkey_t *key = rng_p(&q, 50) ? &keys[k] : &alias[k];
            void *nv = rng_p(&q, 10) ? NULL : (void *)(uintptr_t)(rng_u64(&q) & (rng_p(&q, 50) ? 0xFFFFFF : ~0ull));
            void *res = (void *)0x5a5a; int rc;
            switch (big ? rng_n(&q, 40) ? rng_i(&q, 3, 10) % 8 : 8 + (int)rng_n(&q, 3) : rng_i(&q, 0, 11)) {
            case 0: case 1: case 2: case 3: case 4: {
                int with = rng_p(&q, 80);
                rc = SUT(hashmapPut(map, key, nv, with ? &res : NULL));
                sim_trace_u((uint64_t)rc);
                if (rc != 0) {
                    CHECK(rc == -ENOMEM, "map-put", "put returns %d", rc);
                    CHECK(sim_last_hits(), "map-put", "put reports no memory although no allocation failed");
                    CHECK(!m[k].used, "map-put", "replacing a present key reports no memory");
                    if (with) CHECK(res == NULL, "map-put", "a failed put does not store NULL as the previous value");
                    sim_probe("put failed");
                    CHECK((int)SUTQ(hashmapSize(map)) == size, "map-size", "size changed by a failed put");
                    CHECK(!SUTQ(hashmapContainsKey(map, key)), "map-put", "key of a failed put is present");
                    if (rng_p(&q, 50)) break;
                    rc = SUTQ(hashmapPut(map, key, nv, with ? &res : NULL));
                    CHECK(rc == 0, "map-put", "put fails after memory is back");
                }
                if (with) CHECK(res == (m[k].used ? m[k].val : NULL), "map-put", "wrong previous value");
                if (!m[k].used) size++; else sim_probe("replace");
                m[k].used = 1; m[k].val = nv;
                break; }
            case 5: case 6: {
                hctx_t *c = halloc(sizeof *c); c->memo_val = nv; int with = rng_p(&q, 80);
                rc = SUT(hashmapMemoize(map, key, hm_memo, c, with ? &res : NULL));
                if (rc != 0) {
                    CHECK(rc == -ENOMEM && sim_last_hits() && !m[k].used, "map-memoize", "memoize returns %d", rc);
                    CHECK(c->calls == 0, "map-memoize", "callback is called by a failing memoize");
                    CHECK((int)SUTQ(hashmapSize(map)) == size && !SUTQ(hashmapContainsKey(map, key)), "map-memoize", "a failed memoize changed the map");
                    sim_probe("memoize failed");
                    break;
                }
                if (m[k].used) { CHECK(c->calls == 0, "map-memoize", "callback is called for a present key"); if (with) CHECK(res == m[k].val, "map-memoize", "wrong value of a present key"); }
                else { CHECK(c->calls == 1 && ((hkey_t *)c->memo_key)->i == k, "map-memoize", "callback called %d times", c->calls); if (with) CHECK(res == nv, "map-memoize", "wrong initial value"); m[k].used = 1; m[k].val = nv; size++; }
                break; }
            case 7: case 8: {
                void *v = SUT(hashmapRemove(map, key));
                CHECK(v == (m[k].used ? m[k].val : NULL), "map-remove", "wrong removed value");
                if (m[k].used) { size--; m[k].used = 0; m[k].val = NULL; sim_probe("removed"); }
                break; }
            case 9: CHECK(SUT(hashmapGet(map, key)) == (m[k].used ? m[k].val : NULL), "map-get", "wrong value of key %d", k); break;
            case 10: CHECK(SUT(hashmapContainsKey(map, key)) == (m[k].used != 0), "map-get", "wrong presence of key %d", k); break;
            case 11: {
                hctx_t *c = halloc(sizeof *c); c->m = m; c->seen = halloc(sizeof(int) * (size_t)range); c->range = range; c->stop_at = rng_i(&q, 1, size + 1);
                SUTV(hashmapForEach(map, hm_cb, c));
                CHECK(!c->bad && c->cnt == (c->stop_at <= size ? c->stop_at : size), "map-iterate", "iteration made %d calls, %d asked of %d", c->cnt, c->stop_at, size);
                for (int i = 0; i < range; i++) CHECK(c->seen[i] <= 1, "map-iterate", "an entry is shown twice");
                break; }
            }
            CHECK((int)SUTQ(hashmapSize(map)) == size, "map-size", "size is wrong");
            int k2 = (int)rng_n(&q, (uint64_t)range);
            CHECK(SUTQ(hashmapGet(map, &alias[k2])) == (m[k2].used ? m[k2].val : NULL), "map-get", "wrong value of key %d after an operation on key %d", k2, k);
        }
        if (rng_p(&q, 15)) p07_full(map, m, range, size);
        if (size > 30000) sim_probe("more than 30000 entries");
        if (rng_p(&q, big ? 1 : 4)) { SUTV(hashmapFree(map)); map = NULL; memset(m, 0, sizeof *m * (size_t)range); size = 0; CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left after the map is freed"); sim_probe("freed and recreated"); }
    }
    if (map) { p07_full(map, m, range, size); SUTV(hashmapFree(map)); }
    CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left after the map is freed");
}
const prop_t prop_p07 = { .id = "P07", .max_tasks = 2, .variants = 6, .max_ops = 60, .body = p07_body, .quick_seeds = 16000, .thorough_seeds = 400000,
    .what = "one run = one seeded history of put/get/contains/memoize/remove/iterate/free on maps with good, constant, clustered and negative hashes, compared with an array model after every operation; allocations fail at seeded points and two callers are interleaved; non-trivial = distinct event trace" };

/* ================= P08 ================= */
typedef struct tnode { int id; struct tnode *parent; int phases; int phase; int nkids[6]; int drain[6]; int fail; int started, ended, refused; int depth;
    struct tnode **kids; int kn; /* all appended kids, in order */ int q_head; /* kids dequeued so far */ void *ctx; } tnode_t;
typedef struct { rng_t r; int count, max; int visits; } tworld_t;
static tnode_t *tn_new(tworld_t *w, tnode_t *parent) {
    tnode_t *n = halloc(sizeof *n);
    n->id = w->count++; n->parent = parent; n->depth = parent ? parent->depth + 1 : 0;
    n->phases = rng_i(&w->r, 0, 4); n->kids = halloc(sizeof(void *) * 64);
    for (int i = 0; i < n->phases; i++) { n->nkids[i] = n->depth > 8 ? 0 : rng_i(&w->r, 0, n->depth > 4 ? 2 : 4); n->drain[i] = rng_i(&w->r, 0, 2); }
    n->fail = rng_p(&w->r, 15);
    return n;
}
static void *tn_out(tnode_t *n) { return n->fail ? NULL : (n->id % 5 == 4 ? NULL : (void *)(uintptr_t)(0x1000 + n->id)); }
static void p08_dequeue(metac_recursive_iterator_t *it, tnode_t *n) {
    tnode_t *k = n->kids[n->q_head]; void *in = NULL; int fail = -1;
    void *out = SUT(metac_recursive_iterator_dequeue_and_delete_dep(it, &in, &fail));
    CHECK(in == k, "iter-order", "dependencies come back out of order");
    CHECK(k->ended, "iter-order", "a dependency which is not finished comes back");
    CHECK(out == tn_out(k) && fail == (k->fail ? 1 : 0), "iter-result", "result or failure of a dependency is wrong");
    n->q_head++;
}
static void p08_body(sim_task_t *t) {
    rng_t r = rng_make(sim_plan->seed, 0x80800, (uint64_t)t->id);
    int rounds = rng_i(&r, 1, 6);
    for (int op = 0; op < rounds; op++) {
        if (!op_on(t, op)) continue;
        uint32_t seq0 = heap_seq();
        tworld_t *w = halloc(sizeof *w); w->r = rng_make(sim_plan->seed, 0x80801 + (uint64_t)t->id, (uint64_t)op); w->max = rng_i(&w->r, 1, 60);
        tnode_t *root = tn_new(w, NULL);
        metac_recursive_iterator_t *it = SUT(metac_new_recursive_iterator(root));
        if (!it) {
            CHECK(sim_last_hits(), "iter-new", "no iterator although no allocation failed");
            CHECK(heap_live(1 << H_SUT, seq0, NULL) == 0, "leak", "failed creation keeps memory");
            SUTV(metac_recursive_iterator_free(it)); /* like free(): nothing to do */
            CHECK(SUTQ(metac_recursive_iterator_next(it)) == NULL, "iter-new", "next of no iterator gives a task");
            sim_probe("new failed");
            continue;
        }
        tnode_t *expect_path = NULL; (void)expect_path;
        int ended = 0, started = 0; uint64_t guard = 0;
        for (tnode_t *n = SUT(metac_recursive_iterator_next(it)); n != NULL; n = SUT(metac_recursive_iterator_next(it))) {
            CHECK(++guard < 5000, "iter-progress", "iteration does not end");
            CHECK(!n->ended, "iter-again", "a finished task is called again");
            int st = SUT(metac_recursive_iterator_get_state(it));
            CHECK(st == n->phase, "iter-state", "state of a task is %d, it set %d", st, n->phase);
            CHECK(SUT(metac_recursive_iterator_get_context(it)) == n->ctx, "iter-context", "context of a task is not what it stored");
            CHECK(SUT(metac_recursive_iterator_level(it)) == n->depth, "iter-level", "level is wrong");
            int up = rng_i(&w->r, 0, n->depth + 1); tnode_t *a = n; for (int i = 0; i < up && a; i++) a = a->parent;
            CHECK(SUT(metac_recursive_iterator_get_in(it, up)) == a, "iter-level", "task %d levels up is wrong", up);
            if (!n->started) {
                n->started = 1; started++;
                /* depth first, in the order of appending: every elder sibling is finished */
                if (n->parent) for (int i = 0; i < n->parent->kn && n->parent->kids[i] != n; i++) CHECK(n->parent->kids[i]->ended, "iter-order", "task starts before an elder sibling is finished");
                if (rng_p(&w->r, 60)) { n->ctx = (void *)(uintptr_t)(0x900000 + n->id); CHECK(SUT(metac_recursive_iterator_set_context(it, n->ctx)) == n->ctx, "iter-context", "set_context result"); }
            } else for (int i = 0; i < n->kn; i++) CHECK(n->kids[i]->ended, "iter-order", "task is called again before all dependencies are finished");
            int pending = n->kn - n->q_head;
            CHECK(SUT(metac_recursive_iterator_dep_queue_size(it)) == pending, "iter-queue", "queue size is wrong");
            CHECK((SUT(metac_recursive_iterator_dep_queue_is_empty(it)) != 0) == (pending == 0), "iter-queue", "queue emptiness is wrong");
            if (pending && rng_p(&w->r, 50)) {
                int i = rng_i(&w->r, 0, pending - 1); void *in = NULL; int fail = -1; tnode_t *k = n->kids[n->q_head + i];
                void *out = SUT(metac_recursive_iterator_get_dep_out(it, i, &in, &fail));
                CHECK(in == k && out == tn_out(k) && fail == (k->fail ? 1 : 0), "iter-result", "peeked result of dependency %d is wrong", i);
            }
            int ph = n->phase;
            int last = ph >= n->phases;
            if (!last) {
                int d = n->drain[ph]; /* 0: keep, 1: some, 2: all */
                int k = d == 2 ? pending : d == 1 && pending ? rng_i(&w->r, 0, pending) : 0;
                for (int i = 0; i < k; i++) p08_dequeue(it, n);
                if (k && k == pending) sim_probe("queue drained before appending again");
                for (int i = 0; i < n->nkids[ph] && w->count < w->max && n->kn < 60; i++) {
                    tnode_t *c = tn_new(w, n);
                    int rc = SUT(metac_recursive_iterator_create_and_append_dep(it, c));
                    if (rc != 0) { CHECK(rc == -ENOMEM && sim_last_hits(), "iter-append", "append returns %d", rc); sim_probe("append failed"); c->refused = 1;
                        CHECK(SUTQ(metac_recursive_iterator_dep_queue_size(it)) == n->kn - n->q_head, "iter-queue", "a failed append changed the queue");
                        if (rng_p(&w->r, 50)) { rc = SUTQ(metac_recursive_iterator_create_and_append_dep(it, c)); CHECK(rc == 0, "iter-append", "append fails after memory is back"); n->kids[n->kn++] = c; c->refused = 0; } }
                    else n->kids[n->kn++] = c;
                }
                n->phase = ph + 1;
                CHECK(SUT(metac_recursive_iterator_set_state(it, n->phase)) == it, "iter-state", "set_state result");
            } else {
                while (n->q_head < n->kn) p08_dequeue(it, n);
                n->ended = 1; ended++;
                if (n->fail) SUTV(metac_recursive_iterator_fail(it)); else SUTV(metac_recursive_iterator_done(it, tn_out(n)));
            }
        }
        CHECK(root->ended && started == ended, "iter-progress", "iteration ended with %d of %d tasks finished", ended, started);
        int appended = 0; (void)appended;
        void *in = NULL; int fail = -1;
        void *out = SUT(metac_recursive_iterator_get_out(it, &in, &fail));
        CHECK(in == root && out == tn_out(root) && fail == (root->fail ? 1 : 0), "iter-result", "final result is wrong");
        CHECK(SUT(metac_recursive_iterator_next(it)) == NULL, "iter-again", "a finished iterator gives a task");
        SUTV(metac_recursive_iterator_free(it));
        CHECK(heap_live(1 << H_SUT, seq0, NULL) == 0, "leak", "iterator leaves memory");
        sim_trace_u((uint64_t)ended);
    }
}
const prop_t prop_p08 = { .id = "P08", .max_tasks = 2, .variants = 6, .max_ops = 6, .body = p08_body, .quick_seeds = 20000, .thorough_seeds = 500000,
    .what = "one run = seeded task trees (up to 60 tasks, several phases each, partial and full draining of results between phases) executed by the iterator and compared with a tree evaluation model; appends fail at seeded points; non-trivial = distinct event trace" };
