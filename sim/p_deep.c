/* P01..P05: deep copy, free, compare, text. */
#include "deep.h"
#include <stdlib.h>
static world_t *W;
static void setup_cb(rng_t *r) { wcfg_t c; rand_cfg(r, &c, 1); W = world_make(r, &c); }
static void finish(void) { world_free(W); CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left after the tag maps are deleted"); }
static void each(sim_task_t *t, int nops, int (*f)(obj_t *, rng_t *), int which) {
    for (int i = 0; i < nops; i++) {
        if (!op_on(t, i)) continue;
        rng_t q = rng_make(sim_plan->seed, 1000 + (uint64_t)t->id, (uint64_t)i); obj_t *o = rand_obj(W, &q); if (!o) continue;
        f(o, &q);
        if (rng_p(&q, 25) && heap_owned(o->top, H_OBJ)) f(o, &q);
        obj_destroy(o);
        if (rng_p(&q, 4)) op_callback(W, &q, which);
    }
}
static int f_copy(obj_t *o, rng_t *q) { return op_copy(o, q, 1); }
static int f_free(obj_t *o, rng_t *q) { for (int i = 0; i < o->nb; i++) if (!heap_owned(o->b[i].a, H_OBJ)) return 0; return op_free(o, q); }
static void b_copy(sim_task_t *t) { each(t, 6, f_copy, 0); }
static void b_free(sim_task_t *t) { each(t, 6, f_free, 1); }
static void b_equal(sim_task_t *t) { each(t, 6, op_equal, 2); }
static void b_text(sim_task_t *t) { each(t, 6, op_text, 3); }
const prop_t prop_p01 = { .id = "P01", .max_tasks = 1, .variants = 2, .max_ops = 6, .setup = setup_cb, .body = b_copy, .finish = finish, .quick_seeds = 5000, .thorough_seeds = 200000,
    .what = "random types, hints and object graphs (sharing, interior pointers, cycles) are deep copied in all modes; the copy is compared with the source block by block and slot by slot against a reference reading of the raw memory" };
const prop_t prop_p02 = { .id = "P02", .max_tasks = 1, .variants = 10, .max_ops = 6, .setup = setup_cb, .body = b_copy, .finish = finish, .quick_seeds = 1500, .thorough_seeds = 60000,
    .what = "deep copies with failing allocations (library's and caller's) and failing hint callbacks at seeded points; after a failure: everything given back, source unchanged, repetition succeeds" };
const prop_t prop_p03 = { .id = "P03", .max_tasks = 1, .variants = 6, .max_ops = 6, .setup = setup_cb, .body = b_free, .finish = finish, .quick_seeds = 2500, .thorough_seeds = 80000,
    .what = "deep free of random object graphs with and without failing allocations and hints; the set of released blocks is compared with the reachable set of the reference" };
const prop_t prop_p04 = { .id = "P04", .max_tasks = 1, .variants = 6, .max_ops = 6, .setup = setup_cb, .body = b_equal, .finish = finish, .quick_seeds = 2500, .thorough_seeds = 80000,
    .what = "deep comparison of isomorphic clones and of clones with exactly one reachable difference, both argument orders, with and without failing allocations and hints" };
const prop_t prop_p05 = { .id = "P05", .max_tasks = 1, .variants = 6, .max_ops = 6, .setup = setup_cb, .body = b_text, .finish = finish, .quick_seeds = 2500, .thorough_seeds = 80000,
    .what = "shallow and deep text of random objects compared with a reference printer, with and without failing allocations and hints" };
