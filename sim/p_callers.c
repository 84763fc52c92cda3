/* P15: several callers on a shared world. */
#include "mix.h"
#include <stdlib.h>
static world_t *W;
static void setup(rng_t *r) { wcfg_t c; rand_cfg(r, &c, 1); W = world_make(r, &c); }
static void finish(void) { world_free(W); CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left after the tag maps are deleted"); }
static void body(sim_task_t *t) {
    uint32_t seq = heap_seq();
    for (int i = 0; i < 10; i++) {
        if (!op_on(t, i)) continue;
        rng_t q = rng_make(sim_plan->seed, 0x1500 + (uint64_t)t->id, (uint64_t)i); mix_op(W, &q);
    }
    CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "library memory of this caller is left");
}
const prop_t prop_p15 = { .id = "P15", .max_tasks = 4, .min_tasks = 2, .variants = 10, .max_ops = 10, .setup = setup, .body = body, .finish = finish, .quick_seeds = 1000, .thorough_seeds = 60000,
    .what = "2 to 4 caller tasks share one set of reflection data and tag maps and run deep copy, free, comparison, texts, declarations, tag lookups and typed access on their own objects; up to 500 forced switches per run at any basic block or allocator call of the library; every result is compared with the reference answer of that caller alone; some runs also fail allocations of single callers" };
