/* P14: histories mixing everything, memory failing anywhere. */
#include "mix.h"
#include <stdlib.h>
extern const prop_t prop_p06, prop_p07, prop_p08, prop_p09, prop_p10, prop_p11, prop_p12, prop_p13, prop_p15;
static const prop_t *const worlds[] = { &prop_p15, &prop_p15, &prop_p06, &prop_p09, &prop_p10, &prop_p10, &prop_p11, &prop_p11, &prop_p13 }, *const plain[] = { &prop_p07, &prop_p08, &prop_p12 };
static const prop_t *M;
static void setup(rng_t *r) { M = worlds[rng_n(r, sizeof worlds / sizeof *worlds)]; prop_p12.setup(r); M->setup(r); sim_probe(hprintf("memory fails: history of %s", M->id)); }
static void finish(void) { M->finish(); }
static void body(sim_task_t *t) {
    rng_t q = rng_make(sim_plan->seed, 0x1400, 0); int n = rng_i(&q, 1, 3), at = (int)rng_n(&q, (uint64_t)n);
    for (int i = 0; i < n; i++) {
        const prop_t *p = i == at ? M : plain[rng_n(&q, 3)];
        uint32_t seq = heap_seq(); p->body(t); if (i != at) sim_probe(hprintf("memory fails: history of %s", p->id));
        hblk_t *f = NULL; CHECK(heap_live(1 << H_SUT, seq, &f) == 0, "leak", "memory is left after a history of %s, first block of %zu bytes", p->id, f ? f->size : 0);
    }
}
const prop_t prop_p14 = { .id = "P14", .max_tasks = 1, .variants = 14, .max_ops = 50, .setup = setup, .body = body, .finish = finish, .quick_seeds = 1500, .thorough_seeds = 100000,
    .what = "the histories of the other checks (deep copy, free, comparison, texts and declarations; tag maps; changing hints; captured calls and formats; typed access; hash maps and iterators) are joined in seeded order and run once without faults and 14 times with failing allocations: one, several, bursts, or all from a point on; results, released memory, invalid accesses, lost memory and steps are checked as in those checks" };
