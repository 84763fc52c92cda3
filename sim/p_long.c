/* P16: long and deeply nested objects need no more stack than short ones. */
#include "deep.h"
#include <stdlib.h>
#define STACK_BOUND (20u << 10)  /* now about 6 KB are taken */
#define STACK_GROWTH (6u << 10)   /* more than a short object of the same type */
static double cost(obj_t *o) { return (double)o->ptrs * o->depth * o->depth + 30.0 * o->nodes * (o->depth + 20); }
static world_t *W; static int nest0, nestn;
static void setup(rng_t *r) {
    wcfg_t c; rand_cfg(r, &c, 1); c.maxents = 12000; c.max_structs = rng_i(r, 1, 3); c.max_members = rng_p(r, 60) ? 3 : 6; W = world_make(r, &c); view_max = 40000; view_depth = 20000;
    nest0 = W->ntops; nestn = 2; for (int i = 0; i < nestn; i++) { int k = (int)rng_n(r, 5); world_nest(W, r, k, rng_p(r, 50) ? rng_i(r, 20, 120) : k && k < 4 && rng_p(r, 50) ? rng_i(r, 400, 1500) : rng_i(r, 100, 300)); }
}
static void finish(void) { world_free(W); CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left after the tag maps are deleted"); }
static const char *opn[] = { "copy", "comparison", "free", "text" };
static size_t run(obj_t *o, rng_t q, int op, uint64_t *steps) {
    uint64_t s0 = sim_steps(); sim_stack_peak = 0; sim_stack_meter = 1;
    switch (op) { case 0: op_copy(o, &q, 1); break; case 1: op_equal(o, &q); break; case 2: op_free(o, &q); break; default: op_text(o, &q); }
    sim_stack_meter = 0; *steps = sim_steps() - s0; return sim_stack_peak;
}
static void body(sim_task_t *t) {
    for (int i = 0; i < 3; i++) {
        if (!op_on(t, i)) continue;
        rng_t q = rng_make(sim_plan->seed, 0x1600, (uint64_t)i); int op = (int)rng_n(&q, 4), best = -1, bd = 0; uint64_t seed = rng_u64(&q), st; obj_t *o, *s = NULL;
        if (rng_p(&q, 25)) { /* nested type */
            o = obj_make_long(W, seed, nest0 + (int)rng_n(&q, (uint64_t)nestn), 1000); if (!o) continue; sim_probe("long: nested type");
        } else {
            for (int k = 0; k < 6; k++) { /* which type can go on */
                int top = (int)rng_n(&q, (uint64_t)nest0); o = obj_make_long(W, seed, top, 30); if (!o) continue; if (o->depth > bd) { bd = o->depth; best = top; } obj_destroy(o);
            }
            if (best < 0) continue;
            int len = bd < 30 ? 30 : rng_p(&q, 20) ? rng_i(&q, 30, 100) : rng_p(&q, 70) ? rng_i(&q, 100, 300) : rng_i(&q, 300, 700); double top = sim_plan->seed % 37 == 5 ? 6e7 : 1e7;
            s = obj_make_long(W, seed, best, 4 + (len & 1)); o = obj_make_long(W, seed, best, len);
            while (len > 60 && (!o || cost(o) > top)) { if (o) obj_destroy(o); len = len * 2 / 3 | (len & 1); o = obj_make_long(W, seed, best, len); }
            if (!o || !s) { if (o) obj_destroy(o); if (s) obj_destroy(s); sim_probe("long: outside of the domain"); continue; }
        }
        const char *lv = o->depth < 50 ? "below 50" : o->depth < 500 ? "50..500" : o->depth < 2000 ? "500..2000" : o->depth < 6000 ? "2000..6000" : "more than 6000";
        sim_probe(hprintf("long: %s, levels %s", opn[op], lv));
        size_t a = 0, b; if (s) { a = run(s, q, op, &st); obj_destroy(s); }
        int d = o->depth, n = o->nodes; double cs = cost(o); b = run(o, q, op, &st); obj_destroy(o);
        if (getenv("P16M")) fprintf(stderr, "%s depth %d seed %lu nodes %d short %zu long %zu cost %.0f steps %lu rel %.2f\n", opn[op], d, sim_plan->seed, n, a, b, cs, (long)st, st/(cs+1e4));
        CHECK((double)st <= 4e6 + 100 * cs, "steps", "%s of an object of %d levels and %d parts takes %lu steps", opn[op], d, n, (long)st);
        CHECK(b <= STACK_BOUND, "stack-grows", "%s of an object of %d levels takes %zu bytes of stack", opn[op], d, b);
        if (a && !sim_plan->nfaults) CHECK(b <= a + STACK_GROWTH, "stack-grows", "%s takes %zu bytes of stack for an object of %d levels and %zu bytes for a short one of the same type", opn[op], b, d, a);
    }
}
const prop_t prop_p16 = { .id = "P16", .max_tasks = 1, .variants = 2, .max_ops = 3, .setup = setup, .body = body, .finish = finish, .quick_seeds = 160, .thorough_seeds = 20000,
    .what = "objects with up to about a thousand levels (structures of random types, counted, casted, container and union pointers, cycles at the end) and types nested up to 1500 levels (pointers, arrays, structures, names) are copied, compared, freed and printed, with the complete checks of those operations and with failing allocations and hints; the stack taken by each call is measured" };
