/* P06: C declarations. */
#include "deep.h"
#include <stdlib.h>
static world_t *W;
#define NENT 16
static struct { metac_entry_t *e; char *want; } E[NENT];
static void setup(rng_t *r) {
    wcfg_t c; rand_cfg(r, &c, 0); c.hints = 0; W = world_make(r, &c);
    for (int i = 0; i < NENT; i++) {
        int k = rng_i(&W->r, 0, 9), depth = rng_i(&W->r, 0, 5); mt *t;
        if (k < 5) { t = t_rand(W, depth); if (rng_p(&W->r, 10)) while (t->k == M_PTR && res(t->to)->k == M_FUNC) t = t->to; E[i].e = t->e; E[i].want = ref_cdecl(t); sim_probe("declaration of a type"); }
        else if (k < 7) {
            t = t_rand(W, depth); metac_entry_t *v = ent_new(W, 1); v->kind = METAC_KND_variable; v->name = aux_str(W, hprintf("var%d", i)); v->variable_info.type = t->e;
            E[i].e = v; E[i].want = ref_cdecl_as(t, v->name); sim_probe("declaration of a variable");
        } else if (k < 9) {
            int np = wide(W, &W->r, rng_i(&W->r, 0, 5)), dots = np && rng_p(&W->r, 30); metac_entry_t *s = ent_new(W, 1), *p = np + dots ? ent_new(W, np + dots) : NULL; hbuf_t b = {0};
            s->kind = METAC_KND_subprogram; s->name = aux_str(W, hprintf("fn%d", i)); hb_add(&b, "%s(", s->name);
            for (int q = 0; q < np; q++) {
                do t = t_rand(W, np > 9 ? 0 : depth > 3 ? 3 : depth); while (res(t)->k == M_FUNC || res(t)->k == M_DECL || res(t)->k == M_ARR || res(t)->k == M_FLEX);
                p[q].kind = METAC_KND_func_parameter; p[q].func_parameter_info.type = t->e; if (rng_p(&W->r, 85)) p[q].name = aux_str(W, hprintf("a%d", q));
                hb_add(&b, "%s%s", q ? ", " : "", ref_trim(ref_cdecl_as(t, p[q].name ? p[q].name : "")));
            }
            if (dots) { p[np].kind = METAC_KND_func_parameter; p[np].func_parameter_info.unspecified_parameters = 1; hb_s(&b, ", ..."); }
            hb_s(&b, ")");
            mt *ret = t_void(); if (rng_p(&W->r, 75)) do ret = t_rand(W, depth); while (res(ret)->k == M_FUNC || res(ret)->k == M_DECL || res(ret)->k == M_ARR || res(ret)->k == M_FLEX);
            s->subprogram_info.type = ret->e; s->subprogram_info.parameters_count = np + dots; s->subprogram_info.parameters = p;
            E[i].e = s; E[i].want = ref_cdecl_as(ret, b.p); sim_probe("declaration of a function");
        } else { /* things without a declaration of their own */
            mt *st = W->st[rng_n(&W->r, (uint64_t)W->nst)]; if (!st->nm) { i--; continue; } E[i].e = st->m[0].e; E[i].want = NULL;
        }
    }
}
static void body(sim_task_t *t) {
    for (int i = 0; i < NENT; i++) {
        if (!op_on(t, i)) continue;
        char *s = NULL, *want = E[i].want; 
        for (int tries = 0; tries < 2; tries++) {
            uint32_t seq = heap_seq(); s = tries ? SUTQ(metac_entry_cdecl(E[i].e)) : SUT(metac_entry_cdecl(E[i].e)); sim_trace_s(s);
            hblk_t *f = NULL; int n = heap_live(1 << H_SUT, seq, &f); CHECK(n == (s != NULL), "decl-leak", "%d library blocks are left after %s, first of %zu bytes", n, s ? "a declaration" : "no declaration", f ? f->size : 0);
            if (s) break;
            CHECK(!want || sim_last_hits(), "decl-absent", "no declaration although nothing failed; expected %s", want);
            sim_probe(want ? "declaration failed by a fault" : "no declaration, as expected"); if (!want) break;
        }
        if (s) {
            CHECK(want, "decl-guess", "a declaration of something without one: %s", s);
            CHECK(!strcmp(s, want), "decl-wrong", "declaration is\n      %s\n    has to be\n      %s%s", s, want, sim_last_hits() ? " (an allocation failed)" : "");
            if (strlen(s) > 200) sim_probe("declaration longer than 200");
            SUTQV(sim_free(s));
        }
    }
}
static void finish(void) { world_free(W); }
const prop_t prop_p06 = { .id = "P06", .max_tasks = 1, .variants = 6, .max_ops = NENT, .setup = setup, .body = body, .finish = finish, .quick_seeds = 12000, .thorough_seeds = 150000,
    .what = "declarations of 16 random types, variables and functions per run (nesting to depth 5) compared with a reference declaration printer, with and without failing allocations; non-trivial = distinct event trace (texts, allocations, faults)" };
