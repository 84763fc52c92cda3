/* P10: hints follow the object's current data or the operation fails. */
#include "deep.h"
#include <stdlib.h>
static world_t *W;
static void setup(rng_t *r) { wcfg_t c; rand_cfg(r, &c, 1); c.hints = 1; c.badhints = rng_p(r, 35); W = world_make(r, &c); }
static void finish(void) { world_free(W); CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left after the tag maps are deleted"); }
typedef struct { vn **v; int n, cap; } vl;
static void walk(vn *v, vl *l) {
    if (l->n == l->cap) { int c = l->cap * 2 + 64; vn **p = halloc(sizeof *p * (size_t)c); if (l->n) memcpy(p, l->v, sizeof *p * (size_t)l->n); l->v = p; l->cap = c; }
    l->v[l->n++] = v; for (int i = 0; i < v->nch; i++) walk(v->ch[i], l);
}
typedef struct { char *a; mt *t; int bitoff, bits; int64_t old; } chg_t;
static int fits(mt *t, int bits, int64_t v) { char b[16] = {0}; wr_int(t, b, 0, bits, v); return rd_int(t, b, 0, bits) == v; }
/* changes the sibling data of some hint of the object; only what leaves every remaining reading inside of the object's memory */
static int change(obj_t *o, rng_t *q, chg_t *ch, const char **what) {
    vinfo_t vi = {0}; vl l = {0}; vn *v = obj_view(o, &vi); walk(v, &l);
    for (int k = 0; k < 60; k++) {
        vn *x = l.v[rng_n(q, (uint64_t)l.n)]; if (!x->via || x->via->role == R_PLAIN || !x->up || x->up->t->k != M_STRUCT) continue;
        mm *m = x->via; int64_t old = rd_int(x->t, x->a, x->bitoff, x->bits), nv = old; int sel = m->role == R_SELECTOR; if (!sel && (old < 0 || old > 100)) continue;
        if (sel) {
            int64_t c[] = { -1, 1000, 100, m->maxv + 1, m->maxv + 2, 0x100000000ll + old, 0x7fffffffll, -0x80000000ll, old + 256, old + 65536, (int64_t)rng_u64(q) }; nv = c[rng_n(q, sizeof c / sizeof *c)];
            int listed = 0; for (int i = 0; i < m->ncs; i++) if (m->cs[i].v == nv) listed = 1; if (listed) continue;
            *what = "a selection which isn't listed";
        } else if (rng_p(q, 50)) { if (old < 1) continue; nv = (int64_t)rng_n(q, (uint64_t)old); *what = nv ? "a smaller count" : "count of zero"; }
        else { int64_t c[] = { -1, -2, -128, -0x80000000ll, 0x100000000ll + old, 0x100000000ll, 0x80000000ll + old, 0xffffffffll, -(0x100000000ll - old), INT64_MIN, INT64_MIN + old, INT64_MAX, 0x8000000000ll }; nv = c[rng_n(q, sizeof c / sizeof *c)]; *what = "a count which can't be"; }
        if (nv == old || !fits(x->t, x->bits, nv)) continue;
        if (x->t->k == M_BASE && x->t->base == 10 && nv != 0 && nv != 1) continue;
        *ch = (chg_t){ x->a, x->t, x->bitoff, x->bits, old }; wr_int(x->t, x->a, x->bitoff, x->bits, nv); return 1;
    }
    return 0;
}
static void undo(chg_t *c) { wr_int(c->t, c->a, c->bitoff, c->bits, c->old); }
static int usable(obj_t *o, vinfo_t *vi) { int b = o->w->cfg.badhints; o->w->cfg.badhints = 1; int ok = obj_in_domain(o); o->w->cfg.badhints = b; memset(vi, 0, sizeof *vi); obj_view(o, vi); return ok; }
static void same(obj_t *o, rng_t *q, vinfo_t *vi) { /* the object is equal to itself and to its copy in memory, and differs from an unchanged one */
    dmode_t dm = rand_mode(q, o, 1); int mf = must_fail(o, vi, &dm.m); metac_value_t *a = mkval(o->e, o->top), *b = mkval(o->e, o->top); obj_snap(o);
    for (int i = 0; i < 2; i++) {
        uint32_t seq = heap_seq(); int r = i ? SUTQ(metac_value_equal_ex(a, b, dm.null_mode ? NULL : &dm.m, o->w->map)) : SUT(metac_value_equal_ex(a, b, dm.null_mode ? NULL : &dm.m, o->w->map)); uint32_t h = sim_last_hits(); sim_trace_u((uint64_t)r);
        CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "memory is left after a comparison"); CHECK(!obj_changed(o), "hint-changes", "the object is changed by a comparison");
        if (r < 0) { CHECK(mf || h, "hint-fails", "comparison fails (%d) although nothing failed", r); if (mf) break; continue; }
        CHECK(!mf, "hint-guess", "comparison answers %d although a hint can't be resolved", r); CHECK(r == 1, "hint-equal", "an object isn't equal to itself (%d)", r); break;
    }
    SUTQV(metac_value_delete(a)); SUTQV(metac_value_delete(b));
}
static void one(obj_t *o, rng_t *q, const char *what) {
    vinfo_t vi; if (!usable(o, &vi)) { sim_probe("hints: object outside of the domain"); return; }
    if (what) sim_probe(hprintf("hints: %s", what)); if (vi.bad) sim_probe("hints: not resolvable"); else sim_probe("hints: resolved");
    switch (rng_n(q, 3)) { case 0: op_copy(o, q, 1); break; case 1: op_text(o, q); break; default: same(o, q, &vi); }
}
/* a member taken out of its structure: its sibling is missing */
static void alone(obj_t *o, rng_t *q) {
    vinfo_t vi = {0}; vl l = {0}; vn *v = obj_view(o, &vi); walk(v, &l);
    for (int k = 0; k < 30; k++) {
        vn *x = l.v[rng_n(q, (uint64_t)l.n)]; if (!x->via || x->bits) continue; hint_t h = x->via->h;
        if (h == HT_UPERM && x->st == V_OK && x->via->name && x->t->k == M_UNION) { /* a constant needs no sibling */
            int absent = 0; vn y = *x; y.up = NULL; char *want = ref_text(&y, 1, 1, &absent); if (absent || o->oddloop || vi.loops || vi.bad) continue;
            metac_value_t *p = mkval(x->via->e, x->a); uint32_t seq = heap_seq(); char *s = SUT(metac_value_string_ex(p, METAC_WMODE_deep, o->w->map)); uint32_t hit = sim_last_hits();
            CHECK(s || hit, "hint-fails", "no text of a union with a constant selection although nothing failed, expected %s", want); if (s) { CHECK(!strcmp(s, want), "hint-guess", "text of a union with a constant selection is\n    %s\n  has to be\n    %s", s, want); SUTQV(sim_free(s)); }
            CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "memory is left"); SUTQV(metac_value_delete(p)); sim_probe("hints: union without its structure"); return;
        }
        if (!(((h == HT_COUNT || h == HT_CAST) && x->t->k == M_PTR && x->pv) || (h == HT_USEL && x->t->k == M_UNION))) continue;
        metac_value_t *p = mkval(x->via->e, x->a); uint32_t seq = heap_seq(); obj_snap(o); char *dst = heap_obj_alloc(x->dt->size); memset(dst, 0, x->dt->size);
        if (rng_p(q, 50)) { char *s = SUT(metac_value_string_ex(p, METAC_WMODE_deep, o->w->map)); CHECK(!s, "hint-guess", "a member which depends on a sibling is printed without its structure: %s", s); }
        else { metac_value_t *d = mkval(x->via->e, dst); seq = heap_seq(); metac_value_t *r = SUT(metac_value_copy_ex(p, d, NULL, user_calloc, user_free, o->w->map)); CHECK(!r, "hint-guess", "a member which depends on a sibling is copied without its structure"); CHECK(heap_live(1 << H_SUT | 1 << H_USER, seq, NULL) == 0, "leak", "memory is left"); SUTQV(metac_value_delete(d)); }
        CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "memory is left"); SUTQV(metac_value_delete(p)); heap_obj_free(dst); sim_probe("hints: member without its structure"); return;
    }
}
static void body(sim_task_t *t) {
    for (int i = 0; i < 6; i++) {
        if (!op_on(t, i)) continue;
        rng_t q = rng_make(sim_plan->seed, 0x1000 + (uint64_t)t->id, (uint64_t)i); obj_t *o = rand_obj(W, &q); if (!o) continue;
        o->noone = 1; chg_t c[3]; int n = 0; const char *what = NULL; if (rng_p(&q, 25)) one(o, &q, NULL);
        for (int k = rng_i(&q, 1, 4); k > 0; k--) {
            int z = rng_i(&q, 0, 9);
            if (z < 2 && n) { undo(&c[--n]); what = "the old value"; } else if (n < 3 && change(o, &q, &c[n], &what)) { n++; vinfo_t vi; if (!usable(o, &vi)) { undo(&c[--n]); continue; } } else if (z < 5) alone(o, &q);
            one(o, &q, what);
        }
        vinfo_t vi; if (rng_p(&q, 50) && usable(o, &vi)) op_free(o, &q);
        obj_destroy(o);
    }
}
const prop_t prop_p10 = { .id = "P10", .max_tasks = 1, .variants = 5, .max_ops = 6, .setup = setup, .body = body, .finish = finish, .quick_seeds = 2000, .thorough_seeds = 100000,
    .what = "objects whose counts and selections are changed between copies, texts, comparisons and frees (smaller, zero, negative, more than 2^31, not listed, back to the old value), worlds with hints that name missing or unsuitable siblings and members, members taken out of their structure; with failing allocations and hints; every result is compared with the reference reading of the current data, what can't be resolved has to fail" };
