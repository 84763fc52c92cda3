/* Operations of all kinds for mixed histories. */
#include "mix.h"
#include <stdlib.h>
static mt *some_type(world_t *w, rng_t *q) {
    mt *t = w->st[rng_n(q, (uint64_t)w->nst)]; if (rng_p(q, 30)) return w->tops[rng_n(q, (uint64_t)w->ntops)];
    if (t->nm && rng_p(q, 70)) { mm *m = &t->m[rng_n(q, (uint64_t)t->nm)]; return m->t; }
    return t;
}
void op_cdecl(world_t *w, rng_t *q) {
    mt *t = some_type(w, q); char *want = ref_cdecl(t), *s = NULL;
    for (int tries = 0; tries < 2 && !s; tries++) {
        uint32_t seq = heap_seq(); s = tries ? SUTQ(metac_entry_cdecl(t->e)) : SUT(metac_entry_cdecl(t->e)); sim_trace_s(s);
        CHECK(heap_live(1 << H_SUT, seq, NULL) == (s != NULL), "decl-leak", "memory is left by a declaration");
        if (!s) CHECK(sim_last_hits(), "decl-absent", "no declaration although nothing failed; expected %s", want);
    }
    CHECK(!strcmp(s, want), "decl-wrong", "declaration is\n      %s\n    has to be\n      %s", s, want); SUTQV(sim_free(s)); sim_probe("mixed: declaration");
}
void op_tagstr(rng_t *q) {
    hbuf_t b = {0}; hb_s(&b, ""); int n = rng_i(q, 1, 5), k = (int)rng_n(q, (uint64_t)n); char *want = NULL, *key = NULL;
    for (int i = 0; i < n; i++) { char *v = hprintf("v%llx", (unsigned long long)rng_n(q, 1ull << rng_i(q, 1, 60))); hb_add(&b, "%sk%d:\"%s\"", i ? " " : "", i, v); if (i == k) { want = v; key = hprintf("k%d", i); } }
    metac_entry_tag_t tag = { .p_tagstring = b.p }; char *s = (char *)SUT(metac_entry_tag_string_lookup(&tag, (metac_name_t)key));
    if (!s) { CHECK(sim_last_hits(), "tag-string", "lookup of '%s' in '%s' gives nothing", key, b.p); s = (char *)SUTQ(metac_entry_tag_string_lookup(&tag, (metac_name_t)key)); }
    CHECK(s && !strcmp(s, want), "tag-string", "lookup of '%s' in '%s' gives '%s'", key, b.p, s ? s : "(none)"); SUTQV(sim_free(s)); sim_probe("mixed: tag string");
}
/* typed access to members of the top structure */
void op_leaf(obj_t *o, rng_t *q) {
    mt *t = res(o->t); if (t->k != M_STRUCT || !t->nm) return; metac_value_t *v = mkval(o->e, o->top); uint32_t seq = heap_seq();
    for (int i = 0; i < 4; i++) {
        int id = (int)rng_n(q, (uint64_t)t->nm); mm *m = &t->m[id]; mt *mt_ = res(m->t); metac_value_t *x = SUT(metac_new_value_by_member_id(v, id)); if (!x) { CHECK(sim_last_hits(), "access-fails", "no member although nothing failed"); continue; }
        if (is_intlike(m->t)) {
            int64_t w = rd_int(m->t, o->top + m->off, m->bitoff, m->bits); metac_num_t g = 0; int rc = SUT(metac_value_num(x, &g));
            if (w >= INT32_MIN && w <= INT32_MAX && !((mt_->base == 7 || mt_->base == 9) && w < 0)) CHECK(rc == 0 && g == w, "access-read", "number %lld is read as %d (result %d)", (long long)w, g, rc);
        }
        vinfo_t vi = { .shallow = 1 };
        if (mt_->k == M_BASE || mt_->k == M_ENUM) {
            int absent = 0; vn n = { .t = mt_, .dt = m->t, .a = o->top + m->off, .bitoff = m->bitoff, .bits = m->bits, .via = m }; char *want = ref_text(&n, 0, 0, &absent); char *s = SUT(metac_value_string(x)); (void)vi;
            if (!s) CHECK(sim_last_hits() || absent, "text-absent", "no text although nothing failed; expected %s", want); else { CHECK(!strcmp(s, want), "text-wrong", "text is %s, has to be %s", s, want); SUTQV(sim_free(s)); }
        }
        SUTV(metac_value_delete(x)); sim_probe("mixed: member");
    }
    CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "access-leak", "memory is left by typed access"); SUTQV(metac_value_delete(v));
}
void mix_op(world_t *w, rng_t *q) {
    int k = rng_i(q, 0, 99);
    if (k < 10) { op_cdecl(w, q); return; }
    if (k < 17) { op_tagstr(q); return; }
    obj_t *o = rand_obj(w, q); if (!o) return;
    if (k < 40) op_text(o, q); else if (k < 60) op_copy(o, q, 1); else if (k < 78) op_equal(o, q); else if (k < 88) op_free(o, q); else op_leaf(o, q);
    obj_destroy(o);
}
