/* Deep operations with oracles: copy, free, compare, text. */
#include "deep.h"
#include <stdlib.h>
#include "metac/backend/value.h"

void rand_cfg(rng_t *r, wcfg_t *c, int cb) {
    memset(c, 0, sizeof *c);
    c->hints = rng_p(r, 88); c->uptr = rng_p(r, 15); c->unhandled = rng_p(r, 15); c->consts = rng_p(r, 8); c->faults_cb = cb; c->zfinal = rng_p(r, 30); c->mapkind = rng_i(r, 0, 2);
    c->max_structs = rng_i(r, 1, 5); c->max_members = rng_i(r, 2, 8);
}
obj_t *rand_obj(world_t *w, rng_t *q) {
    for (int i = 0; i < 4; i++) { uint64_t s = rng_u64(q); int top = (int)rng_n(q, (uint64_t)w->ntops); obj_t *o = obj_make(w, s, top); if (o) return o; }
    return NULL;
}
metac_value_t *mkval(metac_entry_t *e, void *a) { metac_value_t *v = SUTQ(metac_new_value(e, a)); CHECK(v != NULL, "value", "a value can't be created with memory available"); return v; }
dmode_t rand_mode(rng_t *q, obj_t *o, int allow_tree) {
    dmode_t d; memset(&d, 0, sizeof d); world_t *w = o->w;
    if (allow_tree && rng_p(q, 30)) d.m.memory_block_mode = METAC_MMODE_tree;
    if (w->has_uptr || rng_p(q, 15)) d.m.unknown_ptr_mode = (metac_value_memory_map_uptr_mode_t)rng_n(q, 4);
    if (o->noone && d.m.unknown_ptr_mode == METAC_UPTR_as_one_byte_ptr) d.m.unknown_ptr_mode = METAC_UPTR_as_values;
    if (w->has_unh || rng_p(q, 15)) { d.m.union_mode = (metac_value_memory_map_union_mode_t)rng_n(q, 3); d.m.flex_array_mode = (metac_value_memory_map_flex_array_mode_t)rng_n(q, 2); }
    if (!d.m.memory_block_mode && !d.m.unknown_ptr_mode && !d.m.union_mode && !d.m.flex_array_mode) d.null_mode = rng_p(q, 60);
    return d;
}
int must_fail(obj_t *o, vinfo_t *vi, metac_value_memory_map_mode_t *m) {
    return vi->bad || (vi->opaque && m->unknown_ptr_mode == METAC_UPTR_fail) || (vi->unk && m->union_mode == METAC_UNION_fail) || (vi->flexunk && m->flex_array_mode == METAC_FLXARR_fail);
}
static const char *path(vn *v) {
    if (!v) return "?"; int n = 0; for (vn *x = v; x; x = x->up) n++;
    vn **s = halloc(sizeof *s * (size_t)n); int i = n; for (vn *x = v; x; x = x->up) s[--i] = x;
    hbuf_t b = {0}; hb_s(&b, "top"); if (n > 60) hb_add(&b, "..(%d levels)..", n - 60);
    for (i = n > 60 ? n - 60 : 1; i < n; i++) {
        if (s[i]->via) hb_add(&b, ".%s", s[i]->via->name ? s[i]->via->name : "<>");
        else if (s[i]->up->t->k == M_PTR) hb_s(&b, "->");
        else hb_add(&b, "[%d]", s[i]->t->size ? (int)((s[i]->a - s[i]->up->a) / (long)s[i]->t->size) : 0);
    }
    return b.p;
}
/* ---------- copy ---------- */
typedef struct { char *sb; hblk_t *h; } pair_t;
typedef struct { metac_value_memory_map_mode_t *m; pair_t *p; int np; uint32_t seq; int origin; vn **k; char **d; int n, cap; char **used; int nused; int tree; char *stop, *dtop; size_t topsize; } cc;
static char *cc_dst(cc *c, vn *v) { for (int i = c->n - 1; i >= 0; i--) if (c->k[i] == v) return c->d[i]; return NULL; }
static int same_leaf(mt *t, const char *a, const char *b, int bitoff, int bits) {
    t = res(t);
    if (is_intlike(t)) return rd_int(t, a, bitoff, bits) == rd_int(t, b, bitoff, bits);
    if (t->base == 13) return !memcmp(a, b, 10);
    if (t->base == 16) return !memcmp(a, b, 10) && !memcmp(a + 16, b + 16, 10);
    return !memcmp(a, b, t->size);
}
int leaf_eq(vn *x, vn *y) { return same_leaf(x->t, x->a, y->a, x->bitoff, x->bits); }
static char *map_ptr(cc *c, vn *s, char *sp, char *dp, size_t ext) { /* source target start -> destination target start */
    if (!c->tree && sp >= c->stop && sp < c->stop + c->topsize) { CHECK(dp == c->dtop + (sp - c->stop), "copy-shape", "%s leads to offset %ld of the object itself in the source, in the copy it doesn't", path(s), (long)(sp - c->stop)); return dp; }
    hblk_t *h = heap_find(dp);
    CHECK(h && h->live, "copy-pointer", "%s of the copy leads to no live memory", path(s));
    CHECK(h->origin == c->origin && h->seq >= c->seq, "copy-pointer", "%s of the copy leads to memory which wasn't newly obtained for it", path(s));
    CHECK(dp + ext <= h->addr + h->size, "copy-size", "%s of the copy leads to a block which is too small: %zu bytes needed at offset %ld of %zu", path(s), ext, (long)(dp - h->addr), h->size);
    if (c->tree) {
        CHECK(dp == h->addr, "copy-pointer", "%s of the copy doesn't lead to the start of a block", path(s));
        for (int i = 0; i < c->nused; i++) CHECK(c->used[i] != h->addr, "copy-pointer", "%s of the copy shares a block with another pointer although every pointer has its own block in tree mode", path(s));
        c->used[c->nused++] = h->addr;
    } else {
        hblk_t *sb = heap_find(sp); int known = 0;
        for (int i = 0; i < c->np; i++) {
            if (c->p[i].sb == sb->addr) { CHECK(c->p[i].h == h, "copy-shape", "%s: pointers which met in the source lead to different blocks in the copy", path(s)); known = 1; }
            else CHECK(c->p[i].h != h, "copy-shape", "%s: pointers to different blocks in the source lead to one block in the copy", path(s));
        }
        if (!known) { c->p[c->np].sb = sb->addr; c->p[c->np++].h = h; }
        CHECK(sp - sb->addr == dp - h->addr, "copy-shape", "%s leads to offset %ld of the block in the source and to %ld in the copy", path(s), (long)(sp - sb->addr), (long)(dp - h->addr));
    }
    return dp;
}
static void cmp_copy(cc *c, vn *s, char *d) {
    c->k[c->n] = s; c->d[c->n++] = d;
    switch (s->t->k) {
    case M_BASE: case M_ENUM:
        CHECK(same_leaf(s->t, s->a, d, s->bitoff, s->bits), "copy-data", "%s differs in the copy", path(s)); break;
    case M_UNION:
        if (s->st == V_UNK) { if (c->m->union_mode == METAC_UNION_as_mem) CHECK(!memcmp(s->a, d, s->t->size), "copy-data", "union %s copied as memory differs", path(s)); break; }
        /* fallthrough */
    case M_STRUCT: case M_ARR: case M_FLEX:
        for (int i = 0; i < s->nch; i++) cmp_copy(c, s->ch[i], d + (s->ch[i]->a - s->a));
        break;
    case M_PTR: {
        char *dp; memcpy(&dp, d, 8);
        switch (s->st) {
        case V_NULL: CHECK(dp == NULL, "copy-data", "%s is NULL in the source and %p in the copy", path(s), dp); break;
        case V_OPAQUE:
            if (c->m->unknown_ptr_mode == METAC_UPTR_ignore) CHECK(dp == NULL, "copy-data", "ignored pointer %s isn't NULL in the copy", path(s));
            else if (c->m->unknown_ptr_mode == METAC_UPTR_as_values) CHECK(dp == s->pv, "copy-data", "pointer %s isn't copied as a value", path(s));
            else { CHECK(dp != NULL, "copy-data", "pointer %s is NULL in the copy", path(s)); map_ptr(c, s, s->pv, dp, 1); CHECK(*dp == *s->pv, "copy-data", "the byte behind %s differs", path(s)); }
            break;
        case V_LOOP:
            CHECK(dp != NULL, "copy-data", "%s is NULL in the copy only", path(s));
            if (c->tree) { char *an = cc_dst(c, s->loop), *ap; memcpy(&ap, an, 8); CHECK(dp == ap, "copy-shape", "%s closes a cycle in the source, in the copy it leads elsewhere", path(s)); }
            else map_ptr(c, s, s->pv, dp, 0);
            break;
        default: {
            CHECK(dp != NULL, "copy-data", "%s is NULL in the copy only", path(s));
            char *st = s->ch[0]->a, *dt = dp - (s->pv - st); map_ptr(c, s, st, dt, s->ch[0]->ext);
            for (int i = 0; i < s->ch[0]->nch; i++) cmp_copy(c, s->ch[0]->ch[i], dt + (s->ch[0]->ch[i]->a - st));
            break; }
        }
        break; }
    default: break;
    }
}

int op_copy(obj_t *o, rng_t *q, int allow_tree) {
    vinfo_t vi = {0}; vn *v = obj_view(o, &vi); dmode_t dm = rand_mode(q, o, allow_tree); int dflt = rng_p(q, 12);
    int mf = must_fail(o, &vi, &dm.m), may = vi.consts > 0;
    metac_value_t *ps = mkval(o->e, o->top);
    metac_entry_t *de = rng_p(q, 50) ? o->e : o->t->e; char *dst = heap_obj_alloc(o->topsize); for (size_t i = 0; i < o->topsize; i++) dst[i] = (char)rng_u64(q);
    metac_value_t *pd = mkval(de, dst);
    obj_snap(o); cc c; memset(&c, 0, sizeof c); c.m = &dm.m; c.stop = o->top; c.dtop = dst; c.topsize = o->topsize; c.tree = dm.m.memory_block_mode == METAC_MMODE_tree; c.origin = dflt ? H_SUT : H_USER;
    metac_value_t *r = NULL; int tries = 0;
    for (; tries < 2; tries++) {
        c.seq = heap_seq();
        if (tries == 0) r = SUT(metac_value_copy_ex(ps, pd, dm.null_mode ? NULL : &dm.m, dflt ? NULL : user_calloc, dflt ? NULL : user_free, o->w->map));
        else r = SUTQ(metac_value_copy_ex(ps, pd, dm.null_mode ? NULL : &dm.m, dflt ? NULL : user_calloc, dflt ? NULL : user_free, o->w->map));
        sim_trace_u(r != NULL);
        CHECK(!obj_changed(o), "copy-source", "the source is changed by a copy which %s", r ? "succeeded" : "failed");
        CHECK(r == NULL || r == pd, "copy-result", "copy returns something else than the destination");
        if (r) break;
        CHECK(mf || may || sim_last_hits(), "copy-fails", "copy fails although nothing failed (mode %d %d %d %d, %d loops)", dm.m.memory_block_mode, dm.m.unknown_ptr_mode, dm.m.union_mode, dm.m.flex_array_mode, vi.loops);
        hblk_t *f = NULL; int n = heap_live(1 << H_USER, c.seq, &f);
        CHECK(n == 0, "copy-leak", "%d blocks of the caller's allocator are left after a failed copy, first of %zu bytes", n, f ? f->size : 0);
        n = heap_live(1 << H_SUT, c.seq, &f); CHECK(n == 0, "copy-leak", "%d library blocks are left after a failed copy, first of %zu bytes", n, f ? f->size : 0);
        if (tries == 0) sim_probe(sim_last_hits() ? "copy failed by a fault" : "copy refused");
        if (mf || may) break;
    }
    if (r) {
        CHECK(!mf, "copy-guess", "copy succeeds although the object can't be known completely (bad hints %d, unknown pointers %d, unions %d, arrays %d)", vi.bad, vi.opaque, vi.unk, vi.flexunk);
        int cap = vi.n + 8; c.p = halloc(sizeof *c.p * (size_t)cap); c.k = halloc(sizeof *c.k * (size_t)cap * 2); c.d = halloc(sizeof *c.d * (size_t)cap * 2); c.used = halloc(sizeof *c.used * (size_t)cap);
        cmp_copy(&c, v, dst);
        hblk_t *f = NULL; int n = heap_live(1 << H_USER | 1 << H_SUT, c.seq, &f), want = c.tree ? c.nused : c.np;
        CHECK(n == want, "copy-leak", "%d blocks are alive after the copy which needs %d", n, want);
        sim_probe(c.tree ? "copied as a tree" : "copied"); if (vi.loops) sim_probe("copied with cycles"); if (o->shared) sim_probe("copied with sharing");
        if (tries) sim_probe("copy repeated after a failure");
        /* give it back */
        for (uint32_t s = c.seq; s < heap_seq(); s++) { hblk_t *b = heap_block(s); if (b && b->live && b->task == sim_cur->id && (b->origin == H_USER || b->origin == H_SUT)) { if (dflt) SUTQV(sim_free(b->addr)); else user_free(b->addr); } }
    }
    SUTQV(metac_value_delete(ps)); SUTQV(metac_value_delete(pd)); heap_obj_free(dst);
    return r != NULL;
}
/* ---------- free ---------- */
int op_free(obj_t *o, rng_t *q) {
    vinfo_t vi = {0}; vn *v = obj_view(o, &vi); dmode_t dm = rand_mode(q, o, 0); int mf = must_fail(o, &vi, &dm.m);
    metac_value_memory_map_non_handled_mode_t nm = { dm.m.unknown_ptr_mode, dm.m.union_mode, dm.m.flex_array_mode };
    metac_value_t *p = mkval(o->e, o->top); obj_snap(o); int r = 0;
    char *want = halloc((size_t)o->nb + 1); vn **st = halloc(sizeof *st * (size_t)(vi.n * 2 + 8)); int sp = 0; st[sp++] = v;
    while (sp) {
        vn *x = st[--sp]; char *a = NULL; for (int i = 0; i < x->nch; i++) st[sp++] = x->ch[i];
        if (x->t->k == M_PTR && x->st == V_TGT) a = x->ch[0]->a;
        if (x->t->k == M_PTR && x->st == V_OPAQUE && dm.m.unknown_ptr_mode == METAC_UPTR_as_one_byte_ptr) a = x->pv;
        if (a) { hblk_t *h = heap_find(a); for (int i = 1; i < o->nb; i++) if (o->b[i].a == h->addr) want[i] = 1; } /* the top-level memory stays */
    }
    for (int tries = 0; tries < 2; tries++) {
        uint32_t seq = heap_seq();
        if (tries == 0) r = SUT(metac_value_free_ex(p, dm.null_mode ? NULL : &nm, user_free, o->w->map)); else r = SUTQ(metac_value_free_ex(p, dm.null_mode ? NULL : &nm, user_free, o->w->map));
        hblk_t *f = NULL; int n = heap_live(1 << H_SUT, seq, &f); CHECK(n == 0, "free-leak", "%d library blocks are left after a deep free which %s", n, r ? "succeeded" : "failed");
        sim_trace_u((uint64_t)r);
        if (r) break;
        CHECK(mf || sim_last_hits(), "free-fails", "deep free fails although nothing failed");
        CHECK(!obj_changed(o), "free-partial", "a failed deep free released or changed something");
        sim_probe(mf ? "free refused" : "free failed by a fault");
        if (mf) break;
    }
    if (r) {
        CHECK(!mf, "free-guess", "deep free succeeds although the object can't be known completely");
        for (int i = 0; i < o->nb; i++) {
            int live = heap_owned(o->b[i].a, H_OBJ);
            if (want[i]) CHECK(!live, "free-missed", "block %d of %zu bytes isn't released by a successful deep free", i, o->b[i].n);
            else { CHECK(live, "free-extra", "block %d of %zu bytes is released although it isn't owned", i, o->b[i].n); }
        }
        sim_probe("freed"); if (vi.loops) sim_probe("freed with cycles"); if (o->shared) sim_probe("freed with sharing");
    }
    SUTQV(metac_value_delete(p));
    return r;
}
/* ---------- compare ---------- */
typedef struct { vn **v; int n, cap; } vlist;
static void collect(vn *v, vlist *l) {
    if (l->n == l->cap) { int c = l->cap * 2 + 64; vn **p = halloc(sizeof *p * (size_t)c); if (l->n) memcpy(p, l->v, sizeof *p * (size_t)l->n); l->v = p; l->cap = c; }
    l->v[l->n++] = v; for (int i = 0; i < v->nch; i++) collect(v->ch[i], l);
}
static int one_equal(obj_t *a, obj_t *b, metac_value_memory_map_mode_t *m, int want, int mf, const char *what) {
    /* want: 1, 0, or -1: no claim but no error */
    metac_value_t *p = mkval(a->e, a->top), *q = mkval(b->e, b->top); obj_snap(a); if (b != a) obj_snap(b); int r = 0, got = 0;
    for (int tries = 0; tries < 2; tries++) {
        uint32_t seq = heap_seq(); r = tries ? SUTQ(metac_value_equal_ex(p, q, m, a->w->map)) : SUT(metac_value_equal_ex(p, q, m, a->w->map)); sim_trace_u((uint64_t)r);
        CHECK(!obj_changed(a) && !obj_changed(b), "equal-changes", "an object is changed by a comparison");
        CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "equal-leak", "library memory is left after a comparison which returned %d", r);
        if (r < 0) { CHECK(mf || sim_last_hits(), "equal-fails", "comparison (%s) returns %d although nothing failed", what, r); sim_probe("compare failed"); if (mf) break; continue; }
        CHECK(!mf, "equal-guess", "comparison answers %d although the object can't be known completely", r);
        CHECK(r == 0 || r == 1, "equal-result", "comparison returns %d", r);
        if (want >= 0) CHECK(r == want, "equal-verdict", "comparison answers %d, %s%s", r, what, sim_last_hits() ? " (an allocation or hint failed meanwhile)" : "");
        got = 1; break;
    }
    SUTQV(metac_value_delete(p)); SUTQV(metac_value_delete(q));
    (void)got; return r;
}
int op_equal(obj_t *o, rng_t *q) {
    dmode_t dm = rand_mode(q, o, 1); vinfo_t vi = {0}; vn *v = obj_view(o, &vi); int mf = must_fail(o, &vi, &dm.m); metac_value_memory_map_mode_t *m = dm.null_mode ? NULL : &dm.m;
    int asval = dm.m.unknown_ptr_mode == METAC_UPTR_as_values && vi.opaque; /* opaque pointers of the clone have other values */
    int asmem = dm.m.union_mode == METAC_UNION_as_mem; (void)asmem;
    int r;
    if (rng_p(q, 20)) { r = one_equal(o, o, m, 1, mf, "an object and itself"); sim_probe("self compare"); return r == 1; }
    obj_t *c = obj_make_long(o->w, o->seed, o->topi, o->chainlen); if (!c) return 0;
    vinfo_t vi2 = {0}; vn *v2 = obj_view(c, &vi2); int k = rng_i(q, 0, 9);
    if (k < 3) {
        r = one_equal(o, c, m, asval ? 0 : 1, mf, asval ? "pointers treated as values differ" : "both hold the same"); sim_probe("equal pair");
        if (!mf && rng_p(q, 50)) { one_equal(c, o, m, asval ? 0 : 1, 0, "both hold the same, exchanged"); }
    } else {
        /* pick a slot of the clone and change it */
        vlist l = {0}; collect(v2, &l); vn *x = NULL; const char *what = "?"; int done = 0;
        for (int t = 0; t < 40 && !done; t++) {
            x = l.v[rng_n(q, (uint64_t)l.n)];
            if (k < 5 && rng_p(q, 85) && x->t->k != M_PTR) continue;
            if (k == 9 && rng_p(q, 95) && !(x->via && x->via->role != R_PLAIN)) continue;
            if (x->via && x->via->role != R_PLAIN) { /* counters and selectors: only the number of elements may become smaller */
                if (x->via->role == R_SELECTOR && x->up && x->up->t->k == M_STRUCT) { /* another member of a union becomes selected; only if nothing behind it has to be built */
                    mt *st = x->up->t; int sib = (int)(x->via - st->m), ok = 1, users = 0; int64_t nv = x->via->cs[rng_n(q, (uint64_t)x->via->ncs)].v, ov = rd_int(x->t, x->a, x->bitoff, x->bits);
                    if (nv == ov) continue;
                    for (int z = 0; z < st->nm && ok; z++) {
                        mm *m = &st->m[z]; if (m->h == HT_CAST && (m->sib == sib || m->sib2 == sib)) ok = 0;
                        if (m->h != HT_USEL || m->sib != sib) continue;
                        int id = -1; for (int c = 0; c < m->ncs; c++) if (m->cs[c].v == nv) { id = m->cs[c].id; break; }
                        users++; mt *ut = id < 0 ? NULL : res(res(m->t)->m[id].t); if (!ut || (ut->k != M_BASE && ut->k != M_ENUM) || (ut->k == M_BASE && !is_intlike(ut))) ok = 0;
                    }
                    if (!ok || !users) continue;
                    wr_int(x->t, x->a, x->bitoff, x->bits, nv); done = 1; what = "another union member is selected"; sim_probe("different selection"); break;
                }
                if (x->via->role != R_COUNTER) continue;
                int64_t n = rd_int(x->t, x->a, x->bitoff, x->bits); if (n < 1) continue;
                wr_int(x->t, x->a, x->bitoff, x->bits, n - 1); done = 1; what = "an element count differs"; break;
            }
            switch (x->t->k) {
            case M_BASE:
                if (is_intlike(x->t)) {
                    int n = x->bits ? x->bits : (int)x->t->size * 8; if (x->t->base == 10) n = 1; int b = x->bitoff + (int)rng_n(q, (uint64_t)n); int str = 0;
                    for (vn *u = x->up; u; u = u->up) { if (u->t->k == M_FLEX && u->via && u->via->h == HT_ZSTR) { str = 1; break; } if (u->t->k == M_PTR && ((u->via && u->via->h == HT_ZSTR) || (!u->up && o->w->toph[o->topi] == HT_ZSTR))) str = 1; if (u->t->k == M_PTR) break; }
                    if (str && ((x->a[0] ^ (1 << b)) == 0 || x->a[0] == 0)) continue; /* keeps the terminator where it is */
                    x->a[b / 8] ^= (char)(1 << (b % 8)); what = "a number differs in one bit"; done = 1;
                } else {
                    int parts = x->t->base >= 14 ? 2 : 1; size_t sz = x->t->size / (size_t)parts; char *a = x->a + sz * rng_n(q, (uint64_t)parts);
                    if (sz == 4) { float f; memcpy(&f, a, 4); volatile float g = f + 1; if (g == f) g = 0; f = g; memcpy(a, &f, 4); } else if (sz == 8) { double d; memcpy(&d, a, 8); volatile double g = d + 1; if (g == d) g = 0; d = g; memcpy(a, &d, 8); } else { long double d; memcpy(&d, a, 16); volatile long double g = d + 1; if (g == d) g = 0; d = g; memcpy(a, &d, 10); }
                    what = "a floating point number differs"; done = 1;
                }
                break;
            case M_ENUM: { int n = x->bits ? x->bits : (int)x->t->size * 8; int b = x->bitoff + (int)rng_n(q, (uint64_t)n); x->a[b / 8] ^= (char)(1 << (b % 8)); what = "an enum differs in one bit"; done = 1; break; }
            case M_PTR:
                if (x->st == V_TGT || x->st == V_LOOP) { memset(x->a, 0, 8); what = x->st == V_LOOP ? "a pointer which closes a cycle is NULL in one" : "a pointer is NULL in one"; done = 1; }
                else if (x->st == V_OPAQUE && dm.m.unknown_ptr_mode == METAC_UPTR_as_one_byte_ptr) { x->pv[0] ^= 4; what = "the byte behind an unknown pointer differs"; done = 1; }
                break;
            case M_UNION:
                if (x->st == V_UNK && asmem) { x->a[rng_n(q, x->t->size)] ^= 1; what = "a byte of a union compared as memory differs"; done = 1; }
                break;
            default: break;
            }
        }
        if (!done) { obj_destroy(c); return 0; }
        what = hprintf("%s at %s", what, path(x));
        vinfo_t vi3 = {0}; vi3.max = view_max * 3; vn *v3 = obj_view(c, &vi3); int want = 0, mf3 = v3 ? must_fail(c, &vi3, &dm.m) : 1;
        if (!v3 || vi3.overflow) { obj_destroy(c); return 0; }
        if (mf3 && !mf) { /* the change made it unknowable */ mf = 1; }
        sim_probe("different pair");
        if (rng_p(q, 50)) r = one_equal(o, c, m, want, mf, what); else r = one_equal(c, o, m, want, mf, what);
        if (r >= 0 && rng_p(q, 40)) one_equal(c, o, m, want, mf, what);
    }
    obj_destroy(c); (void)v;
    return 1;
}
/* ---------- text ---------- */
int op_text(obj_t *o, rng_t *q) {
    int deep = rng_p(q, 75); vinfo_t vi = {0}; vn *v; metac_tag_map_t *map = o->w->map; int with = map != NULL; int absent = 0;
    if (!deep && rng_p(q, 50)) map = NULL, with = 0;
    vi.shallow = !deep; v = view(o->w, o->t, o->e, o->w->toph[o->topi], o->top, with, &vi);
    if (!with && o->w->cfg.hints) { /* shallow without hints */ }
    char *want = ref_text(v, deep, with, &absent); if (vi.bad) absent = 1;
    if (deep && o->oddloop) return 0;
    metac_value_t *p = mkval(o->e, o->top); obj_snap(o); char *s = NULL;
    for (int tries = 0; tries < 2; tries++) {
        uint32_t seq = heap_seq();
        s = tries ? SUTQ(metac_value_string_ex(p, deep ? METAC_WMODE_deep : METAC_WMODE_shallow, map)) : SUT(metac_value_string_ex(p, deep ? METAC_WMODE_deep : METAC_WMODE_shallow, map)); sim_trace_s(s);
        CHECK(!obj_changed(o), "text-changes", "the object is changed by printing");
        hblk_t *f = NULL; int n = heap_live(1 << H_SUT, seq, &f);
        CHECK(n == (s != NULL), "text-leak", "%d library blocks are left after printing which gave %s, first of %zu bytes", n, s ? "a text" : "no text", f ? f->size : 0);
        if (s) break;
        CHECK(absent || sim_last_hits(), "text-absent", "no text although nothing failed; expected %s", want);
        sim_probe(absent ? "no text, as expected" : "text failed by a fault");
        if (absent) break;
    }
    if (s) {
        CHECK(!absent, "text-guess", "text is given although there can be none: %s", s);
        size_t df = 0; while (s[df] && s[df] == want[df]) df++; df = df > 150 ? df - 100 : 0; /* long texts: what is around the first difference */
        CHECK(!strcmp(s, want), "text-wrong", "text is\n      %.200s\n    has to be\n      %.200s%s", s + df, want + df, sim_last_hits() ? " (an allocation or hint failed)" : "");
        SUTQV(sim_free(s)); sim_probe(deep ? "deep text" : "shallow text");
    }
    SUTQV(metac_value_delete(p));
    return s != NULL;
}

/* ---------- objects with a function pointer which is set ---------- */
/* Whether the library can work with such an object isn't claimed. If it refuses, it has to refuse cleanly; if it doesn't, the pointer has to be treated as a value. */
static int some_fn(int x) { return x + 1; }
static int other_fn(int x) { return x + 2; }
typedef struct { int *a; int (*fn)(int); int *b; } cbo;
static cbo *cb_make(int x, int y, int (*fn)(int)) { cbo *o = heap_obj_alloc(sizeof *o); o->a = heap_obj_alloc(sizeof(int)); *o->a = x; o->b = heap_obj_alloc(sizeof(int)); *o->b = y; o->fn = fn; return o; }
static int cb_same(cbo *o, cbo *w) { return !memcmp(o, w, sizeof *o) && heap_owned(o->a, H_OBJ) && heap_owned(o->b, H_OBJ); }
void op_callback(world_t *w, rng_t *q, int which) {
    int x = (int)rng_u64(q), y = (int)rng_u64(q); cbo *o = cb_make(x, y, some_fn), was = *o; metac_value_t *v = mkval(w->cbs, o); int um = (int)rng_n(q, 4); uint32_t seq = heap_seq();
    metac_value_memory_map_mode_t m = { .unknown_ptr_mode = (metac_value_memory_map_uptr_mode_t)um };
    if (um == METAC_UPTR_as_one_byte_ptr) m.unknown_ptr_mode = METAC_UPTR_as_values; /* not memory the allocator knows */
    if (which == 0) {
        cbo *d = heap_obj_alloc(sizeof *d); memset(d, 0x5a, sizeof *d); metac_value_t *pd = mkval(w->cbs, d); seq = heap_seq();
        metac_value_t *r = SUT(metac_value_copy_ex(v, pd, &m, user_calloc, user_free, w->map)); sim_trace_u(r != NULL);
        CHECK(cb_same(o, &was) && *o->a == x && *o->b == y, "copy-source", "the source with a callback is changed by a copy");
        int n = heap_live(1 << H_USER, seq, NULL), l = heap_live(1 << H_SUT, seq, NULL); CHECK(l == 0, "copy-leak", "%d library blocks are left after the copy of an object with a callback", l);
        if (!r) CHECK(n == 0, "copy-leak", "%d blocks of the caller's allocator are left after a refused copy", n);
        else { int null = d->fn == NULL && m.unknown_ptr_mode == METAC_UPTR_ignore; CHECK((null || d->fn == some_fn) && d->a != o->a && d->b != o->b && *d->a == x && *d->b == y, "copy-data", "the copy of an object with a callback differs"); user_free(d->a); if (d->b != d->a) user_free(d->b); }
        SUTQV(metac_value_delete(pd)); heap_obj_free(d); sim_probe(r ? "callback copied" : "callback: copy refused");
    } else if (which == 1) {
        metac_value_memory_map_non_handled_mode_t nm = { m.unknown_ptr_mode, 0, 0 };
        int r = SUT(metac_value_free_ex(v, &nm, user_free, w->map)); sim_trace_u((uint64_t)r); int l = heap_live(1 << H_SUT, seq, NULL); CHECK(l == 0, "free-leak", "%d library blocks are left after the deep free of an object with a callback", l);
        if (!r) CHECK(cb_same(o, &was) && *o->a == x && *o->b == y, "free-partial", "a refused deep free of an object with a callback released or changed something");
        else CHECK(!heap_owned(was.a, H_OBJ) && !heap_owned(was.b, H_OBJ) && heap_owned(o, H_OBJ), "free-missed", "a deep free of an object with a callback left something");
        sim_probe(r ? "callback freed" : "callback: free refused");
    } else if (which == 2) {
        int same = rng_p(q, 50), fnsame = rng_p(q, 60); cbo *p = cb_make(x, same ? y : y ^ 1 << rng_i(q, 0, 30), fnsame ? some_fn : other_fn), pw = *p; metac_value_t *pv = mkval(w->cbs, p); seq = heap_seq();
        int r = SUT(metac_value_equal_ex(v, pv, &m, w->map)); sim_trace_u((uint64_t)r); CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "equal-leak", "library memory is left after a comparison of objects with callbacks");
        CHECK(cb_same(o, &was) && cb_same(p, &pw), "equal-changes", "an object with a callback is changed by a comparison");
        if (r >= 0) { if (!same) CHECK(r == 0, "equal-verdict", "objects with callbacks differ in a number and are equal"); else if (fnsame) CHECK(r == 1, "equal-verdict", "objects with callbacks hold the same and aren't equal"); }
        SUTQV(metac_value_delete(pv)); heap_obj_free(p->a); heap_obj_free(p->b); heap_obj_free(p); sim_probe(r >= 0 ? "callbacks compared" : "callbacks: comparison refused");
    } else {
        char *s = rng_p(q, 50) ? SUT(metac_value_string(v)) : SUT(metac_value_string_ex(v, METAC_WMODE_deep, w->map)); sim_trace_u(s != NULL); CHECK(heap_live(1 << H_SUT, seq, NULL) == (s != NULL), "text-leak", "memory is left by the text of an object with a callback");
        CHECK(cb_same(o, &was) && *o->a == x && *o->b == y, "text-changes", "an object with a callback is changed by its text");
        if (s) SUTQV(sim_free(s)); sim_probe(s ? "callback: text" : "callback: no text");
    }
    SUTQV(metac_value_delete(v)); if (heap_owned(was.a, H_OBJ)) heap_obj_free(was.a); if (heap_owned(was.b, H_OBJ)) heap_obj_free(was.b); heap_obj_free(o);
}
