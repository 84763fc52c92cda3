/* P09: tag maps. */
#include "deep.h"
#include <stdlib.h>
#include <errno.h>
#define NE 40
#define NM 4
static world_t *W;
static struct { metac_entry_t *e, *fin; int kind; } E[NE]; static int ne;
typedef struct { int destroyed, accepted; } ctx_t;
static void ctx_free(void *p) { ((ctx_t *)p)->destroyed++; }
static int h1(metac_value_walker_hierarchy_t *h, metac_value_event_t *e, void *c) { return 0; }
static int h2(metac_value_walker_hierarchy_t *h, metac_value_event_t *e, void *c) { return -1; }
typedef struct { int used; metac_entry_tag_t t; char *str; ctx_t *c; int frees; } mtag_t;
typedef struct { int mask; int link; mtag_t own[2 * NE]; } mlev_t; /* own: [0, NE) entries, [NE, 2NE) final types by the index of a representative entry */
typedef struct { int alive; metac_tag_map_t *p; int nl; mlev_t l[4]; mtag_t dflt; } mmap_t;
static int fin_idx(int i) { for (int k = 0; k < ne; k++) if (E[k].fin == E[i].fin && E[k].fin) return NE + k; return -1; }
static int ent_idx(int i) { /* a final type used as an entry of its own has the same key */ for (int k = 0; k < ne; k++) if (E[k].fin == E[i].e) return NE + k; return i; }
static metac_entry_t *mac_st, *mac_mem[2], *mac_fn;
static void setup(rng_t *r) {
    wcfg_t c; rand_cfg(r, &c, 0); c.hints = 0; W = world_make(r, &c); ne = 0;
    mt *pool[5]; for (int i = 0; i < 5; i++) pool[i] = rng_p(&W->r, 40) ? t_base((int)rng_n(&W->r, 10)) : rng_p(&W->r, 50) ? t_ptr(W, t_base(0)) : W->st[rng_n(&W->r, (uint64_t)W->nst)];
    while (ne < NE) {
        mt *t = pool[rng_n(&W->r, 5)]; metac_entry_t *fin = t->e; int k = rng_i(&W->r, 0, 4);
        if (rng_p(&W->r, 30)) t = t_wrap(W, rng_p(&W->r, 50) ? 't' : 'c', t, "Tx");
        if (rng_p(&W->r, 15)) t = t_wrap(W, 't', t, "Ty");
        metac_entry_t *e = t->e;
        if (k < 3) {
            e = ent_new(W, 1); e->name = "x";
            if (k == 0) { e->kind = METAC_KND_variable; e->variable_info.type = t->e; } else if (k == 1) { e->kind = METAC_KND_member; e->member_info.type = t->e; } else { e->kind = METAC_KND_func_parameter; e->func_parameter_info.type = t->e;
                if (rng_p(&W->r, 20)) { e->func_parameter_info.unspecified_parameters = 1; e->func_parameter_info.type = NULL; fin = e; } }
            E[ne].kind = k == 0 ? METAC_TEC_variable : k == 1 ? METAC_TEC_member : METAC_TEC_func_parameter;
        } else if (k == 3 && rng_p(&W->r, 70)) continue; else E[ne].kind = -1;
        E[ne].e = e; E[ne].fin = fin; ne++;
    }
    mac_st = ent_new(W, 1); metac_entry_t *me = ent_new(W, 2); mac_st->kind = METAC_KND_struct_type; mac_st->name = "mac"; mac_st->structure_type_info.byte_size = 16; mac_st->structure_type_info.members_count = 2; mac_st->structure_type_info.members = me;
    for (int i = 0; i < 2; i++) { me[i].kind = METAC_KND_member; me[i].name = i ? "second" : "first"; me[i].member_info.type = &bt_long; me[i].member_info.byte_offset = (metac_offset_t)(8 * i); mac_mem[i] = &me[i]; }
    mac_fn = ent_new(W, 1); metac_entry_t *pe = ent_new(W, 1); mac_fn->kind = METAC_KND_subprogram; mac_fn->name = "fn"; mac_fn->subprogram_info.parameters_count = 1; mac_fn->subprogram_info.parameters = pe; pe->kind = METAC_KND_func_parameter; pe->name = "arg"; pe->func_parameter_info.type = &bt_long;
}
static char *rand_str(rng_t *q) {
    if (rng_p(q, 30)) return NULL;
    hbuf_t b = {0}; hb_s(&b, ""); int n = rng_i(q, 0, 4); for (int i = 0; i < n; i++) hb_add(&b, "k%d:\"%.*s\" ", rng_i(q, 0, 5), rng_i(q, 0, 8), "abcdefgh"); return b.p;
}
static void rand_tag(rng_t *q, mtag_t *t) {
    memset(t, 0, sizeof *t); t->used = 1; t->str = rand_str(q);
    if (t->str) { char *s = heap_obj_alloc(strlen(t->str) + 1); strcpy(s, t->str); t->t.p_tagstring = s; }
    if (rng_p(q, 60)) t->t.handler = rng_p(q, 50) ? h1 : h2;
    if (rng_p(q, 70)) { t->c = halloc(sizeof *t->c); t->t.p_context = t->c; t->frees = rng_p(q, 80); if (t->frees) t->t.context_free_handler = ctx_free; }
}
static void done_tag(mtag_t *t) { if (t->t.p_tagstring) { memset(t->t.p_tagstring, '!', strlen(t->t.p_tagstring)); heap_obj_free(t->t.p_tagstring); } }
static mtag_t *look(mmap_t *ms, int m, int e) {
    mmap_t *M = &ms[m];
    for (int i = 0; i < M->nl && E[e].kind >= 0; i++) {
        mlev_t *l = &M->l[i]; if (!(l->mask >> E[e].kind & 1)) continue;
        if (l->link >= 0) { mtag_t *t = look(ms, l->link, e); if (t) return t; continue; }
        if (l->own[ent_idx(e)].used) return &l->own[ent_idx(e)];
        if (l->mask >> METAC_TEC_final & 1) { int f = fin_idx(e); if (f >= 0 && l->own[f].used) return &l->own[f]; }
    }
    return M->dflt.used ? &M->dflt : NULL;
}
static int level_has_link(mmap_t *M) { for (int i = 0; i < M->nl; i++) if (M->l[i].link >= 0) return 1; return 0; }
static void expect(mmap_t *ms, int m, int e) {
    mtag_t *w = look(ms, m, e); metac_entry_tag_t *g = SUT(metac_tag_map_tag(ms[m].p, E[e].e));
    CHECK((g != NULL) == (w != NULL), "tag-lookup", "lookup gives %s, there %s", g ? "a tag" : "nothing", w ? "is one" : "is none");
    if (!g) { sim_probe("no tag"); return; }
    CHECK(g->p_context == w->t.p_context && g->handler == w->t.handler, "tag-lookup", "lookup gives another tag than the one set for the entry");
    CHECK((g->p_tagstring != NULL) == (w->str != NULL) && (!g->p_tagstring || !strcmp(g->p_tagstring, w->str)), "tag-string", "tag string of the entry is \"%s\", \"%s\" was set", g->p_tagstring ? g->p_tagstring : "(none)", w->str ? w->str : "(none)");
    sim_probe(w == &ms[m].dflt ? "default tag" : level_has_link(&ms[m]) ? "tag in a map with links" : "tag");
}
static void check_ctx(mtag_t *t, int want, const char *when) { if (t->c) CHECK(t->c->destroyed == (t->frees ? want : 0), "tag-context", "a context is destroyed %d times %s", t->c->destroyed, when); }
static void string_lookup(rng_t *q) {
    int n = rng_i(q, 0, 6); struct { char *k, *v; } kv[6]; hbuf_t b = {0}; hb_s(&b, ""); int bad = rng_p(q, 15);
    for (int i = 0; i < n; i++) {
        hbuf_t k = {0}, v = {0}; hb_s(&k, ""); hb_s(&v, ""); int kl = rng_i(q, 1, 4), vl = rng_p(q, 15) ? 0 : rng_i(q, 1, 12);
        for (int z = 0; z < kl; z++) hb_add(&k, "%c", "abAB_0-.,"[rng_n(q, 9)]);
        for (int z = 0; z < vl; z++) { int c = rng_i(q, 0, 9); if (c < 6) hb_add(&v, "%c", "ab :=,;{}"[rng_n(q, 9)]); else if (c < 8) hb_s(&v, "\\\""); else if (c == 8) hb_s(&v, "\\\\"); else hb_s(&v, "a:\\\"b\\\" "); }
        kv[i].k = k.p; kv[i].v = v.p;
        if (i && (rng_p(q, 80))) hb_s(&b, rng_p(q, 70) ? " " : "   ");
        hb_add(&b, "%s:\"%s\"", k.p, v.p);
    }
    if (rng_p(q, 20)) hb_s(&b, " ");
    if (bad) { static const char *const g[] = { " x", " y:z", " z:\"", ":", "\"", " \\", "a:b:\"c", " q:\"1\\" }; hb_s(&b, g[rng_n(q, 8)]); }
    char *s = heap_obj_alloc(b.n + 1); memcpy(s, b.p, b.n + 1); metac_entry_tag_t tag = { .p_tagstring = s };
    const char *key = n && rng_p(q, 80) ? kv[rng_n(q, (uint64_t)n)].k : "ab"; if (rng_p(q, 10)) key = "zzz"; if (rng_p(q, 10) && n) { char *x = hstrdup(kv[0].k); x[strlen(x) - 1] = 0; if (x[0]) key = x; } if (rng_p(q, 10) && n) key = hprintf("%sa", kv[0].k);
    const char *want = NULL; for (int i = 0; i < n; i++) if (!strcmp(kv[i].k, key)) { want = kv[i].v; break; }
    for (int tries = 0; tries < 2; tries++) {
        uint32_t seq = heap_seq(); char *g = (char *)(tries ? SUTQ(metac_entry_tag_string_lookup(&tag, (metac_name_t)key)) : SUT(metac_entry_tag_string_lookup(&tag, (metac_name_t)key))); sim_trace_s(g);
        CHECK(heap_live(1 << H_SUT, seq, NULL) == (g != NULL), "tag-leak", "memory is left by a lookup in a tag string");
        if (g) {
            CHECK(bad || want, "tag-string", "lookup of '%s' in '%s' gives '%s', there is no such key", key, s, g);
            if (want) CHECK(!strcmp(g, want), "tag-string", "lookup of '%s' in '%s' gives '%s' instead of '%s'", key, s, g, want);
            SUTQV(sim_free(g)); sim_probe("tag string value"); break;
        }
        if (!want) { sim_probe("tag string without the key"); break; }
        CHECK(sim_last_hits(), "tag-string", "lookup of '%s' in '%s' gives nothing instead of '%s'", key, s, want);
    }
    CHECK(!strcmp(s, b.p), "tag-string", "tag string is changed by a lookup"); heap_obj_free(s);
}
/* maps which are built by functions made of the public macros */

METAC_TAG_MAP_NEW(mac_new, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)})
    METAC_TAG_MAP_ENTRY(mac_st)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "first"}), METAC_COUNT_BY(second))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.i = 1}), METAC_TAG_STRING("k:\"v\"") METAC_UNION_MEMBER_SELECT_BY(first, {.fld_val = 1, .union_fld_name = "a"}, {.fld_val = 2, .union_fld_id = 3}))
    METAC_TAG_MAP_ENTRY_END
    METAC_TAG_MAP_ENTRY(mac_fn)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.n = "arg"}), METAC_CAST_PTR(first, second, {.fld_val = 1, .p_ptr_entry = &bt_int}))
    METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_END
METAC_TAG_MAP_APPEND(mac_append)
    METAC_TAG_MAP_ENTRY(mac_st)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 1, METAC_TAG_MAP_ENTRY_MEMBER({.i = 0}), METAC_UNION_MEMBER_PARMANENT_SELECTION(2))
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_final_entry, 1, METAC_TAG_MAP_ENTRY_MEMBER({.i = 0}), METAC_ZERO_ENDED_STRING())
    METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_END
METAC_TAG_MAP_APPEND(mac_append_again)
    METAC_TAG_MAP_ENTRY(mac_st)
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.i = 1}), METAC_COUNT_BY(first)) /* is there already */
    METAC_TAG_MAP_ENTRY_END
METAC_TAG_MAP_END
static void macro_map(rng_t *q) {
    uint32_t seq = heap_seq(); metac_tag_map_t *m = NULL;
    for (int tries = 0; tries < 2 && !m; tries++) {
        m = tries ? SUTQ(mac_new()) : SUT(mac_new());
        if (!m) { CHECK(sim_last_hits(), "tag-map", "a map built by the macros isn't created although nothing failed"); CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "tag-leak", "memory is left by a failed creation of a map by the macros"); sim_probe("macro map failed"); }
    }
    metac_entry_t *p = mac_fn->subprogram_info.parameters; int appended = 0;
    for (int i = 0; i < 3; i++) {
        int k = rng_i(q, 0, 2); metac_tag_map_t *r;
        if (k == 0) { r = SUT(mac_append(m)); if (!r) { CHECK(sim_last_hits(), "tag-map", "append by the macros fails although nothing failed"); sim_probe("macro append failed"); r = SUTQ(mac_append(m)); } CHECK(r == m, "tag-map", "append by the macros gives another map"); appended = 1; }
        if (k == 1) { r = SUT(mac_append_again(m)); CHECK(!r, "tag-set", "a tag replaced another one without permission"); sim_probe("macro append refused"); }
        metac_entry_tag_t *a = SUT(metac_tag_map_tag(m, mac_mem[0])), *b = SUT(metac_tag_map_tag(m, mac_mem[1])), *c = SUT(metac_tag_map_tag(m, p));
        CHECK(a && b && c && a->p_context && b->p_context && c->p_context, "tag-lookup", "a tag set by the macros isn't found or has no context");
        CHECK(a->handler == (appended ? metac_handle_union_member_select : metac_handle_count_by) && b->handler == metac_handle_union_member_select && c->handler == metac_handle_ptr_cast, "tag-lookup", "a tag set by the macros is another one");
        CHECK(b->p_tagstring && !strcmp(b->p_tagstring, "k:\"v\""), "tag-string", "the tag string set by the macros is another one");
    }
    SUTV(metac_tag_map_delete(m)); CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "tag-leak", "memory is left after a map built by the macros is deleted"); sim_probe("macro map");
}
static void kill_map(mmap_t *ms, int m) {
    SUTV(metac_tag_map_delete(ms[m].p)); mmap_t *M = &ms[m]; M->alive = 0;
    for (int i = 0; i < M->nl; i++) for (int k = 0; k < 2 * NE; k++) if (M->l[i].own[k].used) check_ctx(&M->l[i].own[k], 1, "after its map is deleted");
    if (M->dflt.used) check_ctx(&M->dflt, 1, "after its map is deleted");
}
static int linked(mmap_t *ms, int m) { for (int i = 0; i < NM; i++) if (ms[i].alive) for (int k = 0; k < ms[i].nl; k++) if (ms[i].l[k].link == m) return 1; return 0; }
static void body(sim_task_t *t) {
    rng_t r = rng_make(sim_plan->seed, 0x909, (uint64_t)t->id); int nops = rng_i(&r, 10, 50); mmap_t *ms = halloc(sizeof *ms * NM); uint32_t seq0 = heap_seq();
    for (int op = 0; op < nops; op++) {
        rng_t q = rng_make(sim_plan->seed, 0x90900 + (uint64_t)t->id, (uint64_t)op); if (!op_on(t, op)) continue;
        int m = (int)rng_n(&q, NM); mmap_t *M = &ms[m];
        if (!M->alive) {
            memset(M, 0, sizeof *M); metac_tag_map_entry_t me[4]; memset(me, 0, sizeof me); int simple = rng_p(&q, 25); M->nl = simple ? 1 : rng_i(&q, 1, 4);
            for (int i = 0; i < M->nl; i++) {
                mlev_t *l = &M->l[i]; l->link = -1; l->mask = simple ? 7 : (int)rng_n(&q, 16);
                if (!simple && rng_p(&q, 30)) for (int k = 0; k < NM; k++) if (k < m && ms[k].alive && rng_p(&q, 60)) l->link = k; /* links go to maps with a lower number only */
                me[i].mask = (metac_tag_map_entry_category_mask_t)l->mask; me[i].p_ext_map = l->link >= 0 ? ms[l->link].p : NULL;
            }
            if (rng_p(&q, 40)) rand_tag(&q, &M->dflt);
            for (int tries = 0; tries < 2 && !M->p; tries++) {
                uint32_t seq = heap_seq(); metac_entry_tag_t *d = M->dflt.used ? &M->dflt.t : NULL;
                if (tries) M->p = simple ? SUTQ(metac_new_tag_map(d)) : SUTQ(metac_new_tag_map_ex(M->nl, me, d)); else M->p = simple ? SUT(metac_new_tag_map(d)) : SUT(metac_new_tag_map_ex(M->nl, me, d));
                if (M->p) break;
                CHECK(sim_last_hits() && !tries, "tag-map", "no tag map although memory is available"); sim_probe("map creation failed");
                CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "tag-leak", "memory is left by a failed creation of a tag map");
                if (M->dflt.used) check_ctx(&M->dflt, 0, "by a failed creation of a tag map");
            }
            done_tag(&M->dflt); M->alive = 1; continue;
        }
        int k = rng_i(&q, 0, 19);
        if (k == 0 && !linked(ms, m)) { kill_map(ms, m); sim_probe("map deleted"); continue; }
        if (k < 3) { string_lookup(&q); continue; }
        if (k == 3) { macro_map(&q); continue; }
        int reps = rng_i(&q, 1, 10);
        while (reps--) {
            int e = (int)rng_n(&q, NE);
            if (rng_p(&q, 55)) {
                int lev = rng_i(&q, rng_p(&q, 5) ? -1 : 0, M->nl - (rng_p(&q, 5) ? 0 : 1)), fin = rng_p(&q, 35), ov = rng_p(&q, 40); mtag_t tg; rand_tag(&q, &tg);
                int idx = fin ? fin_idx(e) : ent_idx(e); mtag_t *slot = lev >= 0 && lev < M->nl && M->l[lev].link < 0 && idx >= 0 ? &M->l[lev].own[idx] : NULL, old = slot ? *slot : (mtag_t){0};
                int rc = SUT(metac_tag_map_set_tag(M->p, lev, (metac_flag_t)ov, E[e].e, fin ? METAC_TEO_final_entry : METAC_TEO_entry, &tg.t)); sim_trace_u((uint64_t)rc);
                if (!slot) { CHECK(rc < 0, "tag-set", "a tag is accepted where there is no place for it"); sim_probe("set refused: no such level"); }
                else if (old.used && !ov) { CHECK(rc < 0, "tag-set", "a tag replaced another one without permission"); if (!sim_last_hits()) CHECK(rc == -EALREADY, "tag-set", "refusal is %d", rc); sim_probe("set refused: present"); }
                else if (rc != 0) { CHECK(sim_last_hits(), "tag-set", "set returns %d although nothing failed", rc); sim_probe("set failed"); }
                if (rc != 0) { check_ctx(&tg, 0, "although its tag was not accepted"); if (old.used) check_ctx(&old, 0, "by a set which was not accepted"); }
                else { if (old.used) { check_ctx(&old, 1, "after it is overridden"); sim_probe("overridden"); } *slot = tg; check_ctx(slot, 0, "when it is set"); }
                done_tag(&tg);
                if (rng_p(&q, 60)) expect(ms, m, e);
            } else expect(ms, m, e);
        }
        if (rng_p(&q, 25)) for (int i = 0; i < NM; i++) if (ms[i].alive) for (int e = 0; e < ne; e++) expect(ms, i, e);
    }
    for (int again = 1; again;) { again = 0; for (int i = NM - 1; i >= 0; i--) if (ms[i].alive && !linked(ms, i)) { kill_map(ms, i); again = 1; } }
    CHECK(heap_live(1 << H_SUT, seq0, NULL) == 0, "leak", "memory is left after all tag maps are deleted");
    /* nothing dies twice or late */
    for (int m = 0; m < NM; m++) for (int i = 0; i < ms[m].nl; i++) for (int k = 0; k < 2 * NE; k++) if (ms[m].l[i].own[k].used) check_ctx(&ms[m].l[i].own[k], 1, "in the end");
}
static void finish(void) { world_free(W); }
const prop_t prop_p09 = { .id = "P09", .max_tasks = 2, .variants = 5, .max_ops = 50, .setup = setup, .body = body, .finish = finish, .quick_seeds = 2000, .thorough_seeds = 150000,
    .what = "one run = seeded history of creating (levels, links to other maps, defaults), setting, overriding, looking up and deleting up to 4 tag maps over 40 entries, plus tag string lookups; compared with a reference map; contexts are counted when destroyed; allocations fail at seeded points; non-trivial = distinct event trace" };
