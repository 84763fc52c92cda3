/* P20: what is asked about an entry is answered as it was declared. */
#include "deep.h"
#include <stdlib.h>
static world_t *W;
#define NITEM 40
typedef struct { mt *ret; int np; mt **par; const char **nm; int dots, vapos; } fnm_t; /* np: all of the parameters; vapos: index of the va_list or -1 */
enum { I_TYPE, I_VAR, I_MEMB, I_PAR, I_DOTS, I_VALIST, I_SUB };
typedef struct { int w; metac_entry_t *e; mt *t; const char *name; mm *m; fnm_t f; int isfn; metac_entry_t **pa; int npa; int hasp; } item_t;
static item_t IT[NITEM]; static int nit;
/* location databases */
typedef struct { const char *f, *l, *n; metac_entry_t *e; } dbrow_t;
#define MAXROW 64
static struct metac_entry_db DB; static dbrow_t ROW[MAXROW]; static int nrow;
static uint64_t HASH;
static const metac_encoding_t ENC[] = { METAC_ENC_signed_char, METAC_ENC_unsigned_char, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_boolean, METAC_ENC_float, METAC_ENC_float, METAC_ENC_float, METAC_ENC_complex_float, METAC_ENC_complex_float, METAC_ENC_complex_float };
static const char *const NAME[] = { "char", "unsigned char", "short int", "unsigned short int", "int", "unsigned int", "long int", "unsigned long int", "long long int", "unsigned long long int", "_Bool", "float", "double", "long double", "complex float", "complex double", "long complex double" };

static item_t *item(int w, metac_entry_t *e, mt *t, const char *name) { if (nit >= NITEM) return NULL; item_t *i = &IT[nit++]; memset(i, 0, sizeof *i); i->w = w; i->e = e; i->t = t; i->name = name; i->f.vapos = -1; return i; }
static mt *par_type(int depth) { mt *t; do t = t_rand(W, depth); while (res(t)->k == M_FUNC || res(t)->k == M_DECL || res(t)->k == M_ARR || res(t)->k == M_FLEX); return t; }
static void add_function(int i) {
    rng_t *r = &W->r; int np = wide(W, r, rng_i(r, 0, 6)), dots = np && rng_p(r, 30), va = !dots && rng_p(r, 35) ? (int)rng_n(r, (uint64_t)np + 1) : -1; int n = np + (dots || va >= 0);
    fnm_t f = { .np = n, .dots = dots, .vapos = va }; f.par = halloc(sizeof *f.par * (size_t)(n + 1)); f.nm = halloc(sizeof *f.nm * (size_t)(n + 1));
    metac_entry_t *s = ent_new(W, 1), *p = n ? ent_new(W, n) : NULL;
    for (int k = 0; k < n; k++) {
        p[k].kind = METAC_KND_func_parameter;
        if (dots && k == n - 1) { p[k].func_parameter_info.unspecified_parameters = 1; continue; }
        if (rng_p(r, 85)) f.nm[k] = p[k].name = aux_str(W, hprintf("a%d", k));
        if (k == va) { p[k].func_parameter_info.type = &pt_va_list; continue; }
        f.par[k] = par_type(np > 9 ? 0 : 2); p[k].func_parameter_info.type = f.par[k]->e;
    }
    f.ret = rng_p(r, 30) ? t_void() : par_type(2); int sub = rng_p(r, 35);
    if (sub) { s->kind = METAC_KND_subroutine_type; s->subroutine_type_info.type = f.ret->e; s->subroutine_type_info.parameters_count = n; s->subroutine_type_info.parameters = p; }
    else { s->kind = METAC_KND_subprogram; s->name = aux_str(W, hprintf("fn%d", i)); s->subprogram_info.type = f.ret->e; s->subprogram_info.parameters_count = n; s->subprogram_info.parameters = p; }
    item_t *it = item(I_SUB, s, NULL, s->name); if (!it) return; it->f = f; it->isfn = sub ? 2 : 1;
    for (int k = 0; k < n; k++) if (rng_p(r, n > 9 ? 2 : 50)) {
        if (dots && k == n - 1) item(I_DOTS, &p[k], NULL, NULL); else if (k == va) item(I_VALIST, &p[k], NULL, f.nm[k]); else item(I_PAR, &p[k], f.par[k], f.nm[k]);
    }
}
static int cmp_row(const void *a, const void *b) { const dbrow_t *x = a, *y = b; int c = strcmp(x->f, y->f); if (!c) c = strcmp(x->l, y->l); if (!c) c = strcmp(x->n, y->n); return c; }
static const char *pick(rng_t *r, char k) { /* near copies of each other on purpose */
    static const char *const a[] = { "a", "b", "ab", "aa", "a1", "a10", "a2", "A", "a_", "loc", "loc1", "" }; static const char *const f[] = { "/src/x.c", "/src/x.cc", "/src/x", "x.c", "/src/y.c", "/src/x.h", "./x.c", "/src/X.c" };
    return k == 'f' ? f[rng_n(r, 8)] : a[rng_n(r, k == 'l' ? 11 : 12)];
}
static void make_db(rng_t *r) {
    nrow = rng_p(r, 10) ? 0 : rng_i(r, 1, MAXROW); for (int i = 0; i < nrow; i++) ROW[i] = (dbrow_t){ pick(r, 'f'), pick(r, 'l'), pick(r, 'n'), IT[rng_n(r, (uint64_t)nit)].e };
    qsort(ROW, (size_t)nrow, sizeof *ROW, cmp_row);
    struct metac_per_file_item *F = halloc(sizeof *F * (MAXROW + 1)); memset(&DB, 0, sizeof DB); DB.per_file_items = F;
    for (int i = 0; i < nrow;) {
        struct metac_per_file_item *pf = &F[DB.per_file_item_count++]; pf->file = (char *)ROW[i].f; pf->per_loc_item_count = 0; char *L = halloc(sizeof(struct metac_per_loc_item) * (MAXROW + 1)); pf->per_loc_items = (void *)L; const char *f = ROW[i].f;
        while (i < nrow && !strcmp(ROW[i].f, f)) {
            const char *l = ROW[i].l; struct metac_per_name_item *N = halloc(sizeof *N * (MAXROW + 1)); metac_num_t nn = 0;
            while (i < nrow && !strcmp(ROW[i].f, f) && !strcmp(ROW[i].l, l)) {
                const char *n = ROW[i].n; struct metac_per_name_item *pn = &N[nn++]; pn->name = (char *)n; pn->entry_count = 0; pn->pp_entries = halloc(sizeof(void *) * (MAXROW + 1));
                while (i < nrow && !strcmp(ROW[i].f, f) && !strcmp(ROW[i].l, l) && !strcmp(ROW[i].n, n)) pn->pp_entries[pn->entry_count++] = ROW[i++].e;
            }
            struct metac_per_loc_item li = { .loc_name = (char *)l, .per_name_item_count = nn, .per_name_items = N }; memcpy(L + sizeof li * (size_t)pf->per_loc_item_count++, &li, sizeof li);
        }
    }
}
static void setup(rng_t *r) {
    wcfg_t c; rand_cfg(r, &c, 0); c.hints = 0; W = world_make(r, &c); rng_t *q = &W->r; nit = 0;
    while (nit < NITEM) {
        int k = rng_i(q, 0, 9), depth = rng_i(q, 0, 4); mt *t;
        if (k < 3 && rng_p(q, 5)) { t = t_wrap(W, rng_p(q, 50) ? 't' : 'c', t_void(), NULL); if (t->wk == 't') t->name = t->e->name = aux_str(W, hprintf("V%d", nit)); if (rng_p(q, 30)) { t = t_wrap(W, 't', t, aux_str(W, hprintf("VV%d", nit))); } item(I_TYPE, t->e, t, t->name); }
        else if (k < 3) { t = t_rand(W, depth); if (rng_p(q, 15)) while (t->k == M_PTR && res(t->to)->k == M_FUNC) t = t->to; item(I_TYPE, t->e, t, t->name); }
        else if (k < 5) { t = t_rand(W, depth); metac_entry_t *v = ent_new(W, 1); v->kind = METAC_KND_variable; v->name = aux_str(W, hprintf("var%d", nit)); v->variable_info.type = t->e; item(I_VAR, v, t, v->name); }
        else if (k < 8) { t = W->st[rng_n(q, (uint64_t)W->nst)]; if (!t->nm) continue; mm *m = &t->m[rng_n(q, (uint64_t)t->nm)]; mt *x = res(m->t); if ((x->k == M_STRUCT || x->k == M_UNION) && x->nm && rng_p(q, 50)) m = &x->m[rng_n(q, (uint64_t)x->nm)]; item_t *it = item(I_MEMB, m->e, m->t, m->name); it->m = m; }
        else add_function(nit);
    }
    for (int i = 0; i < nit; i++) { /* parents; those of an entry which is listed twice are the same */
        item_t *it = &IT[i]; int j; for (j = 0; j < i; j++) if (IT[j].e == it->e) break;
        if (j < i) { it->pa = IT[j].pa; it->npa = IT[j].npa; it->hasp = IT[j].hasp; continue; }
        if (it->e < W->ents || it->e >= W->ents + W->nents || !rng_p(q, 40)) continue;
        it->hasp = 1; it->npa = rng_i(q, 0, 3); it->pa = aux_new(W, 8 * 4); for (int k = 0; k < it->npa; k++) it->pa[k] = IT[rng_n(q, (uint64_t)nit)].e;
        it->e->parents_count = it->npa; it->e->parents = it->pa;
    }
    make_db(q); HASH = world_hash(W);
}
static void finish(void) { CHECK(world_hash(W) == HASH, "entry-changed", "the tables are changed by questions about them"); world_free(W); }

static long msize(mt *t) { /* -1: there is none, -2: no claim */
    t = res(t);
    switch (t->k) {
    case M_BASE: case M_ENUM: case M_PTR: case M_STRUCT: case M_UNION: return (long)t->size;
    case M_ARR: { long s = msize(t->to); return s <= 0 || !t->n ? -2 : s * t->n; }
    case M_DECL: return -2;
    default: return -1; }
}
static const char *txt(const char *s) { return s ? s : "(none)"; }
static int same_s(const char *a, const char *b) { return (a != NULL) == (b != NULL) && (!a || !strcmp(a, b)); }
static int typed_is(int b, metac_entry_t *e) { switch (b) {
#define X(n, fn) case n: return SUT(metac_entry_is_##fn(e)) != 0;
    X(0, char) X(1, uchar) X(2, short) X(3, ushort) X(4, int) X(5, uint) X(6, long) X(7, ulong) X(8, llong) X(9, ullong) X(10, bool) X(11, float) X(12, double) X(13, ldouble) X(14, float_complex) X(15, double_complex) X(16, ldouble_complex)
#undef X
    } return -1; }
static metac_kind_t kind_of(item_t *it) {
    switch (it->w) { case I_VAR: return METAC_KND_variable; case I_MEMB: return METAC_KND_member; case I_PAR: case I_DOTS: case I_VALIST: return METAC_KND_func_parameter; case I_SUB: return it->isfn == 1 ? METAC_KND_subprogram : METAC_KND_subroutine_type; default: break; }
    switch (it->t->k) { case M_BASE: return METAC_KND_base_type; case M_ENUM: return METAC_KND_enumeration_type; case M_PTR: return METAC_KND_pointer_type; case M_ARR: case M_FLEX: return METAC_KND_array_type; case M_STRUCT: case M_DECL: return METAC_KND_struct_type; case M_UNION: return METAC_KND_union_type; case M_FUNC: return METAC_KND_subroutine_type;
    default: return it->t->wk == 't' ? METAC_KND_typedef : it->t->wk == 'c' ? METAC_KND_const_type : it->t->wk == 'v' ? METAC_KND_volatile_type : METAC_KND_restrict_type; }
}
#define ASK(_cond_, _kind_, ...) CHECK(_cond_, _kind_, __VA_ARGS__)
static void ask_common(item_t *it, metac_entry_t *e, int dyn, rng_t *q) {
    mt *t = it->t ? res(it->t) : NULL; metac_kind_t k = SUT(metac_entry_kind(e)), wk = kind_of(it); ASK(k == wk, "entry-kind", "kind is %d instead of %d", (int)k, (int)wk);
    const char *n = SUT(metac_entry_name(e)); ASK(same_s(n, it->name), "entry-name", "name is %s instead of %s", txt(n), txt(it->name));
    ASK(!!SUT(metac_entry_is_dynamic(e)) == dyn, "entry-copy", "%s", dyn ? "a copy isn't told to be one" : "an entry of a table is told to be a copy");
    if (it->hasp) {
        metac_num_t c = SUT(metac_entry_parent_count(e)); ASK(c == it->npa, "entry-parent", "%d parents instead of %d", (int)c, it->npa);
        for (int i = -1; i <= c; i++) { metac_entry_t *p = SUT(metac_entry_parent_entry(e, i)); ASK(p == (i < 0 || i >= c ? NULL : it->pa[i]), "entry-parent", "parent %d of %d is another one", i, it->npa); }
        sim_probe("parents");
    }
    metac_size_t sz = 0; int rc = SUT(metac_entry_byte_size(e, &sz)); long w = it->w == I_VALIST ? 8 : t && !(it->m && it->m->bits) ? msize(t) : it->w == I_SUB || it->w == I_DOTS ? -1 : -2;
    if (w >= 0) ASK(rc == 0 && sz == (metac_size_t)w, "entry-size", "size is %llu (result %d) instead of %ld", (unsigned long long)sz, rc, w); else if (w == -1) { ASK(rc < 0, "entry-size", "size %llu of something without one", (unsigned long long)sz); sim_probe("no size"); }
    if (rng_p(q, 10)) ASK(SUT(metac_entry_byte_size(e, NULL)) < 0, "entry-size", "a size is given to nobody");
    metac_quals_t ql; ql.flags = (unsigned short)rng_u64(q); int noq = rng_p(q, 30); metac_entry_t *f = SUT(metac_entry_final_entry(e, noq ? NULL : &ql));
    metac_entry_t *wf = it->w == I_VALIST ? &pt_va_list : it->w == I_DOTS || it->w == I_SUB ? e : it->w == I_TYPE && it->t == t ? e : t->e;
    ASK(f == wf, "entry-final", "the final entry is another one");
    if (!noq && f && t) {
        int c = 0, v = 0, r = 0; for (mt *x = it->t; x->k == M_WRAP; x = x->to) { c |= x->wk == 'c'; v |= x->wk == 'v'; r |= x->wk == 'r'; }
        ASK(ql.flag_const == c && ql.flag_volatile == v && ql.flag_restrict == r && !ql.flag_mutable && !ql.flag_shared && !ql.flag_packed, "entry-quals", "qualifiers are %x, they have to be%s%s%s", ql.flags, c ? " const" : "", v ? " volatile" : "", r ? " restrict" : ""); if (c + v + r > 1) sim_probe("several qualifiers");
    }
}
static void ask_base(item_t *it, metac_entry_t *e, rng_t *q) {
    mt *t = it->t ? res(it->t) : NULL; int is = t && t->k == M_BASE; ASK(!!SUT(metac_entry_is_base_type(e)) == is, "entry-base", "%s", is ? "a base type isn't told to be one" : "something else is told to be a base type");
    const char *n = SUT(metac_entry_base_type_name(e)); ASK(same_s(n, is ? NAME[t->base] : NULL), "entry-base", "name of a base type is %s instead of %s", txt(n), is ? NAME[t->base] : "(none)");
    metac_size_t sz = 77; int rc = SUT(metac_entry_base_type_byte_size(e, &sz)); ASK(is ? rc == 0 && sz == t->size : rc < 0, "entry-base", "size of a base type is %llu (result %d)", (unsigned long long)sz, rc);
    if (rng_p(q, 10)) { rc = SUT(metac_entry_base_type_byte_size(e, NULL)); int r2 = SUT(metac_entry_base_type_encoding(e, NULL)); ASK(is ? rc == 0 && r2 == 0 : rc < 0 && r2 < 0, "entry-base", "size and encoding which nobody takes: results %d, %d", rc, r2); }
    metac_encoding_t en = METAC_ENC_undefined; rc = SUT(metac_entry_base_type_encoding(e, &en)); ASK(is ? rc == 0 && en == ENC[t->base] : rc < 0, "entry-base", "encoding of a base type is %d (result %d)", (int)en, rc);
    for (int b = 0; b < base_count(); b++) { int w = is && b == t->base; if (w || rng_p(q, 40)) ASK(typed_is(b, e) == w, "entry-base", "%s is%s told to be %s", is ? NAME[t->base] : "something else", w ? "n't" : "", NAME[b]); }
    int b = is && rng_p(q, 60) ? t->base : (int)rng_n(q, (uint64_t)base_count()), o = (int)rng_n(q, (uint64_t)base_count()); metac_size_t bs = t_base(b)->size; const char *nm = NAME[b]; metac_encoding_t ec = ENC[b];
    int ch = rng_i(q, 0, 4); if (ch == 1) nm = NAME[o]; if (ch == 2) ec = ENC[o]; if (ch == 3) bs = rng_p(q, 50) ? t_base(o)->size : bs + 1;
    int want = is && !strcmp(nm, NAME[t->base]) && ec == ENC[t->base] && bs == t->size; rc = SUT(metac_entry_check_base_type(e, (char *)nm, ec, bs)); ASK(want ? rc == 0 : rc < 0, "entry-base", "the check for %s of %llu bytes returns %d for %s", nm, (unsigned long long)bs, rc, is ? NAME[t->base] : "something else"); if (want) sim_probe("base type confirmed"); else if (is) sim_probe("base type refused");
}
static void ask_pointer(item_t *it, metac_entry_t *e) {
    mt *t = it->t ? res(it->t) : NULL; if (it->w == I_VALIST) return;
    int is = t && t->k == M_PTR; mt *to = is ? res(t->to) : NULL;
    ASK(!!SUT(metac_entry_is_pointer(e)) == is, "entry-pointer", "%s", is ? "a pointer isn't told to be one" : "something else is told to be a pointer");
    ASK(!!SUT(metac_entry_is_void_pointer(e)) == (is && to->k == M_VOID), "entry-pointer", "is it a pointer to void: the answer is wrong"); ASK(!!SUT(metac_entry_is_declaration_pointer(e)) == (is && to->k == M_DECL), "entry-pointer", "is it a pointer to a type without a definition: the answer is wrong");
    ASK(SUT(metac_entry_pointer_entry(e)) == (is ? t->to->e : NULL), "entry-pointer", "the type behind a pointer is another one"); if (is) sim_probe(to->k == M_VOID ? "pointer to void" : to->k == M_DECL ? "pointer to a declaration" : "pointer");
}
static void ask_array(item_t *it, metac_entry_t *e) {
    mt *t = it->t ? res(it->t) : NULL; int is = t && (t->k == M_ARR || t->k == M_FLEX); ASK(!!SUT(metac_entry_has_elements(e)) == is, "entry-array", "%s", is ? "an array isn't told to be one" : "something else is told to be an array");
    metac_num_t c = SUT(metac_entry_element_count(e)); if (is && t->k == M_ARR) { if (t->n <= 0x7fffffff) ASK(c == t->n, "entry-array", "an array of %ld is told to have %d elements", (long)t->n, (int)c); else sim_probe("array of more elements than the answer can hold"); } else ASK(c < 0, "entry-array", "%d elements of something without them", (int)c);
    ASK(SUT(metac_entry_element_entry(e)) == (is ? t->to->e : NULL), "entry-array", "the type of elements is another one"); if (is) sim_probe(t->k == M_FLEX ? "flexible array" : "array");
}
static void ask_enum(item_t *it, metac_entry_t *e, rng_t *q) {
    mt *t = it->t ? res(it->t) : NULL; int is = t && t->k == M_ENUM, n = is ? t->ne : 0; ASK(!!SUT(metac_entry_is_enumeration(e)) == is, "entry-enum", "%s", is ? "an enum isn't told to be one" : "something else is told to be an enum");
    metac_num_t c = SUT(metac_entry_enumeration_info_size(e)); ASK(c == n, "entry-enum", "%d enumerators instead of %d", (int)c, n);
    for (int i = -1; i <= n; i++) { const struct metac_type_enumerator_info *p = SUT(metac_entry_enumeration_info(e, i)); if (i < 0 || i >= n) ASK(!p, "entry-enum", "enumerator %d of %d is given", i, n); else ASK(p && p->const_value == t->ev[i] && same_s(p->name, t->en[i]), "entry-enum", "enumerator %d is wrong", i); }
    for (int k = 0; k < 3; k++) {
        int64_t v = n && rng_p(q, 70) ? t->ev[rng_n(q, (uint64_t)n)] + (rng_p(q, 25) ? rng_i(q, -2, 2) : 0) : rng_p(q, 50) ? (int64_t)rng_n(q, 7) - 3 : (int64_t)rng_u64(q); if (n && rng_p(q, 10)) v += (int64_t)1 << rng_i(q, 8, 62);
        const char *s = SUT(metac_entry_enumeration_to_name(e, v)); int known = 0, hit = 0; for (int i = 0; i < n; i++) if (t->ev[i] == v) { known = 1; if (s && !strcmp(s, t->en[i])) hit = 1; }
        ASK(known ? hit : !s, "entry-enum", "name of %lld is %s", (long long)v, txt(s)); if (is) sim_probe(known ? "enumerator by value" : "value without enumerator");
    }
}
static void ask_members(item_t *it, metac_entry_t *e, rng_t *q) {
    mt *t = it->t ? res(it->t) : NULL; if (t && t->k == M_DECL) return;
    int is = t && (t->k == M_STRUCT || t->k == M_UNION), n = is ? t->nm : 0; ASK(!!SUT(metac_entry_has_members(e)) == is, "entry-members", "%s", is ? "a struct isn't told to have members" : "something else is told to have members");
    metac_num_t c = SUT(metac_entry_member_count(e)); ASK(is ? c == n : c < 0, "entry-members", "%d members instead of %d", (int)c, is ? n : -1);
    for (int i = -1; i <= n; i++) { metac_entry_t *p = SUT(metac_entry_by_member_id(e, i)); ASK(p == (i < 0 || i >= n ? NULL : t->m[i].e), "entry-members", "member %d of %d is another one", i, n); }
    for (int k = 0; k < 2; k++) {
        int i = n && rng_p(q, 80) ? (int)rng_n(q, (uint64_t)n) : -1; const char *nm = i >= 0 && t->m[i].name ? t->m[i].name : "m"; if (nm == (i >= 0 ? t->m[i].name : NULL) && rng_p(q, 25)) { char *z = hstrdup(nm); if (rng_p(q, 50)) z[strlen(z) - 1] = 0; else z = hprintf("%s0", nm); nm = z; }
        int w = -1; for (int j = 0; j < n && w < 0; j++) if (t->m[j].name && !strcmp(t->m[j].name, nm)) w = j;
        c = SUT(metac_entry_member_name_to_id(e, (char *)nm)); ASK(w >= 0 ? c == w : c < 0, "entry-members", "member '%s' is number %d instead of %d", nm, (int)c, w); sim_probe(w >= 0 ? "member by name" : "no such member");
    }
    if (!is) { char buf[8]; ASK(!SUT(metac_entry_struct_va_arg(e, NULL, buf)), "entry-members", "something else is taken from variable arguments as a struct"); }
    /* a path, sometimes a wrong one */
    metac_entry_id_t ids[8]; int np = 0, bad = 0; mt *x = is ? it->t : NULL; mm *last = NULL;
    while (x && np < 7) {
        x = res(x); if ((x->k != M_STRUCT && x->k != M_UNION) || !x->nm) { if (last && rng_p(q, 10)) { ids[np] = (metac_entry_id_t){ .i = 0 }; np++; bad = 1; } break; }
        int wrong = rng_p(q, 8); mm *m = &x->m[rng_n(q, (uint64_t)x->nm)]; int id = (int)(m - x->m), byname = m->name && rng_p(q, 50);
        ids[np].i = wrong ? (rng_p(q, 50) ? -1 : x->nm) : byname && rng_p(q, 50) ? rng_i(q, 0, 3) : id; ids[np].n = byname ? (char *)(wrong ? hprintf("%s_", m->name) : m->name) : NULL; np++; if (wrong) { bad = 1; break; }
        last = m; x = m->t; if (rng_p(q, 20)) break;
    }
    if (np) {
        int fin = rng_p(q, 40); metac_entry_t *p = SUT(metac_entry_by_member_ids(e, fin, ids, np)); metac_entry_t *w = bad ? NULL : fin ? res(last->t)->e : last->e; ASK(p == w, "entry-path", "the member at a path of %d steps%s is another one", np, bad ? " which leads nowhere" : ""); sim_probe(bad ? "path which leads nowhere" : np > 1 ? "path of several steps" : "path of one step");
    } else if (!is) { ids[0] = (metac_entry_id_t){ .i = 0 }; ASK(!SUT(metac_entry_by_member_ids(e, 0, ids, 1)), "entry-path", "a member of something without members"); }
}
static void ask_member(item_t *it, metac_entry_t *e, rng_t *q) {
    int is = it->w == I_MEMB; ASK(!!SUT(metac_entry_is_member(e)) == is, "entry-member", "%s", is ? "a member isn't told to be one" : "something else is told to be a member"); ASK(SUT(metac_entry_member_entry(e)) == (is ? it->t->e : NULL), "entry-member", "the type of a member is another one");
    struct metac_member_raw_location_info ri; memset(&ri, 0x5a, sizeof ri); int rc = SUT(metac_entry_member_raw_location_info(e, &ri)); ASK(is ? rc == 0 : rc < 0, "entry-member", "place of a member: result %d", rc); if (is && !it->m->bits) ASK(ri.byte_offset == (metac_offset_t)it->m->off, "entry-member", "place of a member is %lld instead of %zu", (long long)ri.byte_offset, it->m->off);
    if (is && it->m->bits) ASK(ri.p_bit_size && *ri.p_bit_size == (metac_size_t)it->m->bits, "entry-member", "number of bits of a bit-field is wrong");
    metac_offset_t a = -5, b = -6, c = -7; rc = SUT(metac_entry_member_bitfield_offsets(e, &a, &b, &c)); ASK(is ? rc == 0 : rc < 0, "entry-member", "bits of a member: result %d", rc);
    if (is && it->m->bits) { ASK(a * 8 + b == (metac_offset_t)it->m->off * 8 + it->m->bitoff && b >= 0 && b < 8 && c == it->m->bits, "entry-member", "a bit-field is at byte %lld, bit %lld, %lld bits; it has to be at %zu, %d, %d", (long long)a, (long long)b, (long long)c, it->m->off, it->m->bitoff, it->m->bits); sim_probe("bit-field"); }
    (void)q;
}
static fnm_t fn_of(mt *t) { /* type of a function as a function */
    fnm_t f = { .ret = t->to, .np = t->npar + t->dots, .par = t->par, .nm = t->parn, .dots = t->dots, .vapos = -1 }; return f;
}
static void ask_par_of(fnm_t *f, int i, metac_entry_t *p) {
    ASK(p && SUT(metac_entry_is_parameter(p)), "entry-par", "parameter %d isn't told to be one", i); int dots = f->dots && i == f->np - 1, va = i == f->vapos;
    ASK(!!SUT(metac_entry_is_unspecified_parameter(p)) == dots && !!SUT(metac_entry_is_va_list_parameter(p)) == va, "entry-par", "parameter %d: the answer about its variable part is wrong", i); ASK(!!SUT(metac_entry_has_parameter_load(p)) == (dots || va), "entry-par", "parameter %d: the answer about its load is wrong", i);
    const char *n = SUT(metac_entry_name(p)), *w = dots ? NULL : f->nm[i]; ASK(same_s(n, w), "entry-par", "name of parameter %d is %s instead of %s", i, txt(n), txt(w)); ASK(SUT(metac_entry_parameter_entry(p)) == (dots ? NULL : va ? &pt_va_list : f->par[i]->e), "entry-par", "type of parameter %d is another one", i);
}
static void ask_function(item_t *it, metac_entry_t *e, rng_t *q) {
    mt *t = it->t ? res(it->t) : NULL; fnm_t f = it->f; int is = it->w == I_SUB; if (t && t->k == M_FUNC) { f = fn_of(t); is = 1; } int n = is ? f.np : 0;
    ASK(!!SUT(metac_entry_has_parameters(e)) == is, "entry-func", "%s", is ? "a function isn't told to be one" : "something else is told to be a function"); metac_num_t c = SUT(metac_entry_parameters_count(e)); ASK(is ? c == n : c < 0, "entry-func", "%d parameters instead of %d", (int)c, is ? n : -1);
    int load = is || it->w == I_DOTS || it->w == I_VALIST; ASK(!!SUT(metac_entry_has_parameter_load(e)) == load, "entry-func", "the answer about a parameter load is wrong");
    for (int i = -1; i <= n; i++) { metac_entry_t *p = SUT(metac_entry_by_paremeter_id(e, i)); if (i < 0 || i >= n) ASK(!p, "entry-func", "parameter %d of %d is given", i, n); else ask_par_of(&f, i, p); }
    for (int k = 0; k < 2; k++) {
        int i = n && rng_p(q, 85) ? (int)rng_n(q, (uint64_t)n) : -1; const char *own = i >= 0 && !(f.dots && i == n - 1) ? f.nm[i] : NULL, *nm = own ? own : "a"; if (own && rng_p(q, 20)) nm = hprintf("%s1", own);
        int w = -1; for (int j = 0; j < n && w < 0; j++) if (!(f.dots && j == n - 1) && f.nm[j] && !strcmp(f.nm[j], nm)) w = j;
        c = SUT(metac_entry_paremeter_name_to_id(e, (char *)nm)); ASK(w >= 0 ? c == w : c < 0, "entry-func", "parameter '%s' is number %d instead of %d", nm, (int)c, w);
        metac_entry_id_t id = { .i = w >= 0 ? rng_i(q, 0, 3) : 0, .n = (char *)nm }; int fin = rng_p(q, 40); metac_entry_t *p = SUT(metac_entry_by_parameter_ids(e, fin, &id)); metac_entry_t *pw = w < 0 ? NULL : !fin ? SUT(metac_entry_by_paremeter_id(e, w)) : w == f.vapos ? &pt_va_list : res(f.par[w])->e;
        ASK(p == pw, "entry-func", "parameter '%s' is another one", nm); sim_probe(w >= 0 ? "parameter by name" : "no such parameter");
        id.n = NULL; id.i = i; p = SUT(metac_entry_by_parameter_ids(e, 0, &id)); ASK(p == (i < 0 ? NULL : SUT(metac_entry_by_paremeter_id(e, i))), "entry-func", "parameter %d is another one", i);
    }
    ASK(!!SUT(metac_entry_has_result(e)) == (is && f.ret->k != M_VOID), "entry-func", "the answer about a result is wrong"); ASK(SUT(metac_entry_result_type(e)) == (is ? f.ret->e : NULL), "entry-func", "the type of the result is another one");
    int par = it->w == I_PAR || it->w == I_DOTS || it->w == I_VALIST; ASK(!!SUT(metac_entry_is_parameter(e)) == par && !!SUT(metac_entry_is_unspecified_parameter(e)) == (it->w == I_DOTS) && !!SUT(metac_entry_is_va_list_parameter(e)) == (it->w == I_VALIST), "entry-par", "the answers about a parameter are wrong");
    ASK(SUT(metac_entry_parameter_entry(e)) == (it->w == I_PAR ? it->t->e : it->w == I_VALIST ? &pt_va_list : NULL), "entry-par", "the type of a parameter is another one"); if (is) sim_probe(it->isfn == 1 ? "function" : "type of a function");
}
static void ask_all(item_t *it, metac_entry_t *e, int dyn, rng_t *q) {
    unsigned on = rng_p(q, 30) ? ~0u : (unsigned)rng_u64(q);
    if (on & 1) ask_common(it, e, dyn, q); if (on & 2) ask_base(it, e, q); if (on & 4) ask_pointer(it, e); if (on & 8) ask_array(it, e); if (on & 16) ask_enum(it, e, q); if (on & 32) ask_members(it, e, q); if (on & 64) ask_member(it, e, q); if (on & 128) ask_function(it, e, q);
}
static void ask_db(rng_t *q) {
    for (int k = 0; k < 6; k++) {
        dbrow_t w = nrow && rng_p(q, 80) ? ROW[rng_n(q, (uint64_t)nrow)] : (dbrow_t){ pick(q, 'f'), pick(q, 'l'), pick(q, 'n'), NULL }; if (rng_p(q, 20)) w.f = pick(q, 'f'); if (rng_p(q, 20)) w.l = pick(q, 'l'); if (rng_p(q, 20)) w.n = pick(q, 'n');
        metac_entry_t *e = NULL; int n = 0; for (int i = 0; i < nrow; i++) if (!cmp_row(&ROW[i], &w)) { n++; e = ROW[i].e; }
        struct metac_decl_loc l = { .file = hstrdup(w.f), .name = hstrdup(w.l) }; metac_entry_t *g = SUT(metac_entry_from_entry_db(&DB, &l, hstrdup(w.n)));
        ASK(g == (n == 1 ? e : NULL), "entry-db", "'%s' at '%s' of %s: %s, the table has %d", w.n, w.l, w.f, g ? (n == 1 ? "another entry" : "an entry") : "nothing", n); sim_probe(n == 1 ? "found at its place" : n ? "ambiguous place" : "not at this place");
    }
}
static void body(sim_task_t *t) {
    uint32_t seq0 = heap_seq();
    for (int op = 0; op < 24; op++) {
        rng_t q = rng_make(sim_plan->seed, 0x20000 + (uint64_t)t->id, (uint64_t)op); if (!op_on(t, op)) continue;
        item_t *it = &IT[rng_n(&q, (uint64_t)nit)]; int k = rng_i(&q, 0, 9); uint32_t seq = heap_seq(); sim_trace_u((uint64_t)k << 16 | (uint64_t)it->w << 8 | (uint64_t)(it->t ? it->t->k : 99));
        if (k == 0) ask_db(&q);
        else if (k == 1) { /* nothing is known about nothing */
            metac_size_t z; metac_encoding_t ec; metac_offset_t o1, o2, o3; metac_entry_id_t id = { .i = 0 }; struct metac_decl_loc dl = { .file = "/src/x.c", .name = "a" }, d0 = { .file = "/src/x.c", .name = NULL }; struct metac_member_raw_location_info ri;
            ASK(SUT(metac_entry_kind(NULL)) == METAC_KND_invalid && !SUT(metac_entry_name(NULL)) && !SUT(metac_entry_final_entry(NULL, NULL)) && SUT(metac_entry_byte_size(NULL, &z)) < 0 && !SUT(metac_new_entry(NULL)) && !SUT(metac_new_element_count_entry(NULL, 1)) && !SUT(metac_entry_is_dynamic(NULL)) && !SUT(metac_entry_parent_count(NULL)) && !SUT(metac_entry_parent_entry(NULL, 0)), "entry-null", "an answer about nothing");
            ASK(!SUT(metac_entry_is_base_type(NULL)) && !SUT(metac_entry_base_type_name(NULL)) && SUT(metac_entry_base_type_byte_size(NULL, &z)) < 0 && SUT(metac_entry_base_type_encoding(NULL, &ec)) < 0 && SUT(metac_entry_check_base_type(NULL, "int", METAC_ENC_signed, 4)) < 0 && !typed_is((int)rng_n(&q, (uint64_t)base_count()), NULL), "entry-null", "an answer about nothing: base type");
            ASK(!SUT(metac_entry_is_pointer(NULL)) && !SUT(metac_entry_is_void_pointer(NULL)) && !SUT(metac_entry_is_declaration_pointer(NULL)) && !SUT(metac_entry_pointer_entry(NULL)) && !SUT(metac_entry_has_elements(NULL)) && SUT(metac_entry_element_count(NULL)) < 0 && !SUT(metac_entry_element_entry(NULL)), "entry-null", "an answer about nothing: pointer or array");
            ASK(!SUT(metac_entry_is_enumeration(NULL)) && !SUT(metac_entry_enumeration_info_size(NULL)) && !SUT(metac_entry_enumeration_info(NULL, 0)) && !SUT(metac_entry_enumeration_to_name(NULL, 0)) && !SUT(metac_entry_has_members(NULL)) && SUT(metac_entry_member_count(NULL)) < 0 && !SUT(metac_entry_by_member_id(NULL, 0)) && SUT(metac_entry_member_name_to_id(NULL, "a")) < 0 && !SUT(metac_entry_by_member_ids(NULL, 0, &id, 1)), "entry-null", "an answer about nothing: enum or struct");
            ASK(!SUT(metac_entry_is_member(NULL)) && !SUT(metac_entry_member_entry(NULL)) && SUT(metac_entry_member_raw_location_info(NULL, &ri)) < 0 && SUT(metac_entry_member_bitfield_offsets(NULL, &o1, &o2, &o3)) < 0 && !SUT(metac_entry_struct_va_arg(NULL, NULL, NULL)), "entry-null", "an answer about nothing: member");
            ASK(!SUT(metac_entry_has_parameters(NULL)) && SUT(metac_entry_parameters_count(NULL)) < 0 && !SUT(metac_entry_by_paremeter_id(NULL, 0)) && SUT(metac_entry_paremeter_name_to_id(NULL, "a")) < 0 && !SUT(metac_entry_by_parameter_ids(NULL, 0, &id)) && !SUT(metac_entry_has_result(NULL)) && !SUT(metac_entry_result_type(NULL)) && !SUT(metac_entry_is_parameter(NULL)) && !SUT(metac_entry_is_unspecified_parameter(NULL)) && !SUT(metac_entry_is_va_list_parameter(NULL)) && !SUT(metac_entry_parameter_entry(NULL)) && !SUT(metac_entry_has_parameter_load(NULL)), "entry-null", "an answer about nothing: function");
            ASK(!SUT(metac_entry_from_entry_db(NULL, &dl, "a")) && !SUT(metac_entry_from_entry_db(&DB, NULL, "a")) && !SUT(metac_entry_from_entry_db(&DB, &d0, "a")) && !SUT(metac_entry_from_entry_db(&DB, &dl, NULL)), "entry-null", "an answer about nothing: place"); SUTV(metac_entry_delete(NULL)); sim_probe("no entry");
        } else if (k < 5) { /* a copy answers the same; copies of copies */
            metac_entry_t *c = NULL; int n = rng_i(&q, 1, 2); metac_entry_t *from = it->e;
            for (int i = 0; i < n; i++) {
                for (int tries = 0; tries < 2; tries++) { c = tries ? SUTQ(metac_new_entry(from)) : SUT(metac_new_entry(from)); if (c) break; ASK(sim_last_hits() && !tries, "entry-fails", "no copy of an entry although nothing failed"); sim_probe("copy failed by a fault"); }
                if (i) SUTV(metac_entry_delete(from));
                from = c;
            }
            ASK(heap_live(1 << H_SUT, seq, NULL) == 1 && c != it->e, "entry-copy", "a copy has to be one block"); ask_all(it, c, 1, &q); SUTV(metac_entry_delete(c)); sim_probe("copy");
        } else if (k < 7) { /* an array of given length made of a pointer or an array */
            mt *ty = it->t ? res(it->t) : NULL; int ok = ty && (ty->k == M_ARR || ty->k == M_FLEX || ty->k == M_PTR) && ty->to->k != M_VOID, n = rng_p(&q, 10) ? rng_i(&q, 1000, 1 << 20) : rng_i(&q, 1, 9); metac_entry_t *c = NULL;
            if (it->w == I_VALIST || (ok && res(ty->to)->k == M_VOID)) ask_all(it, it->e, 0, &q);
            else {
                for (int tries = 0; tries < 2; tries++) { c = tries ? SUTQ(metac_new_element_count_entry(it->e, n)) : SUT(metac_new_element_count_entry(it->e, n)); if (c || !ok) break; ASK(sim_last_hits() && !tries, "entry-fails", "no array of a given length although nothing failed"); }
                ASK(!!c == ok, "entry-count", "an array made of something which isn't a pointer or an array");
                if (c) { mt a = { .k = M_ARR, .to = ty->to, .n = n, .e = c }; item_t x = { .w = I_TYPE, .e = c, .t = &a, .f = { .vapos = -1 }, .hasp = 1 }; ask_all(&x, c, 1, &q); SUTV(metac_entry_delete(c)); sim_probe("array of a given length"); } else sim_probe("array of a given length refused");
            }
        } else { ask_all(it, it->e, 0, &q); SUTV(metac_entry_delete(it->e)); /* does nothing to a table */ if (rng_p(&q, 30)) ask_all(it, it->e, 0, &q); }
        ASK(heap_live(1 << H_SUT, seq, NULL) == 0, "entry-leak", "memory is left after questions about an entry");
    }
    CHECK(heap_live(1 << H_SUT, seq0, NULL) == 0, "leak", "memory is left"); CHECK(world_hash(W) == HASH, "entry-changed", "the tables are changed by questions about them");
}
const prop_t prop_p20 = { .id = "P20", .max_tasks = 3, .variants = 3, .max_ops = 24, .setup = setup, .body = body, .finish = finish, .quick_seeds = 16000, .thorough_seeds = 400000,
    .what = "one run = seeded questions (kind, name, size, final type and qualifiers, base type, pointer, elements, enumerators, members and member paths, bit-fields, parameters, result, parents, place) about 40 random types, variables, members, parameters and functions of a random world, about their copies and about arrays of a given length made of them, by up to 3 interleaved callers, compared with the model the world was generated from; allocations fail at seeded points" };
