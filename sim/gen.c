#include <math.h>
/* World and object generator: see gen.h. */
#include "gen.h"
#include <stdlib.h>
#include <complex.h>
#include <ctype.h>

/* ---------- entries ---------- */
metac_entry_t *ent_new(world_t *w, int n) {
    if (w->nents + n > w->maxents) sim_harness_error("too many entries");
    metac_entry_t *e = w->ents + w->nents; w->nents += n; return e;
}
void *aux_new(world_t *w, size_t n) {
    n = (n + 7) & ~7ull;
    if (w->naux + n > w->maxaux) sim_harness_error("aux memory is full");
    void *p = w->aux + w->naux; w->naux += n; return p;
}
static uint64_t *aux_u64(world_t *w, uint64_t v) { uint64_t *p = aux_new(w, 8); *p = v; return p; }
static char *aux_s(world_t *w, const char *fmt, ...) {
    char b[4096]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); if (n >= (int)sizeof b) sim_harness_error("name is too long");
    static const int len[] = { 25, 60, 120, 250, 300, 600 }; uint64_t h = mix64(w->nameseed + w->naux * 31 + (uint64_t)w->serial); int more = h % 300 == 0 && n < 100 && w->naux + 20000 < w->maxaux ? len[h / 300 % 6] + (int)(h / 3000 % 9) : 0; /* rarely a name is long */
    char *p = aux_new(w, (size_t)(n + more) + 1); memcpy(p, b, (size_t)n + 1); if (more) { memset(p + n, 'x', (size_t)more); p[n] = '_'; p[n + more] = 0; sim_probe("long name"); } return p;
}
char *aux_str(world_t *w, const char *s) { size_t n = strlen(s) + 1; return memcpy(aux_new(w, n), s, n); }

/* ---------- types ---------- */
static struct { metac_entry_t *e; char cls; size_t size, align; } const BASES[] = {
    { &bt_char, 's', 1, 1 }, { &bt_uchar, 'u', 1, 1 }, { &bt_short, 's', 2, 2 }, { &bt_ushort, 'u', 2, 2 }, { &bt_int, 's', 4, 4 }, { &bt_uint, 'u', 4, 4 },
    { &bt_long, 's', 8, 8 }, { &bt_ulong, 'u', 8, 8 }, { &bt_llong, 's', 8, 8 }, { &bt_ullong, 'u', 8, 8 }, { &bt_bool, 'b', 1, 1 },
    { &bt_float, 'f', 4, 4 }, { &bt_double, 'f', 8, 8 }, { &bt_ldouble, 'f', 16, 16 }, { &bt_fcomplex, 'c', 8, 4 }, { &bt_dcomplex, 'c', 16, 8 }, { &bt_ldcomplex, 'c', 32, 16 },
};
#define NBASE ((int)(sizeof BASES / sizeof *BASES))
int base_count(void) { return NBASE; }
static mt base_mt[NBASE]; static mt void_mt = { .k = M_VOID };
mt *t_base(int i) {
    mt *t = &base_mt[i];
    t->k = M_BASE; t->e = BASES[i].e; t->size = BASES[i].size; t->align = BASES[i].align; t->base = i; t->name = BASES[i].e->name;
    return t;
}
int is_intlike(mt *t) { t = res(t); return t->k == M_ENUM || (t->k == M_BASE && t->base <= 10); }
static mt *mt_new(mk_t k, size_t size, size_t align) { mt *t = halloc(sizeof *t); t->k = k; t->size = size; t->align = align; return t; }
mt *t_ptr(world_t *w, mt *to) {
    mt *t = mt_new(M_PTR, 8, 8); t->to = to; t->e = ent_new(w, 1);
    t->e->kind = METAC_KND_pointer_type; t->e->pointer_type_info.byte_size = 8; t->e->pointer_type_info.type = to->e; return t;
}
mt *t_arr(world_t *w, mt *to, int64_t n) {
    mt *t = mt_new(n < 0 ? M_FLEX : M_ARR, n < 0 ? 0 : to->size * (size_t)n, to->align); t->to = to; t->n = n; t->e = ent_new(w, 1);
    t->e->kind = METAC_KND_array_type; t->e->array_type_info.type = to->e; t->e->array_type_info.count = n; return t;
}
mt *t_wrap(world_t *w, int kind, mt *to, const char *name) {
    mt *t = mt_new(M_WRAP, to->size, to->align); t->to = to; t->wk = kind; t->e = ent_new(w, 1); t->name = name;
    t->e->kind = kind == 't' ? METAC_KND_typedef : kind == 'c' ? METAC_KND_const_type : kind == 'r' ? METAC_KND_restrict_type : METAC_KND_volatile_type;
    t->e->name = (char *)name; t->e->typedef_info.type = to->e; return t;
}
int wide(world_t *w, rng_t *r, int few) { if (w->nwide >= 2 || w->nents + 700 > w->maxents || w->naux + 40000 > w->maxaux || !rng_p(r, 1)) return few; w->nwide++; sim_probe("more than 127 members, parameters or enumerators"); return rng_i(r, 128, rng_p(r, 70) ? 300 : 160); } /* numbers of things which don't fit into a byte */
static mt *t_enum(world_t *w, rng_t *r) {
    static const size_t sz[] = { 4, 4, 4, 1, 2, 8 };
    mt *t = mt_new(M_ENUM, sz[rng_n(r, 6)], 0); t->align = t->size; t->e = ent_new(w, 1);
    int id = w->serial++; t->ne = rng_i(r, 1, 5); if (t->size > 1) t->ne = wide(w, r, t->ne);
    t->en = halloc(sizeof(char *) * (size_t)t->ne); t->ev = halloc(8 * (size_t)t->ne);
    struct metac_type_enumerator_info *in = aux_new(w, sizeof *in * (size_t)t->ne);
    int64_t v = rng_p(r, 30) ? -rng_i(r, 1, 3) : 0;
    for (int i = 0; i < t->ne; i++) {
        t->en[i] = aux_s(w, "E%d_%d", id, i); t->ev[i] = v; in[i].name = (char *)t->en[i]; in[i].const_value = v;
        v += rng_p(r, 70) ? 1 : rng_i(r, 2, 20);
    }
    if (rng_p(r, 15) && t->ev[0] >= 0 && t->size < 8) { t->ev[t->ne - 1] = in[t->ne - 1].const_value = (int64_t)((1ull << (8 * t->size)) - 1 - rng_n(r, 3)); } /* in the upper half of the unsigned range */
    if (rng_p(r, 50) && t->size == 8) { int i = (int)rng_n(r, (uint64_t)t->ne); t->ev[i] = in[i].const_value = (int64_t)(rng_u64(r) >> rng_n(r, 30)) * (t->ev[0] < 0 && rng_p(r, 50) ? -1 : 1); }
    if (rng_p(r, 75)) t->name = t->e->name = aux_s(w, "En%d", id);
    t->e->kind = METAC_KND_enumeration_type; t->e->enumeration_type_info.byte_size = t->size; t->e->enumeration_type_info.encoding = METAC_ENC_signed;
    t->e->enumeration_type_info.enumerators_count = t->ne; t->e->enumeration_type_info.enumerators = in; return t;
}
mt *t_void(void) { return &void_mt; }
mt *t_func(world_t *w, mt *ret, int npar, mt **par, const char **names, int dots) {
    mt *t = mt_new(M_FUNC, 0, 1); t->to = ret; t->npar = npar; t->par = par; t->parn = names; t->dots = dots; t->e = ent_new(w, 1);
    metac_entry_t *p = npar + dots ? ent_new(w, npar + dots) : NULL;
    for (int i = 0; i < npar; i++) { p[i].kind = METAC_KND_func_parameter; p[i].name = (char *)names[i]; p[i].func_parameter_info.type = par[i]->e; }
    if (dots) { p[npar].kind = METAC_KND_func_parameter; p[npar].func_parameter_info.unspecified_parameters = 1; }
    t->e->kind = METAC_KND_subroutine_type; t->e->subroutine_type_info.type = ret->e; t->e->subroutine_type_info.parameters_count = npar + dots; t->e->subroutine_type_info.parameters = p;
    return t;
}
static mt *maybe_wrap(world_t *w, rng_t *r, mt *t, int allow_const) {
    if (rng_p(r, 15)) { t = t_wrap(w, 't', t, aux_s(w, "T%d", w->serial++)); }
    if (rng_p(r, 5)) t = t_wrap(w, 'v', t, NULL);
    if (allow_const && rng_p(r, 5)) { t = t_wrap(w, 'c', t, NULL); w->has_const = 1; }
    return t;
}
static mt *rand_base(rng_t *r) {
    if (rng_p(r, 75)) { static const int c[] = { 0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 9, 10 }; return t_base(c[rng_n(r, sizeof c / sizeof *c)]); }
    return t_base((int)rng_n(r, NBASE));
}

/* ---------- structs ---------- */
typedef struct { mm *m; int n, cap; } mlist;
static mm *ml_add(mlist *l) {
    if (l->n == l->cap) { int c = l->cap * 2 + 8; mm *p = halloc(sizeof *p * (size_t)c); if (l->n) memcpy(p, l->m, sizeof *p * (size_t)l->n); l->m = p; l->cap = c; }
    mm *m = &l->m[l->n++]; m->sib = m->sib2 = -1; return m;
}
static int ml_int(world_t *w, rng_t *r, mlist *l, role_t role, int64_t maxv, int reuse);
static mt *struct_layout(world_t *w, mt *t, mlist *l, rng_t *r, int is_union);
static mt *st_ref(world_t *w, rng_t *r) { return w->st[rng_n(r, (uint64_t)w->nst)]; }
/* struct shells exist before their bodies, so pointers may lead to any of them */
static mt *by_value(world_t *w, rng_t *r, int upto) {
    for (int i = 0; i < 4 && upto > 0; i++) { mt *s = w->st[rng_n(r, (uint64_t)upto)]; if (!s->flex) return s; }
    return NULL;
}
static mt *ptr_elem(world_t *w, rng_t *r) { /* element type of a pointer */
    int k = rng_i(r, 0, 9);
    if (k < 4) return maybe_wrap(w, r, rand_base(r), w->cfg.consts);
    if (k < 9) return st_ref(w, r);
    return t_enum(w, r);
}
static const char *mname(world_t *w) { return aux_s(w, "m%d", w->serial++); }
static mt *anon_struct(world_t *w, rng_t *r, int upto, int depth);
static mt *gen_union(world_t *w, rng_t *r, int upto, mcase **pc, int *pnc);
static void gen_members(world_t *w, rng_t *r, mlist *l, int n, int upto, int depth, int can_flex) {
    for (int i = 0; i < n; i++) {
        int k = rng_i(r, 0, 99); mt *e;
        if (k < 24) { mm *m = ml_add(l); m->name = mname(w); m->t = maybe_wrap(w, r, rand_base(r), w->cfg.consts); }
        else if (k < 34) { /* bit-fields, often several in a row */
            if (w->cfg.nobits) { i--; continue; }
            int c = rng_i(r, 1, 4);
            while (c--) {
                mm *m = ml_add(l); m->name = mname(w); int b; do b = rng_i(r, 0, 10); while (b == 10 && rng_p(r, 50));
                m->t = maybe_wrap(w, r, rng_p(r, 12) ? t_enum(w, r) : t_base(b), 0);
                m->bits = rng_i(r, 1, (int)m->t->size * 8); if (rng_p(r, 50) && m->bits > 7) m->bits = rng_i(r, 1, 7);
                if (res(m->t)->k == M_BASE && res(m->t)->base == 10) m->bits = 1;
            }
        }
        else if (k < 40) { mm *m = ml_add(l); m->name = mname(w); m->t = maybe_wrap(w, r, t_enum(w, r), 0); }
        else if (k < 46) {
            mt *b = rng_p(r, 40) ? t_base(0) : rand_base(r); mm *m = ml_add(l); m->name = mname(w);
            m->t = t_arr(w, b, rng_i(r, 1, b->base == 0 ? 8 : 3)); if (rng_p(r, 15)) m->t = t_arr(w, m->t, rng_i(r, 1, 2));
        }
        else if (k < 51) { if (!(e = by_value(w, r, upto))) continue; mm *m = ml_add(l); m->name = mname(w); m->t = rng_p(r, 30) ? t_arr(w, e, rng_i(r, 1, 2)) : maybe_wrap(w, r, e, 0); }
        else if (k < 55) { if (depth > 1) continue; mt *a = anon_struct(w, r, upto, depth + 1); mm *m = ml_add(l); m->t = a; if (rng_p(r, 40)) m->name = mname(w); }
        else if (k < 66) { mm *m = ml_add(l); m->name = mname(w); m->t = maybe_wrap(w, r, t_ptr(w, ptr_elem(w, r)), 0); }
        else if (k < 69) { mm *m = ml_add(l); m->name = mname(w);
            m->t = rng_p(r, 50) ? t_ptr(w, t_ptr(w, ptr_elem(w, r))) : rng_p(r, 50) ? t_ptr(w, t_arr(w, rand_base(r), rng_i(r, 1, 3))) : t_arr(w, t_ptr(w, ptr_elem(w, r)), rng_i(r, 1, 3)); }
        else if (w->cfg.hints && k < 78) { /* counted pointer */
            int c = ml_int(w, r, l, R_COUNTER, 5, 20);
            mm *m = ml_add(l); m->name = mname(w); m->h = HT_COUNT; m->sib = c;
            m->t = maybe_wrap(w, r, t_ptr(w, rng_p(r, 20) ? t_ptr(w, ptr_elem(w, r)) : ptr_elem(w, r)), 0);
            if (rng_p(r, 30) && m->sib < l->n - 2) { } /* counter is before the pointer; below it may be moved behind */
        }
        else if (w->cfg.hints && k < 84) {
            mm *m = ml_add(l); m->name = mname(w); m->h = HT_ZSTR;
            if (w->cfg.zfinal && rng_p(r, 50)) { m->t = w->zptr; m->by_final = 1; } else m->t = t_ptr(w, maybe_wrap(w, r, t_base(0), w->cfg.consts));
        }
        else if (k < 91) { /* union */
            if (!w->cfg.hints && !w->cfg.unhandled) { i--; continue; }
            mcase *cs; int ncs; mt *u = gen_union(w, r, upto, &cs, &ncs); int an = rng_p(r, 35);
            if (!w->cfg.hints || (w->cfg.unhandled && rng_p(r, 20))) { mm *m = ml_add(l); m->name = an ? NULL : mname(w); m->t = u; w->has_unh = 1; }
            else if (rng_p(r, 25)) { mm *m = ml_add(l); m->name = an ? NULL : mname(w); m->t = u; m->h = HT_UPERM; m->perm = (int)rng_n(r, (uint64_t)u->nm); }
            else {
                int64_t mx = 0; for (int q = 0; q < ncs; q++) if (cs[q].v > mx) mx = cs[q].v;
                int s = ml_int(w, r, l, R_SELECTOR, mx, 0); l->m[s].cs = cs; l->m[s].ncs = ncs;
                mm *m = ml_add(l); m->name = an ? NULL : mname(w); m->t = u; m->h = HT_USEL; m->sib = s; m->cs = cs; m->ncs = ncs;
            }
        }
        else if (w->cfg.hints && k < 95) { /* void * with cast */
            int nc = rng_i(r, 1, 3); mcase *cs = halloc(sizeof *cs * (size_t)nc); int64_t v = rng_p(r, 25) ? 1 : 0;
            for (int q = 0; q < nc; q++) { cs[q].to = ptr_elem(w, r); mt *pt = t_ptr(w, cs[q].to); cs[q].pe = pt->e; cs[q].v = v; v += rng_i(r, 1, 3); }
            int s = ml_int(w, r, l, R_SELECTOR, cs[nc - 1].v, 0); l->m[s].cs = cs; l->m[s].ncs = nc;
            int c = rng_p(r, 50) ? ml_int(w, r, l, R_COUNTER, 4, 20) : -1;
            mm *m = ml_add(l); m->name = mname(w); m->t = t_ptr(w, &void_mt); m->h = HT_CAST; m->sib = s; m->sib2 = c; m->cs = cs; m->ncs = nc;
        }
        else if (w->cfg.hints && k < 97) { /* container_of: resolved when all structs are known */
            mm *m = ml_add(l); m->name = mname(w); m->h = HT_CONT; m->t = t_ptr(w, &void_mt);
        }
        else if (w->cfg.uptr && k < 99) { mm *m = ml_add(l); m->name = mname(w); m->t = t_ptr(w, rng_p(r, 50) ? &void_mt : w->decl); w->has_uptr = 1; }
        else if (rng_p(r, 50)) { /* callback which isn't set */
            int np = rng_i(r, 0, 3); mt **par = halloc(sizeof *par * (size_t)(np + 1)); const char **nm = halloc(sizeof *nm * (size_t)(np + 1));
            for (int q = 0; q < np; q++) { par[q] = rng_p(r, 50) ? rand_base(r) : t_ptr(w, st_ref(w, r)); nm[q] = rng_p(r, 50) ? aux_s(w, "p%d", q) : NULL; }
            mm *m = ml_add(l); m->name = mname(w); m->t = t_ptr(w, t_func(w, rng_p(r, 40) ? &void_mt : rand_base(r), np, par, nm, rng_p(r, 10) && np)); if (rng_p(r, 30)) m->t = t_wrap(w, 't', m->t, aux_s(w, "T%d", w->serial++));
        }
        else i -= rng_p(r, 50);
    }
    if (can_flex && rng_p(r, 12)) {
        mt *el = rng_p(r, 60) ? rand_base(r) : (by_value(w, r, upto) ?: t_base(4));
        if (w->cfg.hints && rng_p(r, 25)) { mm *m = ml_add(l); m->name = mname(w); m->t = t_arr(w, t_base(0), -1); m->h = HT_ZSTR; }
        else if (w->cfg.hints) {
            int c = ml_int(w, r, l, R_COUNTER, 4, 0); mm *m = ml_add(l); m->name = mname(w); m->t = t_arr(w, el, -1); m->h = HT_COUNT; m->sib = c;
        } else if (w->cfg.unhandled) { mm *m = ml_add(l); m->name = mname(w); m->t = t_arr(w, el, -1); w->has_unh = 1; }
    }
}
/* adds (or reuses) an integer member with a role */
static int ml_int(world_t *w, rng_t *r, mlist *l, role_t role, int64_t maxv, int reuse) {
    if (role == R_COUNTER && rng_p(r, reuse)) for (int i = 0; i < l->n; i++) if (l->m[i].role == R_COUNTER && l->m[i].maxv <= maxv) return i;
    mm *m = ml_add(l); m->name = mname(w); m->role = role; m->maxv = maxv;
    int k = rng_i(r, 0, 9);
    if (k == 0 && role == R_COUNTER) { m->t = t_base(10); m->maxv = 1; }
    else if (k == 1) { m->t = t_enum(w, r); while (m->t->size < 2) m->t = t_enum(w, r); }
    else if (k <= 3 && !w->cfg.nobits) { m->t = t_base(rng_i(r, 1, 9)); m->bits = rng_i(r, 0, 3); int64_t q = maxv * 2 + 1; while (q) { m->bits++; q >>= 1; } if (m->bits > (int)m->t->size * 8) m->bits = (int)m->t->size * 8; }
    else m->t = maybe_wrap(w, r, t_base(rng_i(r, 0, 9)), 0);
    return l->n - 1;
}
static mt *anon_struct(world_t *w, rng_t *r, int upto, int depth) {
    mt *t = mt_new(M_STRUCT, 0, 1); t->e = ent_new(w, 1); t->anon = 1; mlist l = {0};
    gen_members(w, r, &l, rng_i(r, 1, 3), upto, depth, 0);
    if (!l.n) { mm *m = ml_add(&l); m->name = mname(w); m->t = t_base(4); }
    return struct_layout(w, t, &l, r, 0);
}
static mt *gen_union(world_t *w, rng_t *r, int upto, mcase **pc, int *pnc) {
    mt *t = mt_new(M_UNION, 0, 1); t->e = ent_new(w, 1); mlist l = {0}; int n = rng_i(r, 1, 4);
    if (rng_p(r, 60)) t->name = t->e->name = aux_s(w, "U%d", w->serial++); else t->anon = 1;
    for (int i = 0; i < n; i++) {
        int k = rng_i(r, 0, 9); mt *e; mm *m = ml_add(&l); m->name = mname(w);
        if (k < 3) m->t = rand_base(r);
        else if (k < 5) m->t = t_arr(w, rng_p(r, 50) ? t_base(0) : rand_base(r), rng_i(r, 1, 4));
        else if (k < 7) m->t = t_ptr(w, ptr_elem(w, r));
        else if (k < 8 && (e = by_value(w, r, upto))) m->t = e;
        else if (k < 9 && w->cfg.hints) { m->t = t_ptr(w, t_base(0)); m->h = HT_ZSTR; }
        else { m->t = anon_struct(w, r, upto, 2); if (rng_p(r, 50)) m->name = NULL; }
    }
    struct_layout(w, t, &l, r, 1);
    /* cases; none: the value is the member number */
    *pc = NULL; *pnc = 0;
    int nc = t->nm; mcase *cs = halloc(sizeof *cs * (size_t)nc); int direct = rng_p(r, 30); int64_t v = rng_p(r, 30) ? 1 : 0;
    for (int i = 0; i < nc; i++) { cs[i].id = i; if (direct) { cs[i].v = i; continue; } cs[i].v = v; v += rng_i(r, 1, 3); if (t->m[i].name && rng_p(r, 60)) cs[i].name = t->m[i].name; }
    if (direct) cs[0].pe = (void *)1; /* mark: no case table is given to the hint */
    *pc = cs; *pnc = nc; return t;
}
static mt *struct_layout(world_t *w, mt *t, mlist *l, rng_t *r, int is_union) {
    t->nm = l->n; t->m = l->m; t->packed = !is_union && rng_p(r, 12);
    if (l->n > 1 && rng_p(r, 25)) { /* names which begin alike */
        int a = (int)rng_n(r, (uint64_t)l->n), b = (int)rng_n(r, (uint64_t)l->n), id = w->serial++; if (l->m[a].h != HT_NONE && l->m[a].sib >= 0 && l->m[a].sib < l->n) a = l->m[a].sib;
        if (a != b && l->m[a].name && l->m[b].name) l->m[b].name = aux_s(w, "%s_%d", l->m[a].name, id);
    }
    metac_entry_t *me = ent_new(w, l->n); size_t bit = 0, maxal = 1, maxsz = 0; int dw3 = rng_p(r, 30);
    for (int i = 0; i < l->n; i++) {
        mm *m = &l->m[i]; size_t al = t->packed ? 1 : m->t->align; if (!al) al = 1;
        if (is_union) bit = 0;
        me[i].kind = METAC_KND_member; me[i].name = (char *)m->name; me[i].member_info.type = m->t->e; m->e = &me[i];
        if (m->bits) {
            size_t tb = m->t->size * 8;
            if (!t->packed && bit / tb != (bit + (size_t)m->bits - 1) / tb) bit = (bit + tb - 1) / tb * tb;
            m->off = bit / 8; m->bitoff = (int)(bit % 8);
            me[i].member_info.p_bit_size = aux_u64(w, (uint64_t)m->bits);
            if (dw3 && bit / tb == (bit + (size_t)m->bits - 1) / tb) { /* dwarf 3: offset from the most significant bit of the storage unit */
                size_t unit = bit / tb * m->t->size;
                me[i].member_info.byte_offset = unit; me[i].member_info.p_byte_size = aux_u64(w, m->t->size);
                me[i].member_info.p_bit_offset = aux_u64(w, tb - (bit - unit * 8) - (size_t)m->bits);
            } else me[i].member_info.p_data_bit_offset = aux_u64(w, bit);
            bit += (size_t)m->bits;
        } else {
            size_t off = (bit + 7) / 8; off = (off + al - 1) / al * al;
            m->off = off; me[i].member_info.byte_offset = off; bit = (off + m->t->size) * 8;
            if (res(m->t)->k == M_FLEX) t->flex = 1;
        }
        if (al > maxal) maxal = al;
        if ((bit + 7) / 8 > maxsz) maxsz = (bit + 7) / 8;
    }
    t->align = maxal; t->size = (maxsz + maxal - 1) / maxal * maxal; if (!t->size) t->size = maxal;
    t->e->kind = is_union ? METAC_KND_union_type : METAC_KND_struct_type;
    t->e->structure_type_info.byte_size = t->size; t->e->structure_type_info.members_count = t->nm; t->e->structure_type_info.members = me;
    return t;
}

static void fix_containers(world_t *w, mt *t);
/* ---------- tag map ---------- */
struct cbctx { metac_value_event_handler_t h; void *ctx; void (*fr)(void *); };
static int cb_handler(metac_value_walker_hierarchy_t *p_h, metac_value_event_t *ev, void *c) {
    struct cbctx *x = c; sim_probe("hint callback");
    if (sim_cb_fault()) return -1;
    return x->h(p_h, ev, x->ctx);
}
static void cb_free(void *c) { struct cbctx *x = c; if (x->fr) x->fr(x->ctx); }
static void tag_one(world_t *w, mm *m, metac_entry_t *entry, int final) {
    metac_entry_tag_t tag = {0}; int ok = 1;
    switch (m->h) {
    case HT_COUNT: {
        tag.handler = metac_handle_count_by; tag.context_free_handler = metac_count_by_context_delete;
        tag.p_context = SUTQ(metac_new_count_by_context((char *)(m->bad == 1 ? m->badname : ((mm *)m->cs)->name))); ok = tag.p_context != NULL; break; }
    case HT_ZSTR: tag.handler = metac_handle_zero_ended_string; break;
    case HT_USEL: {
        struct metac_union_member_select_by_case cs[8]; int n = m->cs[0].pe ? 0 : m->ncs; memset(cs, 0, sizeof cs);
        for (int i = 0; i < n; i++) { cs[i].fld_val = (metac_num_t)m->cs[i].v; cs[i].union_fld_name = (char *)m->cs[i].name; cs[i].union_fld_id = m->cs[i].id; if (m->bad == 2 && i == m->badcase) { if (m->badname) cs[i].union_fld_name = (char *)m->badname; else { cs[i].union_fld_name = NULL; cs[i].union_fld_id = 1000; } } }
        tag.handler = metac_handle_union_member_select; tag.context_free_handler = metac_union_member_select_by_context_delete;
        tag.p_context = SUTQ(metac_new_union_member_select_by_context((char *)(m->bad == 1 ? m->badname : ((mm *)m->cont)->name), n ? cs : NULL, sizeof cs[0] * (size_t)n)); ok = tag.p_context != NULL; break; }
    case HT_UPERM:
        tag.handler = metac_handle_union_member_select; tag.context_free_handler = metac_union_member_select_by_context_delete;
        tag.p_context = SUTQ(metac_new_union_member_permanent_selection(m->bad == 3 ? (m->badcase ? 1000 : -1) : m->perm)); ok = tag.p_context != NULL; break;
    case HT_CAST: {
        struct metac_ptr_cast_case cs[8]; memset(cs, 0, sizeof cs);
        for (int i = 0; i < m->ncs; i++) { cs[i].fld_val = (metac_num_t)m->cs[i].v; cs[i].p_ptr_entry = m->cs[i].pe; }
        mm *sel = (mm *)m->cont, *cnt = (mm *)(uintptr_t)m->cont_off;
        tag.handler = metac_handle_ptr_cast; tag.context_free_handler = metac_ptr_cast_context_delete;
        tag.p_context = SUTQ(metac_new_ptr_cast_context(m->bad == 4 ? (char *)m->badname : cnt ? (char *)cnt->name : NULL, (char *)(m->bad == 1 ? m->badname : sel->name), cs, sizeof cs[0] * (size_t)m->ncs)); ok = tag.p_context != NULL; break; }
    case HT_CONT: {
        mt *pt = t_ptr(w, m->cont);
        tag.handler = metac_handle_container_of; tag.context_free_handler = metac_container_of_context_delete;
        tag.p_context = SUTQ(metac_new_container_of_context(m->cont_off, pt->e)); ok = tag.p_context != NULL; break; }
    default: return;
    }
    if (!ok) sim_fail("setup", "a hint context could not be created with memory available");
    if (m->wrapped_cb) {
        struct cbctx *x = halloc(sizeof *x); x->h = tag.handler; x->ctx = tag.p_context; x->fr = tag.context_free_handler;
        tag.handler = cb_handler; tag.p_context = x; tag.context_free_handler = cb_free;
    }
    int cat = 0; metac_tag_map_t *mp = w->map;
    if (w->cfg.mapkind == 1) cat = final || metac_entry_kind(entry) == METAC_KND_func_parameter ? 1 : 0;
    if (w->cfg.mapkind == 2) { if (!final && (m->name && (m->name[1] & 1))) mp = w->map2; else cat = 1; }
    int rc = SUTQ(metac_tag_map_set_tag(mp, cat, 0, entry, final ? METAC_TEO_final_entry : METAC_TEO_entry, &tag));
    if (rc != 0) sim_fail("setup", "setting a tag on an entry without one returned %d", rc);
}
/* a hint which can't be resolved */
static void spoil_hint(world_t *w, mt *t, mm *m) {
    rng_t *r = &w->r; int bad = 0; const char *nm = aux_s(w, "no%d", w->serial++);
    if (rng_p(r, 40)) for (int i = 0; i < t->nm; i++) { mt *q = res(t->m[i].t); if (t->m[i].name && &t->m[i] != m && (q->k == M_STRUCT || q->k == M_ARR || q->k == M_PTR || (q->k == M_BASE && !is_intlike(q)))) { nm = t->m[i].name; break; } }
    switch (m->h) {
    case HT_COUNT: bad = 1; break;
    case HT_USEL: bad = rng_p(r, 50) && !m->cs[0].pe ? 2 : 1; if (bad == 2) { m->badcase = (int)rng_n(r, (uint64_t)m->ncs); nm = rng_p(r, 50) ? aux_s(w, "no%d", w->serial++) : NULL; } break;
    case HT_UPERM: bad = 3; m->badcase = rng_p(r, 50); break;
    case HT_CAST: bad = rng_p(r, 50) ? 1 : 4; break;
    default: return;
    }
    m->bad = bad; m->badname = nm; sim_probe("world with a hint which can't be resolved");
}
static void tag_struct(world_t *w, mt *t) {
    for (int i = 0; i < t->nm; i++) {
        mm *m = &t->m[i]; mt *q = m->t;
        if (m->h != HT_NONE && !m->by_final) {
            mm c = *m; w->hinted[w->nhinted < 128 ? w->nhinted++ : 127] = m;
            if (w->cfg.badhints && rng_p(&w->r, 12)) spoil_hint(w, t, m);
            c = *m; m->wrapped_cb = c.wrapped_cb = w->cfg.faults_cb && rng_p(&w->r, 40);
            if (m->h == HT_COUNT) { c.cs = (mcase *)&t->m[m->sib]; c.cont = NULL; }
            if (m->h == HT_USEL) c.cont = (mt *)&t->m[m->sib];
            if (m->h == HT_CAST) { c.cont = (mt *)&t->m[m->sib]; c.cont_off = m->sib2 >= 0 ? (size_t)&t->m[m->sib2] : 0; }
            tag_one(w, &c, m->e, 0);
        }
        while (q->k == M_WRAP || q->k == M_ARR || q->k == M_FLEX) q = q->to;
        if ((q->k == M_STRUCT && q->anon) || q->k == M_UNION) if (!q->id) { q->id = 1; tag_struct(w, q); }
    }
}

/* a function; its parameters are the members of the structure `args` (without the variable ones) */
fn_t *fn_make(world_t *w, rng_t *r, int vakind, metac_flag_t (*(*acc)(size_t))(struct va_list_container *, void *)) {
    fn_t *f = halloc(sizeof *f); mlist l = {0}; int nb = w->cfg.nobits, n = rng_p(r, 10) ? rng_i(r, 0, 1) : rng_i(r, 1, 9); w->cfg.nobits = 1; mt *e; int wd = wide(w, r, 0);
    for (int i = 0; i < wd && i < 140; i++) ml_add(&l)->t = rand_base(r);
    n += l.n;
    while (l.n < n) {
        int k = rng_i(r, 0, 99); mm *m;
        if (k < 45) { m = ml_add(&l); m->t = maybe_wrap(w, r, rng_p(r, 50) ? t_base((int)rng_n(r, NBASE)) : rand_base(r), w->cfg.consts); }
        else if (k < 55) { m = ml_add(&l); m->t = maybe_wrap(w, r, t_enum(w, r), 0); }
        else if (k < 68) { m = ml_add(&l); m->t = maybe_wrap(w, r, t_ptr(w, ptr_elem(w, r)), 0); }
        else if (k < 78) { if (!w->cfg.hints) continue; int c = ml_int(w, r, &l, R_COUNTER, 5, 20); m = ml_add(&l); m->h = HT_COUNT; m->sib = c; m->t = maybe_wrap(w, r, t_ptr(w, ptr_elem(w, r)), 0); }
        else if (k < 84) { if (!w->cfg.hints) continue; m = ml_add(&l); m->h = HT_ZSTR; m->t = t_ptr(w, maybe_wrap(w, r, t_base(0), 0)); }
        else if (k < 97) { if (!(e = by_value(w, r, w->nst)) || e->size > 256) continue; m = ml_add(&l); m->t = maybe_wrap(w, r, e, 0); }
        else { if (!w->cfg.hints) continue; mcase *cs; int ncs; e = gen_union(w, r, w->nst, &cs, &ncs); if (e->size > 256) continue; fix_containers(w, e); m = ml_add(&l); m->t = e; m->h = HT_UPERM; m->perm = (int)rng_n(r, (uint64_t)e->nm); }
    }
    if (vakind) { /* the format in front of the variable part; a va_list may have others behind it */
        mm *m = ml_add(&l); m->t = t_ptr(w, rng_p(r, 40) ? t_wrap(w, 'c', t_base(0), NULL) : t_base(0)); if (w->cfg.hints) m->h = HT_ZSTR; f->vapos = l.n;
        if (vakind == 2) for (int i = rng_i(r, 0, 2); i > 0; i--) { m = ml_add(&l); m->t = maybe_wrap(w, r, t_base((int)rng_n(r, NBASE)), 0); }
    }
    for (int i = 0; i < l.n; i++) l.m[i].name = mname(w);
    w->cfg.nobits = nb;
    f->args = mt_new(M_STRUCT, 0, 1); f->args->e = ent_new(w, 1); f->args->anon = 1; struct_layout(w, f->args, &l, r, 0);
    f->vakind = vakind; f->np = l.n + (vakind != 0); f->e = ent_new(w, 1); f->par = f->np ? ent_new(w, f->np) : NULL; f->sub = rng_p(r, 15);
    f->vahint = vakind && w->map && rng_p(r, 90); f->vawrapped = f->vahint && w->cfg.faults_cb && rng_p(r, 50);
    for (int i = 0, k = 0; i < f->np; i++) {
        f->par[i].kind = METAC_KND_func_parameter;
        if (vakind && i == f->vapos) { if (vakind == 1) f->par[i].func_parameter_info.unspecified_parameters = 1; else { f->par[i].name = (char *)mname(w); f->par[i].func_parameter_info.type = &pt_va_list; } continue; }
        mm *m = &l.m[k++]; f->par[i].name = (char *)m->name; f->par[i].func_parameter_info.type = m->t->e;
        mt *q = res(m->t); if (q->k == M_STRUCT || q->k == M_UNION) q->e->structure_type_info.p_va_arg_fn = acc(q->size);
    }
    mt *ret = rng_p(r, 25) ? &void_mt : rng_p(r, 50) ? rand_base(r) : rng_p(r, 50) ? t_ptr(w, st_ref(w, r)) : t_enum(w, r);
    if (f->sub) { f->e->kind = METAC_KND_subroutine_type; f->e->subroutine_type_info.type = ret->e; f->e->subroutine_type_info.parameters_count = f->np; f->e->subroutine_type_info.parameters = f->par; }
    else { f->e->kind = METAC_KND_subprogram; f->name = f->e->name = aux_s(w, "fn%d", w->serial++); f->e->subprogram_info.type = ret->e; f->e->subprogram_info.parameters_count = f->np; f->e->subprogram_info.parameters = f->par; }
    if (w->ntops >= 32) sim_harness_error("too many tops");
    w->topfn |= 1u << w->ntops; f->top = w->ntops; w->tops[w->ntops] = f->args; w->tope[w->ntops++] = f->args->e;
    if (w->map) {
        tag_struct(w, f->args);
        for (int i = 0, k = 0; i < f->np; i++) {
            if (vakind && i == f->vapos) {
                if (!f->vahint) continue;
                metac_entry_tag_t tag = { .handler = metac_handle_printf_format };
                if (f->vawrapped) { struct cbctx *x = halloc(sizeof *x); x->h = tag.handler; tag.handler = cb_handler; tag.p_context = x; tag.context_free_handler = cb_free; }
                int rc = SUTQ(metac_tag_map_set_tag(w->map, w->cfg.mapkind ? 1 : 0, 0, &f->par[i], METAC_TEO_entry, &tag)); if (rc) sim_fail("setup", "setting a tag of a parameter returned %d", rc);
                continue;
            }
            mm c = f->args->m[k++]; c.wrapped_cb = w->cfg.faults_cb && rng_p(r, 40);
            if (c.h == HT_COUNT) { c.cs = (mcase *)&f->args->m[c.sib]; c.cont = NULL; }
            tag_one(w, &c, &f->par[i], 0);
        }
    }
    return f;
}
/* ---------- world ---------- */
static void fix_containers(world_t *w, mt *t) {
    for (int i = 0; i < t->nm; i++) {
        mm *m = &t->m[i]; mt *q = m->t;
        if (m->h == HT_CONT) { /* pointer to some member of some struct */
            int ok = 0;
            for (int tr = 0; tr < 12 && !ok; tr++) {
                mt *c = st_ref(w, &w->r); if (!c->nm || c->flex) continue; mm *x = &c->m[rng_n(&w->r, (uint64_t)c->nm)]; mt *xt = res(x->t);
                if (x->bits || !x->name || x->h != HT_NONE || (xt->k == M_STRUCT && xt->anon) || (xt->k != M_BASE && xt->k != M_STRUCT && xt->k != M_PTR)) continue; /* a type without a name can lead to itself only here, no program can say that */
                m->cont = c; m->cont_off = x->off; m->t->to = x->t; m->t->e->pointer_type_info.type = x->t->e; ok = 1;
            }
            if (!ok) { m->h = HT_NONE; m->t->to = t_base(4); m->t->e->pointer_type_info.type = t_base(4)->e; }
        }
        while (q->k == M_WRAP || q->k == M_ARR || q->k == M_FLEX) q = q->to;
        if ((q->k == M_STRUCT && q->anon) || q->k == M_UNION) if (q->id != 7) { q->id = 7; fix_containers(w, q); q->id = 0; }
    }
}
world_t *world_make(rng_t *r, const wcfg_t *cfg) {
    world_t *w = halloc(sizeof *w); w->cfg = *cfg; w->r = *r; w->maxents = cfg->maxents ? cfg->maxents : 4000; w->ents = halloc(sizeof(metac_entry_t) * (size_t)w->maxents);
    if (w->cfg.mapkind == 0 || !w->cfg.hints) w->cfg.zfinal = 0; /* such a map has no level for final types */
    w->nameseed = rng_u64(&w->r); w->maxaux = cfg->maxents ? (size_t)cfg->maxents * 40 : 3 << 16; w->aux = halloc(w->maxaux); w->serial = 10;
    for (int i = 0; i < NBASE; i++) t_base(i);
    mt *d = mt_new(M_DECL, 0, 1); d->e = ent_new(w, 1); d->e->kind = METAC_KND_struct_type; d->e->name = aux_s(w, "hidden"); d->name = d->e->name; d->e->declaration = 1; w->decl = d;
    w->zptr = t_ptr(w, t_base(0));
    w->nst = rng_i(&w->r, 1, cfg->max_structs ? cfg->max_structs : 5);
    for (int i = 0; i < w->nst; i++) { mt *t = w->st[i] = mt_new(M_STRUCT, 0, 1); t->e = ent_new(w, 1); t->e->kind = METAC_KND_struct_type; t->name = t->e->name = aux_s(w, "S%d", i); }
    for (int i = 0; i < w->nst; i++) {
        mlist l = {0}; if (!cfg->maxents) for (int q = wide(w, &w->r, 0); q > 0; q--) { mm *m = ml_add(&l); m->name = mname(w); m->t = rand_base(&w->r); } gen_members(w, &w->r, &l, rng_i(&w->r, 1, cfg->max_members ? cfg->max_members : 7), i, 0, 1);
        int usable = 0; for (int q = 0; q < l.n; q++) if (res(l.m[q].t)->k != M_FLEX) usable = 1;
        if (!usable) { int fl = l.n; mm *m = ml_add(&l); m->name = mname(w); m->t = t_base(4); if (fl) { mm x = l.m[0]; l.m[0] = l.m[l.n - 1]; l.m[l.n - 1] = x; } }
        /* counters may stand behind what they count */
        if (rng_p(&w->r, 30)) for (int q = 0; q + 1 < l.n; q++) if (l.m[q].role != R_PLAIN && res(l.m[q + 1].t)->k != M_FLEX) {
            mm x = l.m[q]; l.m[q] = l.m[q + 1]; l.m[q + 1] = x;
            for (int z = 0; z < l.n; z++) { if (l.m[z].sib == q) l.m[z].sib = q + 1; else if (l.m[z].sib == q + 1) l.m[z].sib = q;
                if (l.m[z].sib2 == q) l.m[z].sib2 = q + 1; else if (l.m[z].sib2 == q + 1) l.m[z].sib2 = q; }
            q++;
        }
        if (i && !cfg->maxents && rng_p(&w->r, 2)) { l.n = 0; sim_probe("structure without members"); }
        struct_layout(w, w->st[i], &l, &w->r, 0);
    }
    for (int i = 0; i < w->nst; i++) fix_containers(w, w->st[i]);
    /* top level values */
    for (int i = 0; i < w->nst && w->ntops < 8; i++) {
        for (int ptr = 0; ptr < 2; ptr++) {
            mt *t = w->st[i]; if (!ptr && t->flex) continue;
            if (ptr) t = t_ptr(w, t); else if (rng_p(&w->r, 30)) t = t_arr(w, t, rng_i(&w->r, 1, 2));
            t = maybe_wrap(w, &w->r, t, 0); w->tops[w->ntops] = t; w->tope[w->ntops] = t->e;
            if (rng_p(&w->r, 60)) { metac_entry_t *v = ent_new(w, 1); v->kind = METAC_KND_variable; v->name = aux_s(w, "v%d", w->ntops); v->variable_info.type = t->e; w->tope[w->ntops] = v; }
            w->ntops++;
        }
    }
    { mt *t = rng_p(&w->r, 50) ? rand_base(&w->r) : t_arr(w, rand_base(&w->r), rng_i(&w->r, 1, 4)); w->tops[w->ntops] = t; w->tope[w->ntops++] = t->e; }
    if (cfg->hints) { mt *t = t_ptr(w, t_base(0)); metac_entry_t *v = ent_new(w, 1); v->kind = METAC_KND_variable; v->name = aux_s(w, "vs"); v->variable_info.type = t->e;
        w->tops[w->ntops] = t; w->tope[w->ntops] = v; w->toph[w->ntops++] = HT_ZSTR; }
    /* tag map */
    if (cfg->hints) {
        metac_tag_map_entry_category_mask_t all = 15, mem = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member);
        w->map = w->map2 = NULL;
        if (w->cfg.mapkind == 0) w->map = SUTQ(metac_new_tag_map(NULL));
        else if (w->cfg.mapkind == 1) { metac_tag_map_entry_t me[2] = { { mem }, { (metac_tag_map_entry_category_mask_t)(all) } }; w->map = SUTQ(metac_new_tag_map_ex(2, me, NULL)); }
        else { w->map2 = SUTQ(metac_new_tag_map(NULL)); metac_tag_map_entry_t me[2] = { { all, w->map2 }, { all } }; w->map = SUTQ(metac_new_tag_map_ex(2, me, NULL)); }
        if (!w->map) sim_fail("setup", "no tag map with memory available");
        for (int i = 0; i < w->nst; i++) tag_struct(w, w->st[i]);
        mm z = { .h = HT_ZSTR }; if (w->cfg.mapkind == 1) { /* category 1 is for variables and final types */ }
        if (w->cfg.zfinal) tag_one(w, &z, w->zptr->e, 1);
        for (int i = 0; i < w->ntops; i++) if (w->toph[i] == HT_ZSTR) {
            metac_entry_tag_t tag = { .handler = metac_handle_zero_ended_string };
            int rc = SUTQ(metac_tag_map_set_tag(w->map, w->cfg.mapkind ? 1 : 0, 0, w->tope[i], METAC_TEO_entry, &tag)); if (rc) sim_fail("setup", "set tag on a variable returned %d", rc);
        }
    }
    for (int i = 0; i < w->nst; i++) w->st[i]->id = 0;
    mt **par = halloc(sizeof *par); const char **pn = halloc(sizeof *pn); par[0] = t_base(4); pn[0] = NULL; /* struct ops { T *a; int (*fn)(int); T *b; } */
    mt *ip = t_ptr(w, t_base(4)), *fp = t_ptr(w, t_func(w, t_base(4), 1, par, pn, 0)); metac_entry_t *me = ent_new(w, 3); w->cbs = ent_new(w, 1);
    for (int i = 0; i < 3; i++) { me[i].kind = METAC_KND_member; me[i].name = aux_s(w, "cb%d", i); me[i].member_info.type = (i == 1 ? fp : ip)->e; me[i].member_info.byte_offset = i * 8; me[i].parents_count = 0; }
    w->cbs->kind = METAC_KND_struct_type; w->cbs->name = aux_s(w, "ops"); w->cbs->structure_type_info.byte_size = 24; w->cbs->structure_type_info.members_count = 3; w->cbs->structure_type_info.members = me;
    *r = w->r; return w;
}
/* one more top level type: n levels of pointers, arrays, structures or names around a number */
static mt *nest_struct(world_t *w, rng_t *r, mt *t) {
    mlist l = {0}; if (rng_p(r, 30)) { mm *m = ml_add(&l); m->name = mname(w); m->t = rand_base(r); }
    mm *m = ml_add(&l); m->name = mname(w); m->t = t; if (rng_p(r, 15)) { m = ml_add(&l); m->name = mname(w); m->t = rand_base(r); }
    mt *s = mt_new(M_STRUCT, 0, 1); s->e = ent_new(w, 1); if (rng_p(r, 70)) s->name = s->e->name = aux_s(w, "N%d", w->serial++); else s->anon = 1; return struct_layout(w, s, &l, r, 0);
}
int world_nest(world_t *w, rng_t *r, int kind, int n) {
    mt *t = rng_p(r, 50) ? t_base(4) : rand_base(r);
    for (int i = 0; i < n; i++) switch (kind == 4 ? (int)rng_n(r, 4) : kind) {
        case 0: t = t_ptr(w, t); break;
        case 1: t = t_arr(w, t, 1); break;
        case 2: t = nest_struct(w, r, t); break;
        default: t = t_wrap(w, 't', t, aux_s(w, "T%d", w->serial++)); break;
    }
    if (w->ntops >= 32) sim_harness_error("too many tops");
    w->tops[w->ntops] = t; w->tope[w->ntops] = t->e; return w->ntops++;
}
void world_free(world_t *w) { if (w->map) SUTQV(metac_tag_map_delete(w->map)); if (w->map2) SUTQV(metac_tag_map_delete(w->map2)); w->map = w->map2 = NULL; }
uint64_t world_hash(world_t *w) {
    uint64_t h = 1469598103934665603ull; const uint64_t *p = (const uint64_t *)w->ents; size_t n = sizeof(metac_entry_t) * (size_t)w->nents / 8;
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
    p = (const uint64_t *)w->aux; for (size_t i = 0; i < w->naux / 8; i++) h = (h ^ p[i]) * 0x100000001b3ull;
    return h;
}
mt *t_rand(world_t *w, int depth) {
    rng_t *r = &w->r; int k = rng_i(r, 0, depth <= 0 ? 3 : 11);
    switch (k) {
    case 0: return rand_base(r);
    case 1: return st_ref(w, r);
    case 2: return t_enum(w, r);
    case 3: return rng_p(r, 50) ? w->decl : rand_base(r);
    case 4: case 5: { mt *to = rng_p(r, 15) ? (rng_p(r, 40) ? t_wrap(w, rng_p(r, 50) ? 'c' : 'v', &void_mt, NULL) : &void_mt) : t_rand(w, depth - 1); mt *p = t_ptr(w, to); return rng_p(r, 12) ? t_wrap(w, 'r', p, NULL) : p; }
    case 6: { mt *e = t_rand(w, depth - 1); mt *q = res(e); if (q->k == M_FUNC || q->k == M_DECL || q->k == M_FLEX || (q->k == M_STRUCT && q->flex)) return t_ptr(w, e); return t_arr(w, e, rng_p(r, 15) ? -1 : rng_p(r, 12) ? rng_i(r, 10, rng_p(r, 50) ? 300 : 100000) : rng_p(r, 4) && e->size && e->size < 1 << 16 ? (int64_t)(1ull << rng_i(r, 31, 45)) + rng_i(r, -2, 9) : rng_i(r, 1, 9)); }
    case 7: { mt *e = t_rand(w, depth - 1); return res(e)->k == M_FUNC || e->k == M_ARR || e->k == M_FLEX ? e : t_wrap(w, rng_p(r, 60) ? 'c' : 'v', e, NULL); }
    case 8: return t_wrap(w, 't', t_rand(w, depth - 1), aux_s(w, "T%d", w->serial++));
    case 9: return anon_struct(w, r, w->nst, 1);
    case 10: { mcase *c; int n; return gen_union(w, r, w->nst, &c, &n); }
    default: {
        int np = wide(w, r, rng_i(r, 0, 3)); mt **par = halloc(sizeof *par * (size_t)(np + 1)); const char **nm = halloc(sizeof *nm * (size_t)(np + 1));
        for (int i = 0; i < np; i++) { do par[i] = t_rand(w, np > 9 ? 0 : depth - 1); while (res(par[i])->k == M_FUNC || res(par[i])->k == M_DECL); if (rng_p(r, 60)) nm[i] = aux_s(w, "p%d", i); }
        mt *ret = rng_p(r, 30) ? &void_mt : t_rand(w, depth - 1); if (res(ret)->k == M_FUNC || res(ret)->k == M_ARR || res(ret)->k == M_FLEX || res(ret)->k == M_DECL) ret = t_ptr(w, ret);
        return t_ptr(w, t_func(w, ret, np, par, nm, np && rng_p(r, 25)));
    }
    }
}

/* ---------- raw data ---------- */
int64_t rd_int(mt *t, const char *a, int bitoff, int bits) {
    t = res(t); int n = bits ? bits : (int)t->size * 8; uint64_t v = 0; const unsigned char *u = (const unsigned char *)a;
    for (int i = 0; i < n; i++) { int b = bitoff + i; if (u[b / 8] >> (b % 8) & 1) v |= 1ull << i; }
    int sgn = t->k == M_ENUM ? 0 : BASES[t->base].cls == 's';
    if (t->k == M_ENUM) { for (int i = 0; i < t->ne; i++) if (t->ev[i] < 0) sgn = 1; }
    if (sgn && n < 64 && (v >> (n - 1) & 1)) v |= ~0ull << n;
    return (int64_t)v;
}
void wr_int(mt *t, char *a, int bitoff, int bits, int64_t v) {
    t = res(t); int n = bits ? bits : (int)t->size * 8; unsigned char *u = (unsigned char *)a;
    for (int i = 0; i < n; i++) { int b = bitoff + i; if ((uint64_t)v >> i & 1) u[b / 8] |= (unsigned char)(1u << (b % 8)); else u[b / 8] &= (unsigned char)~(1u << (b % 8)); }
}

int view_max = 2500, view_depth = 45;
/* ---------- objects ---------- */
typedef struct { mt *t; char *a; int n; } reg_t;
static void reg_add(obj_t *o, mt *t, char *a, int n) {
    if (o->nreg == o->capreg) { int c = o->capreg * 2 + 32; reg_t *p = halloc(sizeof *p * (size_t)c); if (o->nreg) memcpy(p, o->reg, sizeof *p * (size_t)o->nreg); o->reg = p; o->capreg = c; }
    ((reg_t *)o->reg)[o->nreg++] = (reg_t){ t, a, n };
}
char *obj_block(obj_t *o, size_t n) {
    char *a = heap_obj_alloc(n);
    if (o->nb == o->capb) { int c = o->capb * 2 + 16; oblk_t *p = halloc(sizeof *p * (size_t)c); if (o->nb) memcpy(p, o->b, sizeof *p * (size_t)o->nb); o->b = p; o->capb = c; }
    o->b[o->nb++] = (oblk_t){ a, n, NULL }; return a;
}
static void fill(obj_t *o, rng_t *r, mt *t, char *a, int bitoff, int bits, int depth, int in_block, mm *via);
static double rfloat(rng_t *r) { double d = (double)rng_i(r, 1, 4000000) / (rng_p(r, 50) ? 1 : 64); return rng_p(r, 40) ? -d : d; }
static int64_t rint64(rng_t *r) { switch (rng_n(r, 5)) { case 0: return rng_i(r, 0, 9); case 1: return rng_i(r, -128, 127); case 2: return rng_i(r, 32, 126); case 3: return -(int64_t)rng_n(r, 1u << 30); default: return (int64_t)rng_u64(r); } }
long double rldbl(rng_t *r, size_t sz) { /* huge, tiny, with all bits used, infinite, negative zero */
    long double d = rfloat(r); int e = sz == 4 ? 110 : sz == 8 ? 1000 : 9000;
    switch (rng_i(r, 0, 39)) { case 0: case 1: return ldexpl(d, rng_i(r, -e, e)); case 2: case 3: return ldexpl((long double)rng_u64(r), -rng_i(r, 0, 64)) * (d < 0 ? -1 : 1); case 4: return rng_p(r, 50) ? (d < 0 ? -0.0L : 0.0L) : d < 0 ? -INFINITY : INFINITY; default: return d; }
}
static char *new_target(obj_t *o, rng_t *r, mt *el, int n, int depth) {
    mt *q = res(el); size_t sz = el->size * (size_t)n; int fc = 0;
    if (n > 0 && o->sharing && !(q->k == M_STRUCT && q->flex) && rng_p(r, 12)) { n += rng_i(r, 1, 3); sz = el->size * (size_t)n; } /* more behind it, others may lead there */
    if (q->k == M_STRUCT && q->flex) { /* n is 1 here */
        mm *f = &q->m[q->nm - 1]; mm *c = f->sib >= 0 ? &q->m[f->sib] : NULL; fc = (int)rng_n(r, (uint64_t)(c ? (c->maxv < 4 ? c->maxv : 4) : 3) + 1); if (f->h == HT_ZSTR) fc = fc * 3 + 1;
        size_t need = f->off + res(f->t)->to->size * (size_t)fc; if (need > sz) sz = need;
    }
    char *a = obj_block(o, sz);
    for (size_t i = 0; i < sz; i++) a[i] = (char)rng_u64(r);
    for (int i = 0; i < n; i++) if ((o->sharing || (o->chainlen && !i)) && (q->k == M_STRUCT || q->k == M_BASE || q->k == M_PTR || q->k == M_ENUM)) reg_add(o, q, a + (size_t)i * el->size, n - i);
    for (int i = 0; i < n; i++) { o->flexcount = fc; fill(o, r, el, a + (size_t)i * el->size, 0, 0, depth + 1, 1, NULL); }
    return a;
}
static char *share(obj_t *o, rng_t *r, mt *el, int n) {
    reg_t *g = o->reg; mt *q = res(el); int c = 0, pick = -1;
    for (int i = 0; i < o->nreg; i++) if (g[i].t == q && g[i].n >= n) { c++; if (rng_n(r, (uint64_t)c) == 0) pick = i; }
    return pick < 0 ? NULL : g[pick].a;
}
static char *new_string(obj_t *o, rng_t *r) {
    reg_t *z = o->zreg;
    if (o->sharing && o->nzreg && rng_p(r, 25)) { reg_t *x = &z[rng_n(r, (uint64_t)o->nzreg)]; o->shared = 1; return x->a + (rng_p(r, 50) ? 0 : rng_n(r, (uint64_t)x->n)); }
    int n = rng_p(r, 10) ? 0 : rng_p(r, 5) ? rng_i(r, 60, 300) : rng_i(r, 1, 12); char *a = obj_block(o, (size_t)n + 1); int odd = rng_p(r, 12);
    static const char esc[] = "\n\r\t\v\b\f\a\\'\"?%";
    for (int i = 0; i < n; i++) { int c = rng_p(r, 12) ? esc[rng_n(r, sizeof esc - 1)] : rng_i(r, 32, 126); if (odd && rng_p(r, 20)) c = rng_i(r, 1, 255); a[i] = (char)c; }
    a[n] = 0;
    if (o->nzreg == o->capzreg) { int c = o->capzreg * 2 + 16; reg_t *p = halloc(sizeof *p * (size_t)c); if (o->nzreg) memcpy(p, z, sizeof *p * (size_t)o->nzreg); o->zreg = z = p; o->capzreg = c; }
    z[o->nzreg++] = (reg_t){ NULL, a, n + 1 }; return a;
}
/* pointer to n elements of el, or NULL */
static char *target(obj_t *o, rng_t *r, mt *el, int n, int depth) {
    mt *q = res(el); int canshare = o->sharing && rng_p(r, 40);
    if (o->chainlen && n > 0 && (q->k == M_STRUCT || q->k == M_PTR)) { /* long objects: the first pointer which can goes on */
        if (o->chain > 0) { o->chain--; return new_target(o, r, el, n, 0); }
        if (!o->ended) { o->ended = 1; if (o->chainlen & 1) { char *s = share(o, r, el, n); if (s) { o->shared = 1; return s; } } }
    }
    o->budget--;
    if (rng_p(r, 12)) return NULL;
    if (canshare || depth > 5 || o->budget < 0) { char *s = o->sharing ? share(o, r, el, n) : NULL; if (s) { o->shared = 1; return s; } if (depth > 5 || o->budget < 0) return NULL; }
    if (q->k == M_UNION || q->k == M_VOID || q->k == M_DECL || q->k == M_FUNC) return NULL;
    return new_target(o, r, el, n, depth);
}
static void fill_struct(obj_t *o, rng_t *r, mt *t, char *a, int depth, int in_block) {
    int fc = o->flexcount; o->flexcount = 0;
    for (int i = 0; i < t->nm; i++) {
        mm *m = &t->m[i]; mt *q = res(m->t); char *f = a + m->off;
        if (m->role == R_COUNTER) {
            int64_t mx = m->maxv; for (int z = 0; z < t->nm; z++) if (t->m[z].h == HT_COUNT && t->m[z].sib == i) {
                mt *zt = res(t->m[z].t); if (zt->k == M_PTR && res(zt->to)->k == M_STRUCT && res(zt->to)->flex && mx > 1) mx = 1; }
            for (int z = 0; z < t->nm; z++) if (t->m[z].h == HT_CAST && t->m[z].sib2 == i) for (int c = 0; c < t->m[z].ncs; c++) { mt *ct = res(t->m[z].cs[c].to); if (ct->k == M_STRUCT && ct->flex && mx > 1) mx = 1; }
            int64_t v = rng_p(r, 50) ? (mx < 2 ? mx : rng_i(r, 1, 2)) : (int64_t)rng_n(r, (uint64_t)mx + 1);
            if (!o->chainlen && !o->wide && o->wideok && !m->bits && m->maxv > 1 && res(m->t)->k == M_BASE && res(m->t)->base != 10 && rng_p(r, 3)) { /* rarely many elements: more than fits some narrow number */
                int ok = 0; for (int z = 0; z < t->nm; z++) if (t->m[z].h == HT_COUNT && t->m[z].sib == i) { mt *zt = res(t->m[z].t); if (zt->k != M_PTR || (res(zt->to)->k != M_BASE && res(zt->to)->k != M_ENUM)) { ok = -1; break; } ok = 1; } else if (t->m[z].sib2 == i || t->m[z].sib == i) { ok = -1; break; }
                if (ok == 1) { int b = res(m->t)->base; v = b == 0 ? rng_i(r, 100, 127) : b == 1 ? rng_i(r, 126, 255) : rng_p(r, 60) ? rng_i(r, 254, 300) : rng_i(r, 300, 1100); o->wide = 1; sim_probe("many elements"); }
            }
            if (o->chainlen && v < 1) v = 1; if (o->chainlen && v > 2) v = 2;
            if (t->flex && t->m[t->nm - 1].sib == i) v = fc;
            wr_int(m->t, f, m->bitoff, m->bits, v);
        } else if (m->role == R_SELECTOR) { wr_int(m->t, f, m->bitoff, m->bits, m->cs[o->chainlen ? mix64(o->seed ^ (uint64_t)(m->name[1] * 31 + m->name[2])) % (uint64_t)m->ncs : rng_n(r, (uint64_t)m->ncs)].v); }
        (void)q;
    }
    for (int i = 0; i < t->nm; i++) {
        mm *m = &t->m[i]; mt *q = res(m->t); char *f = a + m->off, *p;
        if (m->role == R_COUNTER || m->role == R_SELECTOR) continue;
        switch (m->h) {
        case HT_NONE:
            if (q->k == M_FLEX) { for (int z = 0; z < fc; z++) fill(o, r, q->to, f + (size_t)z * q->to->size, 0, 0, depth, in_block, NULL); break; }
            if (in_block && o->sharing && !m->bits && (q->k == M_BASE || q->k == M_STRUCT || q->k == M_PTR)) reg_add(o, q, f, 1);
            fill(o, r, m->t, f, m->bitoff, m->bits, depth, in_block, m); break;
        case HT_COUNT: {
            int n = (int)rd_int(t->m[m->sib].t, a + t->m[m->sib].off, t->m[m->sib].bitoff, t->m[m->sib].bits);
            if (q->k == M_FLEX) { for (int z = 0; z < n; z++) fill(o, r, q->to, f + (size_t)z * q->to->size, 0, 0, depth, in_block, NULL); break; }
            p = target(o, r, q->to, n, depth); memcpy(f, &p, 8); break; }
        case HT_ZSTR: if (q->k == M_FLEX) { for (int z = 0; z < fc; z++) f[z] = z == fc - 1 ? 0 : (char)rng_i(r, 33, 126); break; }
            p = rng_p(r, 15) ? NULL : new_string(o, r); memcpy(f, &p, 8); break;
        case HT_USEL: case HT_UPERM: {
            int id = m->perm;
            if (m->h == HT_USEL) { int64_t v = rd_int(t->m[m->sib].t, a + t->m[m->sib].off, t->m[m->sib].bitoff, t->m[m->sib].bits); for (int z = 0; z < m->ncs; z++) if (m->cs[z].v == v) { id = m->cs[z].id; break; } }
            for (size_t z = 0; z < q->size; z++) f[z] = (char)rng_u64(r);
            mm *s = &q->m[id]; o->flexcount = 0;
            if (s->h == HT_ZSTR) { p = rng_p(r, 15) ? NULL : new_string(o, r); memcpy(f, &p, 8); } else fill(o, r, s->t, f, s->bitoff, s->bits, depth, in_block, s);
            break; }
        case HT_CAST: {
            int64_t v = rd_int(t->m[m->sib].t, a + t->m[m->sib].off, t->m[m->sib].bitoff, t->m[m->sib].bits); int n = 1; mt *el = NULL;
            if (m->sib2 >= 0) n = (int)rd_int(t->m[m->sib2].t, a + t->m[m->sib2].off, t->m[m->sib2].bitoff, t->m[m->sib2].bits);
            for (int z = 0; z < m->ncs; z++) if (m->cs[z].v == v) { el = m->cs[z].to; break; }
            p = target(o, r, el, n, depth); memcpy(f, &p, 8); break; }
        case HT_CONT: p = target(o, r, m->cont, 1, depth); if (p) p += m->cont_off; memcpy(f, &p, 8); break;
        }
    }
}
static void fill(obj_t *o, rng_t *r, mt *t, char *a, int bitoff, int bits, int depth, int in_block, mm *via) {
    t = res(t);
    switch (t->k) {
    case M_BASE: {
        char c = BASES[t->base].cls;
        if (c == 's' || c == 'u') { int64_t v = rint64(r); wr_int(t, a, bitoff, bits, v); }
        else if (c == 'b') wr_int(t, a, bitoff, bits, rng_p(r, 50));
        else { /* the padding of a long double keeps what it has */
            int parts = c == 'c' ? 2 : 1; size_t sz = t->size / (size_t)parts;
            for (int i = 0; i < parts; i++) { long double l = rldbl(r, sz); double d = (double)l; if (sz == 4) { float f = (float)l; memcpy(a + 4 * i, &f, 4); } else if (sz == 8) memcpy(a + 8 * i, &d, 8); else memcpy(a + 16 * i, &l, 10); }
        }
        break; }
    case M_ENUM: {
        int neg = 0; for (int i = 0; i < t->ne; i++) if (t->ev[i] < 0) neg = 1;
        int64_t v = rng_p(r, 85) ? t->ev[rng_n(r, (uint64_t)t->ne)] : rng_i(r, neg ? -3 : 0, 60); wr_int(t, a, bitoff, bits, v); break; }
    case M_ARR:
        if (res(t->to)->k == M_BASE && res(t->to)->base == 0 && rng_p(r, 60)) { int l = rng_i(r, 0, (int)t->n); for (int i = 0; i < t->n; i++) a[i] = i < l ? (char)rng_i(r, 32, 126) : 0; if (rng_p(r, 15)) a[rng_n(r, (uint64_t)t->n)] = 0; break; }
        for (int i = 0; i < t->n; i++) { if (in_block && o->sharing && !via) {} fill(o, r, t->to, a + (size_t)i * t->to->size, 0, 0, depth, in_block, NULL); if (in_block && o->sharing && (res(t->to)->k == M_BASE || res(t->to)->k == M_STRUCT)) reg_add(o, res(t->to), a + (size_t)i * t->to->size, 1); }
        break;
    case M_STRUCT: fill_struct(o, r, t, a, depth, in_block); break;
    case M_UNION: for (size_t i = 0; i < t->size; i++) a[i] = (char)rng_u64(r); break; /* unhandled union: plain bytes */
    case M_PTR: {
        mt *q = res(t->to); char *p = NULL;
        if (q->k == M_VOID || q->k == M_DECL) { if (rng_p(r, 60)) { p = obj_block(o, 1); *p = (char)rng_u64(r); } }
        else p = target(o, r, t->to, 1, depth);
        memcpy(a, &p, 8); break; }
    default: break;
    }
}
static void obj_build(obj_t *o, int sharing, uint64_t salt) {
    rng_t r = rng_make(o->seed, salt, 77); o->nb = 0; o->nreg = 0; o->nzreg = 0; o->shared = 0; o->sharing = sharing; o->flexcount = 0; o->budget = 18; o->wide = 0; o->oddloop = 0; o->chain = o->chainlen; o->ended = 0;
    o->topsize = o->t->size; o->top = obj_block(o, o->topsize);
    for (size_t i = 0; i < o->topsize; i++) o->top[i] = (char)rng_u64(&r);
    if (o->w->toph[o->topi] == HT_ZSTR) { char *p = rng_p(&r, 10) ? NULL : new_string(o, &r); memcpy(o->top, &p, 8); }
    else {
        mt *q = res(o->t); o->intop = 0; int in = sharing && !(o->w->topfn >> o->topi & 1) && rng_p(&r, 50);
        if (in && (q->k == M_STRUCT || q->k == M_BASE || q->k == M_PTR)) reg_add(o, q, o->top, 1);
        fill(o, &r, o->t, o->top, 0, 0, 0, in, NULL);
    }
}
/* what the library can work with: see DESIGN.md "domain" */
typedef struct { char *lo, *hi; oblk_t *b; } rgn_t;
int obj_in_domain(obj_t *o) {
    vinfo_t vi = {0}; vi.max = view_max; vn *v = obj_view(o, &vi);
    if (!v || vi.overflow || (vi.bad && !o->w->cfg.badhints) || vi.badloop || vi.maxdepth > view_depth) return 0; o->depth = vi.maxdepth; o->nodes = vi.n; o->ptrs = vi.ptrs;
    /* collect reached ranges */
    int cap = 0, n = 0; rgn_t *g = NULL; vn **st = halloc(sizeof *st * (size_t)(vi.n + 4)); int sp = 0; st[sp++] = v;
    g = halloc(sizeof *g * (size_t)(vi.n + 4)); (void)cap;
    while (sp) {
        vn *x = st[--sp];
        if (x->t->k == M_PTR && x->st == V_LOOP) {
            vn *an = x->loop; if (an->st != V_TGT) return 0;
            if (x->tx > an->tx) return 0;
            continue;
        }
        if (x->t->k == M_PTR && x->st == V_TGT) {
            vn *c = x->ch[0]; hblk_t *h = heap_find(c->a); if (!h || !h->live) return 0;
            if (c->a >= o->top && c->a < o->top + o->topsize) { if (c->a + c->ext > o->top + o->topsize) return 0; o->intop = 1; goto next; }
            oblk_t *b = NULL; for (int i = 1; i < o->nb; i++) if (o->b[i].a == h->addr) b = &o->b[i];
            if (!b || c->a + c->ext > b->a + b->n) return 0;
            g[n++] = (rgn_t){ c->a, c->a + c->ext, b };
        }
next:   for (int i = 0; i < x->nch; i++) st[sp++] = x->ch[i];
    }
    for (int i = 0; i < n; i++) { /* what's reached of a block: one piece from its start, made of overlapping targets */
        char *hi = NULL, *first = NULL; for (int k = 0; k < n; k++) if (g[k].b == g[i].b && g[k].lo == g[k].b->a && (!hi || g[k].hi > hi)) hi = g[k].hi;
        if (!hi) return 0; first = hi;
        for (int again = 1; again;) { again = 0; for (int k = 0; k < n; k++) if (g[k].b == g[i].b && g[k].lo < hi && g[k].hi > hi) { hi = g[k].hi; again = 1; } }
        if (g[i].hi > hi || (g[i].lo != g[i].b->a && g[i].lo >= hi)) return 0;
        if (hi > first) sim_probe("object with partly overlapping targets");
    }
    if (vi.odd) o->oddloop = 1;
    return 1;
}
obj_t *obj_make(world_t *w, uint64_t seed, int top) { return obj_make_long(w, seed, top, 0); }
obj_t *obj_make_long(world_t *w, uint64_t seed, int top, int len) {
    obj_t *o = halloc(sizeof *o); o->chainlen = len; o->wideok = 1; o->w = w; o->topi = top; o->t = w->tops[top]; o->e = w->tope[top]; o->seed = seed;
    for (int k = 0; k < 6; k++) {
        obj_build(o, k < 4 && !len, (uint64_t)k);
        if (obj_in_domain(o)) { if (o->shared) sim_probe("object with shared targets"); if (o->intop) sim_probe("object with pointers into itself"); return o; }
        for (int i = 0; i < o->nb; i++) heap_obj_free(o->b[i].a);
        sim_probe("object outside of the domain");
    }
    return NULL;
}
void obj_destroy(obj_t *o) { for (int i = 0; i < o->nb; i++) if (heap_owned(o->b[i].a, H_OBJ)) heap_obj_free(o->b[i].a); }
void obj_snap(obj_t *o) { for (int i = 0; i < o->nb; i++) { if (!o->b[i].snap) o->b[i].snap = halloc(o->b[i].n + 1); memcpy(o->b[i].snap, o->b[i].a, o->b[i].n); } }
int obj_changed(obj_t *o) { for (int i = 0; i < o->nb; i++) if (!heap_owned(o->b[i].a, H_OBJ) || memcmp(o->b[i].snap, o->b[i].a, o->b[i].n)) return 1; return 0; }

/* ---------- view ---------- */
typedef struct { world_t *w; vinfo_t *vi; int hints; } vctx;
static vn *mkview(vctx *c, mt *dt, char *a, int bitoff, int bits, mm *via, hint_t h, mt *pst, char *psa, vn *up, int depth) {
    if (++c->vi->n > c->vi->max || depth > view_depth + 15) { c->vi->overflow = 1; return NULL; }
    if (depth > c->vi->maxdepth) c->vi->maxdepth = depth;
    vn *v = halloc(sizeof *v); v->dt = dt; v->t = res(dt); v->a = a; v->bitoff = bitoff; v->bits = bits; v->via = via; v->up = up; v->ext = bits ? (size_t)(bitoff + bits + 7) / 8 : dt->size;
    for (mt *q = dt; q->k == M_WRAP; q = q->to) if (q->wk == 'c') c->vi->consts++;
    mt *t = v->t; vn *x;
    switch (t->k) {
    case M_BASE: case M_ENUM: break;
    case M_STRUCT:
        v->nch = t->nm; v->ch = halloc(sizeof *v->ch * (size_t)(t->nm + 1));
        for (int i = 0; i < t->nm; i++) {
            mm *m = &t->m[i]; if (!(x = v->ch[i] = mkview(c, m->t, a + m->off, m->bitoff, m->bits, m, c->hints ? m->h : HT_NONE, t, a, v, depth + 1))) return NULL;
            if (m->off + x->ext > v->ext) v->ext = m->off + x->ext;
        }
        break;
    case M_UNION: {
        int id = -1;
        if (h == HT_UPERM) { id = via->perm; if (via->bad) { v->st = V_BAD; c->vi->bad++; id = -1; } }
        if (h == HT_USEL) { mm *s = &pst->m[via->sib]; int64_t val = rd_int(s->t, psa + s->off, s->bitoff, s->bits); for (int i = 0; i < via->ncs; i++) if (via->cs[i].v == val) { id = via->cs[i].id; if (via->bad == 2 && i == via->badcase) id = -1; break; } if (via->bad == 1) id = -1; if (id < 0) { v->st = V_BAD; c->vi->bad++; } }
        v->sel = id;
        if (id < 0) { if (v->st != V_BAD) { v->st = V_UNK; c->vi->unk++; } break; }
        mm *m = &t->m[id]; v->nch = 1; v->ch = halloc(sizeof *v->ch);
        if (!(v->ch[0] = mkview(c, m->t, a + m->off, m->bitoff, m->bits, m, c->hints ? m->h : HT_NONE, t, a, v, depth + 1))) return NULL;
        break; }
    case M_ARR: case M_FLEX: {
        int64_t n = t->n;
        if (t->k == M_FLEX) {
            n = -1; if (h == HT_ZSTR) n = (int64_t)strlen(a) + 1; if (h == HT_COUNT) { mm *s = &pst->m[via->sib]; n = rd_int(s->t, psa + s->off, s->bitoff, s->bits); if (n < 0 || n > 100 || via->bad) { v->st = V_BAD; c->vi->bad++; n = 0; } }
            if (n < 0) { v->st = V_UNK; c->vi->flexunk++; n = 0; }
        }
        v->cnt = n; v->nch = (int)n; v->ch = halloc(sizeof *v->ch * (size_t)(n + 1)); v->ext = t->to->size * (size_t)n;
        for (int i = 0; i < n; i++) { if (!(x = v->ch[i] = mkview(c, t->to, a + (size_t)i * t->to->size, 0, 0, NULL, HT_NONE, NULL, NULL, v, depth + 1))) return NULL;
            size_t e = (size_t)i * t->to->size + x->ext; if (e > v->ext) v->ext = e; }
        break; }
    case M_PTR: {
        memcpy(&v->pv, a, 8); c->vi->ptrs++;
        if (!v->pv) { v->st = V_NULL; c->vi->nulls++; break; }
        if (c->vi->shallow) { v->st = V_OPAQUE; break; }
        mt *el = t->to; int64_t n = 1; char *ta = v->pv; int opaque = 0;
        switch (h) {
        case HT_COUNT: { mm *s = &pst->m[via->sib]; n = rd_int(s->t, psa + s->off, s->bitoff, s->bits); break; }
        case HT_ZSTR: n = (int64_t)strlen(v->pv) + 1; break;
        case HT_CAST: {
            mm *s = &pst->m[via->sib]; int64_t val = rd_int(s->t, psa + s->off, s->bitoff, s->bits); el = NULL;
            for (int i = 0; i < via->ncs; i++) if (via->cs[i].v == val) { el = via->cs[i].to; break; }
            if (via->sib2 >= 0) { s = &pst->m[via->sib2]; n = rd_int(s->t, psa + s->off, s->bitoff, s->bits); }
            if (val < INT32_MIN || val > INT32_MAX) c->vi->badloop++; /* may be refused or be unknown */
            if (!el) { opaque = 1; el = t->to; if (n < 0 || n > 5000) c->vi->badloop++; if (n != 1) n = 1; } /* not listed: an unknown pointer */
            break; }
        case HT_CONT: ta -= via->cont_off; el = via->cont; v->cont = via->cont_off != 0; if (v->cont) c->vi->conts++; break;
        default: if (res(el)->k == M_VOID || res(el)->k == M_DECL || res(el)->k == M_FUNC) opaque = 1;
        }
        if (n < 0 || n > 5000 || ((h == HT_COUNT || h == HT_CAST) && via->bad)) { v->st = V_BAD; for (vn *p = up; p; p = p->up) if (p->t->k == M_PTR && p->pv == v->pv) { c->vi->badloop++; return v; } c->vi->bad++; return v; }
        v->cnt = n; if (n == 0) c->vi->zero++;
        for (vn *p = up; p; p = p->up) if (p->t->k == M_PTR && p->pv == v->pv) {
            v->st = V_LOOP; v->loop = p; c->vi->loops++; if (opaque && h == HT_CAST) c->vi->badloop++; v->tx = opaque ? 0 : el->size * (size_t)n;
            if (opaque || p->st != V_TGT || !p->ch || res(p->ch[0]->t->to) != res(el) || n > p->ch[0]->cnt || p->ch[0]->a != ta) c->vi->odd++;
            return v;
        }
        if (opaque) { v->st = V_OPAQUE; c->vi->opaque++; break; }
        v->st = V_TGT; mt *arr = halloc(sizeof *arr); arr->k = M_ARR; arr->to = el; arr->n = (int)n; arr->size = el->size * (size_t)n; arr->align = el->align;
        v->nch = 1; v->ch = halloc(sizeof *v->ch);
        vn *k = halloc(sizeof *k); k->t = k->dt = arr; k->a = ta; k->up = v; k->cnt = n; k->ext = arr->size; v->ch[0] = k; v->tx = arr->size;
        k->nch = (int)n; k->ch = halloc(sizeof *k->ch * (size_t)(n + 1));
        for (int i = 0; i < n; i++) { if (!(x = k->ch[i] = mkview(c, el, ta + (size_t)i * el->size, 0, 0, NULL, HT_NONE, NULL, NULL, k, depth + 2))) return NULL;
            size_t e = (size_t)i * el->size + x->ext; if (e > k->ext) k->ext = e; }
        v->tx = k->ext;
        break; }
    default: break;
    }
    return v;
}
vn *view(world_t *w, mt *t, metac_entry_t *e, hint_t toph, char *a, int hints, vinfo_t *vi) {
    vctx c = { w, vi, hints }; if (!vi->max) vi->max = view_max * 8;
    return mkview(&c, t, a, 0, 0, NULL, hints ? toph : HT_NONE, NULL, NULL, NULL, 0);
}
vn *obj_view(obj_t *o, vinfo_t *vi) { return view(o->w, o->t, o->e, o->w->toph[o->topi], o->top, o->w->cfg.hints, vi); }
