/* P13: histories of typed reads, writes, copies and comparisons of values obtained by member and element access. */
#include "deep.h"
#include <stdlib.h>
#include <errno.h>
#include <complex.h>
static world_t *W;
#define MAXPATH 12
typedef struct { mt *t, *dt; metac_entry_t *e; mm *via; int path[MAXPATH]; int plen; size_t off; int bitoff, bits, cons; int parent; int flexin; } node_t;
typedef struct { mt *t; metac_entry_t *e; char *a; uint8_t *m; size_t n; node_t *nd; int nn; } area_t;
#define MAXNODES 400
/* typed accessors of the library by base type number */
typedef union { char c; unsigned char uc; short s; unsigned short us; int i; unsigned ui; long l; unsigned long ul; long long ll; unsigned long long ull; bool b; float f; double d; long double ld; float complex fc; double complex dc; long double complex ldc; uint8_t raw[32]; } any_t;
#define ALLB(X) X(0, char, c) X(1, uchar, uc) X(2, short, s) X(3, ushort, us) X(4, int, i) X(5, uint, ui) X(6, long, l) X(7, ulong, ul) X(8, llong, ll) X(9, ullong, ull) X(10, bool, b) X(11, float, f) X(12, double, d) X(13, ldouble, ld) X(14, float_complex, fc) X(15, double_complex, dc) X(16, ldouble_complex, ldc)
static int typed_read(int b, metac_value_t *v, any_t *x) { switch (b) {
#define X(n, fn, f) case n: return SUT(metac_value_##fn(v, &x->f));
    ALLB(X)
#undef X
    } return -1; }
static int typed_write(int b, metac_value_t *v, any_t *x) { switch (b) {
#define X(n, fn, f) case n: return SUT(metac_value_set_##fn(v, x->f));
    ALLB(X)
#undef X
    } return -1; }
static int typed_is(int b, metac_value_t *v) { switch (b) {
#define X(n, fn, f) case n: return SUT(metac_value_is_##fn(v)) != 0;
    ALLB(X)
#undef X
    } return -1; }
static int base_cls(int b) { return b <= 9 ? 'i' : b == 10 ? 'b' : b <= 13 ? 'f' : 'c'; }
/* bytes of a floating point number which carry its value */
static int val_byte(mt *t, size_t i) { if (t->base == 13 || t->base == 16) return i % 16 < 10; return 1; }
static void add_nodes(area_t *A, mt *dt, metac_entry_t *e, mm *via, size_t off, int bitoff, int bits, node_t *up, int id) {
    if (A->nn >= MAXNODES || (up && up->plen >= MAXPATH)) return;
    node_t *n = &A->nd[A->nn]; memset(n, 0, sizeof *n); int self = A->nn++; n->dt = dt; n->t = res(dt); n->e = e; n->via = via; n->off = off; n->bitoff = bitoff; n->bits = bits; n->parent = up ? (int)(up - A->nd) : -1;
    if (up) { memcpy(n->path, up->path, sizeof n->path); n->plen = up->plen; n->path[n->plen++] = id; n->flexin = up->flexin; }
    for (mt *q = dt; q->k == M_WRAP; q = q->to) if (q->wk == 'c') n->cons = 1;
    mt *t = n->t;
    if (t->k == M_STRUCT || t->k == M_UNION) for (int i = 0; i < t->nm; i++) { mm *m = &t->m[i]; add_nodes(A, m->t, m->e, m, off + m->off, m->bitoff, m->bits, &A->nd[self], i); }
    if (t->k == M_ARR) for (int i = 0; i < t->n; i++) add_nodes(A, t->to, t->to->e, NULL, off + (size_t)i * t->to->size, 0, 0, &A->nd[self], i);
}
static void setup(rng_t *r) { wcfg_t c; rand_cfg(r, &c, 0); W = world_make(r, &c); }
static void finish(void) { world_free(W); }
static void same(area_t *A, int na, const char *what) { for (int i = 0; i < na; i++) for (size_t k = 0; k < A[i].n; k++) CHECK((uint8_t)A[i].a[k] == A[i].m[k], "access-foreign", "byte %zu of object %d is %02x instead of %02x after %s", k, i, (uint8_t)A[i].a[k], A[i].m[k], what); }
static metac_value_t *root_value(area_t *A) {
    metac_value_t *v = SUT(metac_new_value(A->e, A->a)); if (!v) { CHECK(sim_last_hits(), "access-fails", "no value although nothing failed"); v = SUTQ(metac_new_value(A->e, A->a)); } CHECK(v, "access-fails", "no value although nothing failed"); return v;
}
/* value of a node by walking from the top; checks every step */
static metac_value_t *reach(area_t *A, node_t *n, rng_t *q) {
    metac_value_t *v = root_value(A); node_t *c = &A->nd[0];
    for (int i = 0; i < n->plen; i++) {
        int id = n->path[i]; metac_value_t *x = NULL; mt *t = c->t; int isarr = t->k == M_ARR;
        CHECK(!!SUT(metac_value_has_members(v)) == !isarr && !!SUT(metac_value_has_elements(v)) == isarr, "access-kind", "a value is told to be something else than it is");
        int cnt = isarr ? SUT(metac_value_element_count(v)) : SUT(metac_value_member_count(v)); CHECK(cnt == (isarr ? t->n : t->nm), "access-count", "number of %s is %d instead of %d", isarr ? "elements" : "members", cnt, isarr ? t->n : t->nm);
        if (isarr && rng_p(q, 20)) { /* the same array with another known length */
            int k = rng_i(q, id + 1, t->n); metac_value_t *d = SUT(metac_new_element_count_value(v, k)); if (!d) { CHECK(sim_last_hits(), "access-fails", "no value with a given element count although nothing failed"); d = SUTQ(metac_new_element_count_value(v, k)); }
            CHECK(d && SUTQ(metac_value_element_count(d)) == k && metac_value_addr(d) == metac_value_addr(v), "access-count", "a value with a given element count isn't what was asked for");
            CHECK(!SUT(metac_new_value_by_element_id(d, k)), "access-range", "element behind the given element count is given");
            if (rng_p(q, 30)) { metac_value_t *d2 = SUTQ(metac_new_value_from_value(d)); SUTV(metac_value_delete(d)); d = d2; CHECK(d, "access-fails", "no copy of a value"); }
            SUTV(metac_value_delete(v)); v = d; sim_probe("array with a given element count");
        }
        for (int tries = 0; tries < 2 && !x; tries++) {
            if (tries) x = isarr ? SUTQ(metac_new_value_by_element_id(v, id)) : SUTQ(metac_new_value_by_member_id(v, id)); else x = isarr ? SUT(metac_new_value_by_element_id(v, id)) : SUT(metac_new_value_by_member_id(v, id));
            if (!x) { CHECK(sim_last_hits() && !tries, "access-fails", "no %s %d of a value although nothing failed", isarr ? "element" : "member", id); sim_probe("value creation failed"); }
        }
        if (rng_p(q, 15)) { int bad = rng_p(q, 50) ? -1 - (int)rng_n(q, 3) : cnt + (int)rng_n(q, 3); metac_value_t *y = isarr ? SUT(metac_new_value_by_element_id(v, bad)) : SUT(metac_new_value_by_member_id(v, bad)); CHECK(!y, "access-range", "%s %d of %d is given", isarr ? "element" : "member", bad, cnt); sim_probe("out of range"); }
        if (rng_p(q, 15)) { metac_value_t *y = isarr ? SUT(metac_new_value_by_member_id(v, 0)) : SUT(metac_new_value_by_element_id(v, 0)); CHECK(!y, "access-kind", "%s of a value which has none is given", isarr ? "member" : "element"); }
        int k; for (k = 0; k < A->nn; k++) if (A->nd[k].parent == (int)(c - A->nd) && A->nd[k].path[A->nd[k].plen - 1] == id) break;
        node_t *nx = &A->nd[k];
        if (!isarr) {
            metac_name_t nm = SUT(metac_value_name(x)), want = (metac_name_t)nx->via->name; CHECK((nm != NULL) == (want != NULL) && (!nm || !strcmp(nm, want)), "access-name", "name of member %d is %s instead of %s", id, nm ? nm : "(none)", want ? want : "(none)");
            if (want && rng_p(q, 30)) {
                metac_num_t r = SUT(metac_entry_member_name_to_id(metac_value_entry(v), want)); CHECK(r == id, "access-name", "member '%s' is said to be number %d instead of %d", want, r, id);
                r = SUT(metac_entry_member_name_to_id(metac_value_entry(v), "no_such")); CHECK(r < 0, "access-name", "a member which isn't there is found");
                metac_entry_id_t ids[2] = { { .n = rng_p(q, 50) ? want : NULL, .i = id }, { .n = "no_such" } };
                CHECK(SUT(metac_entry_by_member_ids(metac_value_entry(v), 0, ids, 1)) == nx->e, "access-name", "entry of member '%s' is another one", want);
                CHECK(!SUT(metac_entry_by_member_ids(metac_value_entry(v), 0, ids, 2)), "access-name", "entry of a member which isn't there is given");
            }
        }
        if (!nx->bits) { CHECK(metac_value_addr(x) == A->a + nx->off, "access-address", "address of a value is wrong by %td", (char *)metac_value_addr(x) - (A->a + nx->off)); }
        metac_size_t sz = 0; int rc = SUT(metac_entry_byte_size(metac_value_entry(x), &sz)); CHECK(nx->t->k == M_FLEX || (rc == 0 && (nx->bits || sz == nx->t->size)), "access-size", "size of a value is %llu (result %d) instead of %zu", (unsigned long long)sz, rc, nx->t->size);
        SUTV(metac_value_delete(v)); v = x; c = nx;
    }
    if (rng_p(q, 20)) { metac_value_t *d = SUT(metac_new_value_from_value(v)); if (!d) CHECK(sim_last_hits(), "access-fails", "no copy of a value although nothing failed"); else { CHECK(metac_value_addr(d) == metac_value_addr(v) && metac_value_entry(d) == metac_value_entry(v), "access-address", "copy of a value is another value"); SUTV(metac_value_delete(v)); v = d; } }
    return v;
}
static int readable(area_t *A, node_t *n) { /* a byte of a bool has to be 0 or 1; long doubles have to be normal: memory under a union may hold anything */
    char *a = A->a + n->off; if (n->t->k != M_BASE) return 1;
    if (n->t->base == 10 && !n->bits) return (uint8_t)*a <= 1;
    if (n->t->base == 13 || n->t->base == 16) for (size_t o = 0; o < n->t->size; o += 16) { uint64_t mant; uint16_t ex; memcpy(&mant, a + o, 8); memcpy(&ex, a + o + 8, 2); ex &= 0x7fff; if (ex == 0x7fff || (ex && !(mant >> 63)) || (!ex && mant >> 63)) return 0; }
    if (base_cls(n->t->base) == 'f' || base_cls(n->t->base) == 'c') { size_t p = base_cls(n->t->base) == 'c' ? n->t->size / 2 : n->t->size; for (size_t o = 0; o < n->t->size; o += p) { double d = 0; float f; if (p == 4) { memcpy(&f, a + o, 4); d = f; } else if (p == 8) memcpy(&d, a + o, 8); if (d != d) return 0; } }
    return 1;
}
static int fl_eq(mt *t, char *a, char *b) {
    size_t p = base_cls(t->base) == 'c' ? t->size / 2 : t->size;
    for (size_t o = 0; o < t->size; o += p) { if (p == 4) { float x, y; memcpy(&x, a + o, 4); memcpy(&y, b + o, 4); if (x != y) return 0; } else if (p == 8) { double x, y; memcpy(&x, a + o, 8); memcpy(&y, b + o, 8); if (x != y) return 0; } else { long double x = 0, y = 0; memcpy(&x, a + o, 10); memcpy(&y, b + o, 10); if (x != y) return 0; } }
    return 1;
}
static int64_t any_int(int b, any_t *x) { switch (b) { case 0: return x->c; case 1: return x->uc; case 2: return x->s; case 3: return x->us; case 4: return x->i; case 5: return x->ui; case 6: return x->l; case 7: return (int64_t)x->ul; case 8: return x->ll; case 9: return (int64_t)x->ull; default: return x->b; } }
static void rand_any(rng_t *q, int b, any_t *x) {
    memset(x, 0, sizeof *x); int64_t v = rng_p(q, 30) ? (int64_t)rng_n(q, 5) - 2 : rng_p(q, 30) ? (int64_t)(1ull << rng_n(q, 64)) - (int64_t)rng_n(q, 2) : (int64_t)rng_u64(q); double d = rng_p(q, 30) ? (double)(int)rng_n(q, 9) - 4 : (double)(int64_t)rng_u64(q) / 1048576.0;
    switch (b) { case 0: x->c = (char)v; break; case 1: x->uc = (unsigned char)v; break; case 2: x->s = (short)v; break; case 3: x->us = (unsigned short)v; break; case 4: x->i = (int)v; break; case 5: x->ui = (unsigned)v; break; case 6: x->l = v; break; case 7: x->ul = (unsigned long)v; break; case 8: x->ll = v; break; case 9: x->ull = (unsigned long long)v; break;
    case 10: x->b = v & 1; break; case 11: x->f = (float)d; break; case 12: x->d = d; break; case 13: x->ld = d; break; case 14: x->fc = (float)d + (float)v * I; break; case 15: x->dc = d + (double)(v >> 20) * I; break; default: x->ldc = d + (long double)(v >> 3) * I; }
    if (b > 10 && rng_p(q, 30)) { long double re, im; size_t z = t_base(b)->size / (b > 13 ? 2 : 1); do re = rldbl(q, z), im = rldbl(q, z); while (__builtin_isinf(re) || __builtin_isinf(im)); switch (b) { case 11: x->f = (float)re; break; case 12: x->d = (double)re; break; case 13: x->ld = re; break; case 14: x->fc = __builtin_complex((float)re, (float)im); break; case 15: x->dc = __builtin_complex((double)re, (double)im); break; default: x->ldc = __builtin_complex(re, im); } }
}
/* the model follows a write */
static void model_write(area_t *A, node_t *n, any_t *x, int64_t iv) {
    char *m = (char *)A->m + n->off;
    if (n->t->k == M_PTR) memcpy(m, x->raw, 8);
    else if (n->t->k == M_ENUM) wr_int(n->t, m, n->bitoff, n->bits, iv);
    else if (base_cls(n->t->base) == 'i' || base_cls(n->t->base) == 'b') wr_int(n->t, m, n->bitoff, n->bits, iv);
    else for (size_t i = 0; i < n->t->size; i++) m[i] = val_byte(n->t, i) ? (char)x->raw[i] : A->a[n->off + i];
}
static void check_num(area_t *A, node_t *n, metac_value_t *v) {
    metac_num_t num = 0x5a5a5a5a; int rc = SUT(metac_value_num(v, &num));
    if (!is_intlike(n->t)) { CHECK(rc < 0, "access-type", "a number is read from something which isn't one"); return; }
    int64_t w = rd_int(n->t, (char *)A->m + n->off, n->bitoff, n->bits); int uns = n->t->k == M_BASE && (n->t->base == 7 || n->t->base == 9); int fits = w >= INT32_MIN && w <= INT32_MAX && !(uns && w < 0);
    if (fits) { CHECK(rc == 0 && num == (metac_num_t)w, "access-read", "number %lld is read as %d (result %d)", (long long)w, num, rc); sim_probe("number read"); } else if (n->t->k == M_ENUM ? w == (int64_t)(uint32_t)w : (n->t->base == 5 ? w == (int64_t)(uint32_t)w : uns && w == (int64_t)(int32_t)w)) sim_probe("unsigned number which wraps: no claim"); else { CHECK(rc < 0, "access-read", "number %lld which doesn't fit is read as %d", (long long)w, num); sim_probe("number too big"); }
}
static void check_kinds(node_t *n, metac_value_t *v, rng_t *q) {
    static const metac_encoding_t enc[] = { METAC_ENC_signed_char, METAC_ENC_unsigned_char, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_signed, METAC_ENC_unsigned, METAC_ENC_boolean, METAC_ENC_float, METAC_ENC_float, METAC_ENC_float, METAC_ENC_complex_float, METAC_ENC_complex_float, METAC_ENC_complex_float };
    static const metac_kind_t kinds[] = { [M_BASE] = METAC_KND_base_type, [M_ENUM] = METAC_KND_enumeration_type, [M_PTR] = METAC_KND_pointer_type, [M_ARR] = METAC_KND_array_type, [M_FLEX] = METAC_KND_array_type, [M_STRUCT] = METAC_KND_struct_type, [M_UNION] = METAC_KND_union_type };
    metac_quals_t ql; ql.flags = 0xffff; metac_kind_t k = SUT(metac_value_final_kind(v, &ql)); CHECK(k == kinds[n->t->k] && ql.flag_const == n->cons, "access-kind", "final kind of a value is %d instead of %d, const %d instead of %d", (int)k, (int)kinds[n->t->k], ql.flag_const, n->cons); if (n->via) CHECK(SUT(metac_value_kind(v)) == METAC_KND_member, "access-kind", "a member isn't told to be one");
    int b = n->t->k == M_BASE && rng_p(q, 70) ? n->t->base : (int)rng_n(q, (uint64_t)base_count()), o = (int)rng_n(q, (uint64_t)base_count()), c = rng_i(q, 0, 3); const char *nm = t_base(c == 1 ? o : b)->name; metac_encoding_t en = enc[c == 2 ? o : b]; metac_size_t sz = t_base(c == 3 ? o : b)->size;
    int w = n->t->k == M_BASE && !strcmp(nm, n->t->name) && en == enc[n->t->base] && sz == n->t->size, rc = SUT(metac_value_check_base_type(v, (char *)nm, en, sz)); CHECK(w ? rc == 0 : rc < 0, "access-type", "the check for %s of %llu bytes returns %d", nm, (unsigned long long)sz, rc); sim_probe(w ? "base type confirmed" : "base type refused");
}
static void body(sim_task_t *t) {
    rng_t r = rng_make(sim_plan->seed, 0x1300, (uint64_t)t->id); int na = rng_i(&r, 1, 3); area_t A[3]; uint32_t seq0 = heap_seq(); int t0 = -1; char *scratch = heap_obj_alloc(256); for (int i = 0; i < 256; i++) scratch[i] = (char)rng_u64(&r);
    for (int i = 0; i < na; i++) {
        int top; do top = (int)rng_n(&r, (uint64_t)W->ntops); while (0); if (i && rng_p(&r, 60)) top = t0; t0 = top;
        obj_t *o = NULL; for (int k = 0; k < 5 && !o; k++) o = obj_make(W, rng_u64(&r), top);
        A[i].t = W->tops[top]; A[i].e = rng_p(&r, 50) ? W->tope[top] : A[i].t->e; A[i].n = res(A[i].t)->size; A[i].a = heap_obj_alloc(A[i].n); A[i].m = halloc(A[i].n + 16);
        if (o) { memcpy(A[i].a, o->top, A[i].n); obj_destroy(o); } else for (size_t k = 0; k < A[i].n; k++) A[i].a[k] = 0;
        memcpy(A[i].m, A[i].a, A[i].n); A[i].nd = halloc(sizeof(node_t) * MAXNODES); A[i].nn = 0; add_nodes(&A[i], A[i].t, A[i].e, NULL, 0, 0, 0, NULL, 0);
    }
    int nops = rng_i(&r, 10, 40);
    for (int op = 0; op < nops; op++) {
        rng_t q = rng_make(sim_plan->seed, 0x13000 + (uint64_t)t->id, (uint64_t)op); if (!op_on(t, op)) continue;
        int ai = (int)rng_n(&q, (uint64_t)na); area_t *a = &A[ai]; node_t *n = NULL; for (int k = 0; k < 6; k++) { n = &a->nd[rng_n(&q, (uint64_t)a->nn)]; if (n->t->k == M_BASE || n->t->k == M_ENUM || n->t->k == M_PTR) break; }
        uint32_t seq = heap_seq(); metac_value_t *v = reach(a, n, &q); any_t x; memset(&x, 0, sizeof x); int k = rng_i(&q, 0, 9); mt *ty = n->t;
        sim_trace_u((uint64_t)k << 8 | (uint64_t)ty->k);
        CHECK(!!SUT(metac_value_is_base_type(v)) == (ty->k == M_BASE) && !!SUT(metac_value_is_enumeration(v)) == (ty->k == M_ENUM) && !!SUT(metac_value_is_pointer(v)) == (ty->k == M_PTR), "access-kind", "a value is told to be something else than it is");
        if (rng_p(&q, 30)) check_kinds(n, v, &q);
        if (k == 9) check_num(a, n, v);
        else if (rng_p(&q, 12)) { /* wrong type, reading and writing */
            int b; do b = (int)rng_n(&q, (uint64_t)base_count()); while (ty->k == M_BASE && b == ty->base);
            int w = rng_p(&q, 50); rand_any(&q, b, &x); CHECK(!typed_is(b, v), "access-type", "type check accepts another type"); int rc = w ? typed_write(b, v, &x) : typed_read(b, v, &x); CHECK(rc < 0, "access-type", "%s as a wrong type returns %d", w ? "a write" : "a read", rc);
            if (ty->k != M_ENUM) { metac_const_value_t c = 1; CHECK(SUT(metac_value_enumeration(v, &c)) < 0 && SUT(metac_value_set_enumeration(v, 1)) < 0, "access-type", "something else is accepted as an enum"); }
            if (ty->k != M_PTR) { void *p = NULL; CHECK(SUT(metac_value_pointer(v, &p)) < 0 && SUT(metac_value_set_pointer(v, scratch)) < 0, "access-type", "something else is accepted as a pointer"); }
            sim_probe("wrong type");
        } else if (ty->k == M_BASE) {
            int b = ty->base, ig = base_cls(b) == 'i' || base_cls(b) == 'b'; CHECK(typed_is(b, v), "access-type", "type check refuses the type of the value");
            if (k < 4) { /* write */
                rand_any(&q, b, &x); int64_t iv = ig ? any_int(b, &x) : 0; int rc = typed_write(b, v, &x); sim_trace_u((uint64_t)rc);
                if (rc != 0) CHECK(n->cons, "access-write", "a write returns %d", rc); else model_write(a, n, &x, iv);
                sim_probe(rc ? "write to const refused" : n->bits ? "bit-field written" : "number written");
            } else if (k < 7 || na < 1) { /* read */
                if (readable(a, n)) {
                    int rc = typed_read(b, v, &x); CHECK(rc == 0, "access-read", "a read returns %d", rc);
                    if (ig) { int64_t g = any_int(b, &x), w = rd_int(ty, (char *)a->m + n->off, n->bitoff, n->bits); CHECK(g == w, "access-read", "%lld is read instead of %lld%s", (long long)g, (long long)w, n->bits ? " from a bit-field" : ""); }
                    else for (size_t i = 0; i < ty->size; i++) CHECK(!val_byte(ty, i) || x.raw[i] == a->m[n->off + i], "access-read", "byte %zu of a number is read wrong", i);
                    sim_probe(n->bits ? "bit-field read" : "number read by type");
                }
            } else { /* compare or copy with another leaf */
                area_t *a2 = &A[rng_n(&q, (uint64_t)na)]; node_t *n2 = NULL; for (int z = 0; z < 30; z++) { n2 = &a2->nd[rng_n(&q, (uint64_t)a2->nn)]; if (n2->t->k == M_BASE && (n2->t->base == b || rng_p(&q, 3))) break; }
                metac_value_t *v2 = reach(a2, n2, &q); int sametype = n2->t->k == M_BASE && n2->t->base == b;
                if (!readable(a, n) || !readable(a2, n2)) sim_probe("unreadable");
                else if (k == 7) {
                    int rc = SUT(metac_value_equal_base_type(v, v2));
                    if (!sametype) CHECK(rc < 0, "access-equal", "comparison with another type returns %d", rc);
                    else { int w = ig ? rd_int(ty, (char *)a->m + n->off, n->bitoff, n->bits) == rd_int(ty, (char *)a2->m + n2->off, n2->bitoff, n2->bits) : fl_eq(ty, (char *)a->m + n->off, (char *)a2->m + n2->off); CHECK(rc == w, "access-equal", "comparison returns %d instead of %d", rc, w); sim_probe(w ? "equal numbers" : "unequal numbers"); }
                } else {
                    metac_value_t *rv = SUT(metac_value_copy_base_type(v, v2)); CHECK(rv == NULL || rv == v2, "access-copy", "copy returns something else than its destination");
                    if (!sametype) CHECK(!rv, "access-copy", "a copy between different types is accepted");
                    else if (!rv) CHECK(n2->cons, "access-copy", "a copy between values of the same type is refused");
                    else { any_t y; memcpy(y.raw, a->m + n->off, n->bits ? 0 : ty->size); int64_t iv = ig ? rd_int(ty, (char *)a->m + n->off, n->bitoff, n->bits) : 0; model_write(a2, n2, &y, iv); sim_probe("number copied"); }
                }
                SUTV(metac_value_delete(v2));
            }
        } else if (ty->k == M_ENUM) {
            int64_t cur = rd_int(ty, (char *)a->m + n->off, n->bitoff, n->bits);
            if (k < 4) { int64_t nv = rng_p(&q, 80) ? ty->ev[rng_n(&q, (uint64_t)ty->ne)] : rng_i(&q, 0, 100); int rc = SUT(metac_value_set_enumeration(v, nv)); CHECK(rc == 0 || n->cons, "access-write", "a write of an enum returns %d", rc); if (!rc) model_write(a, n, &x, nv); sim_probe("enum written"); }
            else if (k < 7) {
                metac_const_value_t g = 0; int rc = SUT(metac_value_enumeration(v, &g)); CHECK(rc == 0 && g == cur, "access-read", "enum %lld is read as %lld (result %d)", (long long)cur, (long long)g, rc);
                const char *w = NULL; for (int i = 0; i < ty->ne && !w; i++) if (ty->ev[i] == cur) w = ty->en[i];
                metac_name_t nm = SUT(metac_value_enumeration_to_name(v, g)); CHECK((nm != NULL) == (w != NULL) && (!w || !strcmp(w, nm)), "access-name", "enumerator of %lld is %s instead of %s", (long long)cur, nm ? nm : "(none)", w ? w : "(none)");
                char *s = SUT(metac_value_enumeration_string(v)), *ws = w ? hstrdup(w) : hprintf("%lld", (long long)cur); if (!s) CHECK(sim_last_hits(), "access-text", "no text of an enum although nothing failed"); else { CHECK(!strcmp(s, ws), "access-text", "text of an enum is %s instead of %s", s, ws); SUTQV(sim_free(s)); }
                CHECK(SUT(metac_value_enumeration_info_size(v)) == ty->ne, "access-count", "number of enumerators is wrong"); int id = rng_i(&q, -1, ty->ne); struct metac_type_enumerator_info const *in = SUT(metac_value_enumeration_info(v, id)); CHECK((in != NULL) == (id >= 0 && id < ty->ne) && (!in || (in->const_value == ty->ev[id] && !strcmp(in->name, ty->en[id]))), "access-name", "enumerator %d is wrong", id);
                sim_probe("enum read");
            } else {
                area_t *a2 = &A[rng_n(&q, (uint64_t)na)]; node_t *n2 = NULL; for (int z = 0; z < 30; z++) { n2 = &a2->nd[rng_n(&q, (uint64_t)a2->nn)]; if (n2->t->k == M_ENUM) break; }
                metac_value_t *v2 = reach(a2, n2, &q); int en = n2->t->k == M_ENUM;
                if (k == 7) { int rc = SUT(metac_value_equal_enumeration(v, v2)); if (!en) CHECK(rc < 0, "access-equal", "comparison of an enum with something else returns %d", rc); else { int w = cur == rd_int(n2->t, (char *)a2->m + n2->off, n2->bitoff, n2->bits); CHECK(rc == w, "access-equal", "comparison of enums returns %d instead of %d", rc, w); } }
                else if (n2->t == ty || !en) { metac_value_t *rv = SUT(metac_value_copy_enumeration(v, v2)); if (!en) CHECK(!rv, "access-copy", "an enum is copied to something else"); else if (rv) model_write(a2, n2, &x, cur); else CHECK(n2->cons, "access-copy", "a copy of an enum is refused"); sim_probe("enum copied"); }
                SUTV(metac_value_delete(v2));
            }
        } else if (ty->k == M_PTR) {
            void *cur; memcpy(&cur, a->m + n->off, 8);
            if (k < 3) { void *p = rng_p(&q, 20) ? NULL : scratch + 16 * rng_n(&q, 8); int rc = SUT(metac_value_set_pointer(v, p)); CHECK(rc == 0 || n->cons, "access-write", "a write of a pointer returns %d", rc); memcpy(x.raw, &p, 8); if (!rc) model_write(a, n, &x, 0); sim_probe("pointer written"); }
            else if (k < 5) {
                void *g = scratch; int rc = SUT(metac_value_pointer(v, &g)); CHECK(rc == 0 && g == cur, "access-read", "a pointer is read wrong"); char *s = SUT(metac_value_pointer_string(v)), *ws = cur ? hprintf("%p", cur) : hstrdup("NULL"); if (!s) CHECK(sim_last_hits(), "access-text", "no text of a pointer"); else { CHECK(!strcmp(s, ws), "access-text", "text of a pointer is %s instead of %s", s, ws); SUTQV(sim_free(s)); }
                mt *to = res(ty->to); CHECK(!!SUT(metac_value_is_void_pointer(v)) == (to->k == M_VOID) && !!SUT(metac_value_is_declaration_pointer(v)) == (to->k == M_DECL), "access-kind", "a pointer is told to be of another kind than it is"); sim_probe("pointer read");
            } else if (k < 7) { /* follow it as an array of known length */
                mt *to = res(ty->to); char *p = cur;
                if (!p) { CHECK(!SUT(metac_new_element_count_value(v, 2)), "access-range", "elements behind a NULL pointer are given"); sim_probe("NULL pointer refused"); }
                else if (p >= scratch && p < scratch + 128 && to->k == M_BASE && !(to->base == 13 || to->base == 16 || to->base == 10 || to->base == 11 || to->base == 12 || to->base == 14 || to->base == 15)) {
                    int cnt = rng_i(&q, 1, 8), id = (int)rng_n(&q, (uint64_t)cnt); metac_value_t *arr = SUT(metac_new_element_count_value(v, cnt));
                    if (!arr) CHECK(sim_last_hits(), "access-fails", "no array behind a pointer although nothing failed");
                    else {
                        CHECK(SUT(metac_value_element_count(arr)) == cnt && metac_value_addr(arr) == p, "access-count", "an array behind a pointer isn't what was asked for"); metac_value_t *el = SUT(metac_new_value_by_element_id(arr, id)); uint32_t eh = sim_last_hits(); SUTV(metac_value_delete(arr));
                        if (el) { int rc = typed_read(to->base, el, &x); int64_t w = rd_int(to, p + (size_t)id * to->size, 0, 0); CHECK(rc == 0 && any_int(to->base, &x) == w, "access-read", "element %d behind a pointer is read wrong", id); SUTV(metac_value_delete(el)); sim_probe("pointer followed"); } else CHECK(eh, "access-fails", "no element although nothing failed");
                    }
                }
            } else {
                area_t *a2 = &A[rng_n(&q, (uint64_t)na)]; node_t *n2 = NULL; for (int z = 0; z < 30; z++) { n2 = &a2->nd[rng_n(&q, (uint64_t)a2->nn)]; if (n2->t->k == M_PTR) break; }
                metac_value_t *v2 = reach(a2, n2, &q); int pt = n2->t->k == M_PTR; void *c2 = NULL; if (pt) memcpy(&c2, a2->m + n2->off, 8);
                if (k == 7) { int rc = SUT(metac_value_equal_pointer(v, v2)); if (!pt) CHECK(rc < 0, "access-equal", "comparison of a pointer with something else returns %d", rc); else CHECK(rc == (cur == c2), "access-equal", "comparison of pointers returns %d", rc); }
                else { metac_value_t *rv = SUT(metac_value_copy_pointer(v, v2)); if (!pt) CHECK(!rv, "access-copy", "a pointer is copied to something else"); else if (rv) { memcpy(x.raw, &cur, 8); model_write(a2, n2, &x, 0); } else CHECK(n2->cons, "access-copy", "a copy of a pointer is refused"); }
                SUTV(metac_value_delete(v2));
            }
        }
        SUTV(metac_value_delete(v)); CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "access-leak", "memory is left after all values are deleted");
        same(A, na, hprintf("operation %d", op));
    }
    CHECK(heap_live(1 << H_SUT, seq0, NULL) == 0, "leak", "memory is left");
    for (int i = 0; i < na; i++) heap_obj_free(A[i].a);
    heap_obj_free(scratch);
}
const prop_t prop_p13 = { .id = "P13", .max_tasks = 2, .variants = 3, .max_ops = 40, .setup = setup, .body = body, .finish = finish, .quick_seeds = 16000, .thorough_seeds = 500000,
    .what = "one run = seeded history of typed reads, writes, copies, comparisons and refused accesses on up to 3 objects of random types, walked to by member and element access; every byte of the objects is compared with a reference model after every operation; allocations fail at seeded points" };
