/* See cap.h */
#include "cap.h"
#include <stdlib.h>
#include <ctype.h>
typedef struct { unsigned gp, fp; void *ov, *regs; } tag_t;
va_t *va_new(int gp_used, int fp_used, int cap) {
    va_t *v = halloc(sizeof *v); v->regs = heap_obj_alloc(176); v->ov = heap_obj_alloc((size_t)cap); if ((uintptr_t)v->ov & 15) sim_harness_error("stack part isn't aligned");
    memset(v->regs, 0x5a, 176); memset(v->ov, 0x5a, (size_t)cap); for (int i = 0; i < 8; i++) { double d = 1.5; memcpy(v->regs + 48 + 16 * i, &d, 8); }
    v->gp = gp_used; v->fp = 48 + fp_used; v->cap = cap; tag_t t = { (unsigned)v->gp, (unsigned)v->fp, v->ov, v->regs }; memcpy(&v->c, &t, sizeof t); return v;
}
void va_scramble(va_t *v) { memset(v->regs, 0xc3, 176); memset(v->ov, 0xc3, (size_t)v->cap); }
void va_mem(va_t *v, const void *p, size_t n, size_t al) {
    if (al < 8) al = 8; v->nov = (int)(((size_t)v->nov + al - 1) / al * al); if ((size_t)v->nov + n + 8 > (size_t)v->cap) sim_harness_error("stack part is too small");
    memcpy(v->ov + v->nov, p, n); v->nov += (int)((n + 7) & ~7ull);
}
void va_int(va_t *v, uint64_t x) { if (v->gp < 48) { memcpy(v->regs + v->gp, &x, 8); v->gp += 8; } else va_mem(v, &x, 8, 8); }
void va_dbl(va_t *v, double d) { if (v->fp < 176) { memcpy(v->regs + v->fp, &d, 8); v->fp += 16; } else va_mem(v, &d, 8, 8); }
void va_struct(va_t *v, const void *p, size_t n) { /* the class of the generated accessor's type: bytes */
    int k = (int)((n + 7) / 8);
    if (n <= 16 && v->gp + 8 * k <= 48) { char b[16] = {0}; memcpy(b, p, n); memcpy(v->regs + v->gp, b, (size_t)(8 * k)); v->gp += 8 * k; }
    else { char *b = halloc(n + 8); memcpy(b, p, n); va_mem(v, b, n, 8); }
}
void va_arg_of(va_t *v, mt *t, const char *a) {
    t = res(t); double d, d2; float f;
    if (t->k == M_STRUCT || t->k == M_UNION) { va_struct(v, a, t->size); return; }
    if (t->k == M_PTR) { uint64_t x; memcpy(&x, a, 8); va_int(v, x); return; }
    if (is_intlike(t)) { va_int(v, (uint64_t)rd_int(t, a, 0, 0) & (t->size == 8 ? ~0ull : 0xffffffffull)); return; }
    switch (t->base) {
    case 11: memcpy(&f, a, 4); va_dbl(v, (double)f); break;
    case 12: memcpy(&d, a, 8); va_dbl(v, d); break;
    case 13: va_mem(v, a, 16, 16); break;
    case 14: memcpy(&d, a, 8); va_dbl(v, d); break;
    case 15: memcpy(&d, a, 8); memcpy(&d2, a + 8, 8); if (v->fp + 32 <= 176) { va_dbl(v, d); va_dbl(v, d2); } else va_mem(v, a, 16, 8); break;
    default: va_mem(v, a, 32, 16);
    }
}
/* what the reflection generator writes for every structure: modules/metac-reflect-gen/templates/_struct_type.tpl */
#define A1(n) static metac_flag_t acc##n(struct va_list_container *c, void *b) { struct d##n { char x[n]; }; if (!c || !b) return 0; struct d##n v = va_arg(c->parameters, struct d##n); memcpy(b, &v, n); return 1; }
#define A4(n) A1(n##0) A1(n##1) A1(n##2) A1(n##3)
#define A10(n) A1(n##0) A1(n##1) A1(n##2) A1(n##3) A1(n##4) A1(n##5) A1(n##6) A1(n##7) A1(n##8) A1(n##9)
A1(1) A1(2) A1(3) A1(4) A1(5) A1(6) A1(7) A1(8) A1(9) A10(1) A10(2) A10(3) A10(4) A10(5) A10(6) A10(7) A10(8) A10(9)
A10(10) A10(11) A10(12) A10(13) A10(14) A10(15) A10(16) A10(17) A10(18) A10(19) A10(20) A10(21) A10(22) A10(23) A10(24) A10(25)
#define P10(n) acc##n##0, acc##n##1, acc##n##2, acc##n##3, acc##n##4, acc##n##5, acc##n##6, acc##n##7, acc##n##8, acc##n##9
static metac_flag_t (*const accs[])(struct va_list_container *, void *) = { NULL, acc1, acc2, acc3, acc4, acc5, acc6, acc7, acc8, acc9, P10(1), P10(2), P10(3), P10(4), P10(5), P10(6), P10(7), P10(8), P10(9),
    P10(10), P10(11), P10(12), P10(13), P10(14), P10(15), P10(16), P10(17), P10(18), P10(19), P10(20), P10(21), P10(22), P10(23), P10(24), P10(25) };
metac_flag_t (*va_accessor(size_t n))(struct va_list_container *, void *) { return n < sizeof accs / sizeof *accs ? accs[n] : NULL; }

/* ---------- formats ---------- */
static const struct { const char *mod, *conv, *type; int size, base; } CONV[] = { /* base: index of the base type for texts, -1 pointers */
    { "", "c", "char %s", 1, 0 }, { "hh", "di", "char %s", 1, 0 }, { "h", "di", "short int %s", 2, 2 }, { "", "di", "int %s", 4, 4 }, { "l", "di", "long int %s", 8, 6 }, { "ll", "di", "long long int %s", 8, 8 },
    { "hh", "ouxX", "unsigned char %s", 1, 1 }, { "h", "ouxX", "unsigned short int %s", 2, 3 }, { "", "ouxX", "unsigned int %s", 4, 5 }, { "l", "ouxX", "unsigned long int %s", 8, 7 }, { "ll", "ouxX", "unsigned long long int %s", 8, 9 },
    { "", "fge", "double %s", 8, 12 }, { "L", "fge", "long double %s", 16, 13 },
    { "", "s", NULL, 0, -2 }, { "", "s", NULL, 0, -2 }, { "", "s", NULL, 0, -2 }, { "", "p", "void * %s", 8, -1 },
    { "hh", "n", "char * %s", 8, 0 }, { "h", "n", "short int * %s", 8, 2 }, { "", "n", "int * %s", 8, 4 }, { "l", "n", "long int * %s", 8, 6 }, { "ll", "n", "long long int * %s", 8, 8 },
};
static const char *const UNSUP[] = { "%zu", "%jd", "%td", "%*d", "%.*f", "%lf", "%Ld", "%a", "%E", "%G", "%F", "%ls", "%lc", "%y", "%k", "%qd", "%hf", "%m", "%Lu", "%!", "%5", "%-", "%l", "%.", "%" };
static void lit(rng_t *r, hbuf_t *b) {
    int n = rng_p(r, 50) ? 0 : rng_i(r, 1, 6);
    for (int i = 0; i < n; i++) { int k = rng_i(r, 0, 99); if (k < 15) hb_s(b, "%%"); else if (k < 30) hb_add(b, "%c", "dsxlhp0.-+ #*"[rng_n(r, 13)]); else { int c; do c = rng_i(r, 32, 126); while (c == '%'); hb_add(b, "%c", c); } }
}
format_t *format_make(rng_t *r, int max, int allow_bad) {
    format_t *f = halloc(sizeof *f); hbuf_t b = {0}; hb_s(&b, ""); f->n = rng_p(r, 8) ? 0 : rng_i(r, 1, max); f->c = halloc(sizeof *f->c * (size_t)(f->n + 1));
    int bad = allow_bad && rng_p(r, 15) ? (int)rng_n(r, (uint64_t)f->n + 1) : -1;
    for (int i = 0; i < f->n; i++) {
        if (i == bad) { hb_s(&b, UNSUP[rng_n(r, sizeof UNSUP / sizeof *UNSUP - 5)]); f->bad = 1; }
        conv_t *c = &f->c[i]; int k = (int)rng_n(r, sizeof CONV / sizeof *CONV); lit(r, &b); hb_s(&b, "%");
        for (int z = rng_p(r, 60) ? 0 : rng_i(r, 1, 2); z > 0; z--) hb_add(&b, "%c", "+-#0 "[rng_n(r, 5)]);
        if (rng_p(r, 25)) hb_add(&b, "%d", rng_i(r, 1, 99));
        if (rng_p(r, 20) && CONV[k].base != -2) hb_add(&b, ".%d", rng_i(r, 0, 20)); else if (rng_p(r, 8) && CONV[k].base != -2) hb_s(&b, ".");
        c->conv = CONV[k].conv[rng_n(r, strlen(CONV[k].conv))]; hb_add(&b, "%s%c", CONV[k].mod, c->conv); c->type = CONV[k].type; c->size = c->cmp = (size_t)CONV[k].size;
        if (c->conv == 's') {
            if (rng_p(r, 15)) { c->type = "char * %s"; c->size = c->cmp = 8; memset(c->val, 0, 8); c->text = "NULL"; continue; }
            int big = allow_bad > 1 && !f->big && rng_p(r, 1), n = big ? (rng_p(r, 60) ? rng_i(r, 1000, 9000) : rng_i(r, 30000, 70000)) : rng_p(r, 10) ? 0 : rng_p(r, 15) ? rng_i(r, 50, 700) : rng_i(r, 1, 20); char *p = c->str = heap_obj_alloc((size_t)n + 1); int plain = big || rng_p(r, 70); f->big |= big;
            for (int z = 0; z < n; z++) p[z] = plain ? (char)rng_i(r, 97, 122) : (char)rng_i(r, 1, 255); p[n] = 0;
            c->len = (size_t)n + 1; c->size = c->cmp = c->len; c->type = hprintf("char %%s[%d]", n + 1);
            if (big) { char *z = halloc(c->len + 2); z[0] = '"'; memcpy(z + 1, p, (size_t)n); z[n + 1] = '"'; z[n + 2] = 0; c->text = z; char *copy = halloc(c->len); memcpy(copy, p, c->len); c->val[0] = 1; memcpy(c->val + 8, &copy, 8); sim_probe("long string"); continue; }
            mt *arr = halloc(sizeof *arr); arr->k = M_ARR; arr->to = t_base(0); arr->n = n + 1; arr->size = c->len; vn v = { .t = arr, .dt = arr, .a = p, .cnt = n + 1, .nch = n + 1, .ch = halloc(sizeof(vn *) * (size_t)(n + 1)) };
            for (int z = 0; z <= n; z++) { v.ch[z] = halloc(sizeof(vn)); *v.ch[z] = (vn){ .t = t_base(0), .dt = t_base(0), .a = p + z }; }
            int ab = 0; c->text = ref_text(&v, 1, 0, &ab); if (c->text[0] != '"') c->text = hprintf("(char [%d])%s", n + 1, c->text);
            c->val[0] = 1; char *copy = halloc(c->len); memcpy(copy, p, c->len); c->str = p; memcpy(c->val + 8, &copy, 8);
        } else if (c->conv == 'p') {
            uint64_t x = rng_p(r, 30) ? 0 : rng_u64(r); memcpy(c->val, &x, 8); c->opaque = x != 0; c->text = x ? hprintf("(void *)%p", (void *)x) : "(void *)NULL";
        } else if (c->conv == 'n') {
            mt *t = t_base(CONV[k].base); char *p = rng_p(r, 25) ? NULL : heap_obj_alloc(t->size); memcpy(c->val, &p, 8);
            char *nm = ref_cdecl_as(t, "*"); c->str = p; c->len = t->size;
            if (p) { wr_int(t, p, 0, 0, (int64_t)rng_u64(r)); vn v = { .t = t, .dt = t, .a = p }; int ab = 0; c->text = hprintf("(%s)(%s){%s,}", nm, ref_cdecl_as(t, "[]"), ref_text(&v, 1, 0, &ab)); } else c->text = hprintf("(%s)NULL", nm);
        } else {
            mt *t = t_base(CONV[k].base); 
            if (is_intlike(t)) { int64_t x = rng_p(r, 30) ? rng_i(r, 0, 120) : (int64_t)rng_u64(r); wr_int(t, (char *)c->val, 0, 0, x); }
            else { long double l = rldbl(r, t->size); double d = (double)l; if (t->base == 12) memcpy(c->val, &d, 8); else { memcpy(c->val, &l, 10); c->cmp = 10; } }
            vn v = { .t = t, .dt = t, .a = (char *)c->val }; int ab = 0; c->text = hprintf("(%s)%s", ref_trim(ref_cdecl_as(t, "")), ref_text(&v, 1, 0, &ab));
        }
    }
    lit(r, &b);
    if (bad >= 0 && bad == f->n) { hb_s(&b, UNSUP[rng_n(r, sizeof UNSUP / sizeof *UNSUP)]); f->bad = 1; }
    f->fmt = b.p; return f;
}
void format_pass(format_t *f, va_t *v) {
    for (int i = 0; i < f->n; i++) {
        conv_t *c = &f->c[i]; uint64_t x = 0; double d;
        switch (c->conv) {
        case 's': x = (uint64_t)c->str; va_int(v, x); break;
        case 'f': case 'g': case 'e': if (c->size == 8) { memcpy(&d, c->val, 8); va_dbl(v, d); } else va_mem(v, c->val, 16, 16); break;
        case 'd': case 'i': case 'c': memcpy(&x, c->val, c->size); if (c->size < 8) { int s = 64 - 8 * (int)c->size; x = (uint64_t)((int64_t)(x << s) >> s); if (c->size < 4) x &= 0xffffffff; } va_int(v, x); break;
        default: memcpy(&x, c->val, c->size); va_int(v, x);
        }
    }
}
void format_check(format_t *f, metac_parameter_storage_t *st, int from, int more) {
    int n = SUTQ(metac_parameter_storage_size(st)); CHECK(more ? n >= from + f->n : n == from + f->n, "format-count", "%d parameters are stored for format '%s' with %d conversions", n - from, f->fmt, f->n);
    for (int i = 0; i < f->n; i++) {
        conv_t *c = &f->c[i]; metac_value_t *v = SUTQ(metac_parameter_storage_new_param_value(st, from + i)); CHECK(v != NULL, "format-item", "parameter %d of format '%s' isn't there", i, f->fmt);
        char *s = SUTQ(metac_entry_cdecl(metac_value_entry(v))); CHECK(s && !strcmp(s, c->type), "format-type", "conversion %d of '%s' is stored as '%s', takes '%s'", i, f->fmt, s ? s : "(none)", c->type); SUTQV(sim_free(s));
        char *a = SUTQ(metac_value_addr(v)); const void *want = c->val; if (c->conv == 's' && c->str) { char *copy; memcpy(&copy, c->val + 8, 8); want = copy; }
        CHECK(!memcmp(a, want, c->cmp), "format-value", "value of conversion %d of '%s' isn't the argument's", i, f->fmt);
        if (c->size > 8 && c->conv == 's') sim_probe("format: string longer than a pointer");
        SUTQV(metac_value_delete(v));
    }
}
char *format_text(format_t *f) {
    hbuf_t b = {0}; hb_s(&b, "");
    for (int i = 0; i < f->n; i++) { conv_t *c = &f->c[i]; if (i) hb_s(&b, ", "); if (c->conv == 's' && !c->str) hb_s(&b, "(char *)NULL"); else hb_s(&b, c->text); }
    return b.p;
}
void format_spoil(format_t *f) { for (int i = 0; i < f->n; i++) if (f->c[i].conv == 's' && f->c[i].str) memset(f->c[i].str, '!', f->c[i].len - 1); }
