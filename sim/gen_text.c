/* Reference texts: C declarations and value texts. */
#include "gen.h"
#include <complex.h>
#include <ctype.h>

static int is_ptrq(mt *t) { while (t->k == M_WRAP && t->wk != 't') t = t->to; return t->k == M_PTR; }
static int is_arrq(mt *t) { while (t->k == M_WRAP && t->wk != 't') t = t->to; return t->k == M_ARR || t->k == M_FLEX; }
static char *decl(mt *t, const char *in) {
    hbuf_t b = {0};
    switch (t->k) {
    case M_BASE: return hprintf("%s %s", t->name, in);
    case M_VOID: return hprintf("void %s", in);
    case M_DECL: return hprintf("struct %s %s", t->name, in);
    case M_ENUM:
        if (t->name) return hprintf("enum %s %s", t->name, in);
        hb_s(&b, "enum {"); for (int i = 0; i < t->ne; i++) hb_add(&b, "%s%s = %ld,", i ? " " : "", t->en[i], (long)t->ev[i]);
        hb_add(&b, "} %s", in); return b.p;
    case M_WRAP: {
        if (t->wk == 't') return hprintf("%s %s", t->name, in);
        const char *q = t->wk == 'c' ? "const" : t->wk == 'r' ? "restrict" : "volatile";
        if (is_ptrq(t->to)) return decl(t->to, hprintf("%s %s", q, in));
        return hprintf("%s %s", q, decl(t->to, in)); }
    case M_PTR: return decl(t->to, hprintf(is_arrq(t->to) ? "(* %s)" : "* %s", in));
    case M_ARR: return decl(t->to, hprintf("%s[%ld]", in, (long)t->n));
    case M_FLEX: return decl(t->to, hprintf("%s[]", in));
    case M_FUNC:
        hb_add(&b, "(%s)(", in);
        for (int i = 0; i < t->npar; i++) hb_add(&b, "%s%s", i ? ", " : "", ref_trim(decl(t->par[i], "")));
        if (t->dots) hb_s(&b, t->npar ? ", ..." : "...");
        hb_s(&b, ")"); return decl(t->to, b.p);
    case M_STRUCT: case M_UNION: {
        const char *k = t->k == M_STRUCT ? "struct" : "union";
        if (t->name) return hprintf("%s %s %s", k, t->name, in);
        hb_add(&b, "%s {", k);
        for (int i = 0; i < t->nm; i++) {
            mm *m = &t->m[i]; const char *n = !m->name ? "" : m->bits ? hprintf("%s:%d", m->name, m->bits) : m->name;
            hb_add(&b, "%s; ", ref_trim(decl(m->t, n)));
        }
        hb_add(&b, "} %s", in); return b.p; }
    }
    return NULL;
}
char *ref_trim(const char *s) { char *p = hstrdup(s); size_t n = strlen(p); while (n && p[n - 1] == ' ') p[--n] = 0; return p; }
char *ref_cdecl(mt *t) { return decl(t, "%s"); }
char *ref_cdecl_as(mt *t, const char *name) { return decl(t, name); }

static char *num(mt *t, vn *v) {
    if (t->k == M_ENUM) {
        int64_t x = rd_int(t, v->a, v->bitoff, v->bits);
        for (int i = 0; i < t->ne; i++) if (t->ev[i] == x) return (char *)t->en[i];
        return hprintf("%ld", (long)x);
    }
    int64_t x = t->base <= 10 ? rd_int(t, v->a, v->bitoff, v->bits) : 0; char *a = v->a; long double l, l2; double d, d2; float f, f2;
    switch (t->base) {
    case 0: return isprint((int)(char)x) && (char)x > 0 ? hprintf("'%c'", (char)x) : hprintf("%hhd", (char)x);
    case 1: return hprintf("%hhu", (unsigned char)x);
    case 2: return hprintf("%hi", (short)x);
    case 3: return hprintf("%hu", (unsigned short)x);
    case 4: return hprintf("%i", (int)x);
    case 5: return hprintf("%u", (unsigned)x);
    case 6: case 8: return hprintf("%li", (long)x);
    case 7: case 9: return hprintf("%lu", (unsigned long)x);
    case 10: return x ? "true" : "false";
    case 11: memcpy(&f, a, 4); return hprintf("%f", f);
    case 12: memcpy(&d, a, 8); return hprintf("%lf", d);
    case 13: memcpy(&l, a, 16); return hprintf("%Lf", l);
    case 14: memcpy(&f, a, 4); memcpy(&f2, a + 4, 4); return hprintf(f2 < 0 ? "%f - I * %f" : "%f + I * %f", f, f2 < 0 ? -f2 : f2);
    case 15: memcpy(&d, a, 8); memcpy(&d2, a + 8, 8); return hprintf(d2 < 0 ? "%lf - I * %lf" : "%lf + I * %lf", d, d2 < 0 ? -d2 : d2);
    default: memcpy(&l, a, 16); memcpy(&l2, a + 16, 16); return hprintf(l2 < 0 ? "%Lf - I * %Lf" : "%Lf + I * %Lf", l, l2 < 0 ? -l2 : l2);
    }
}
static const char *esc(int c) {
    switch (c) { case '\n': return "\\n"; case '\r': return "\\r"; case '\t': return "\\t"; case '\v': return "\\v"; case '\b': return "\\b"; case '\f': return "\\f"; case '\a': return "\\a";
    case '\\': return "\\\\"; case '\'': return "\\'"; case '"': return "\\\""; case '?': return "\\?"; } return NULL;
}
static char *strtext(const char *a, int64_t n) { /* char array as a literal or NULL */
    if (n < 2 || a[n - 1]) return NULL;
    hbuf_t b = {0}; hb_s(&b, "\"");
    for (int64_t i = 0; i < n - 1; i++) { const char *e = esc(a[i]); if (e) hb_s(&b, e); else if (a[i] > 0 && isprint(a[i])) hb_add(&b, "%c", a[i]); else return NULL; }
    hb_s(&b, "\""); return b.p;
}
static int is_char(mt *t) { t = res(t); return t->k == M_BASE && t->base == 0; }
char *ref_text(vn *v, int deep, int with_map, int *absent) {
    mt *t = v->t; hbuf_t b = {0};
    switch (t->k) {
    case M_BASE: case M_ENUM: return num(t, v);
    case M_ARR: case M_FLEX: {
        if (v->st == V_UNK) return with_map ? "" : "{}";
        if (is_char(t->to)) { char *s = strtext(v->a, v->cnt); if (s) return s; }
        hb_s(&b, "{"); int first = 1;
        for (int i = 0; i < v->nch; i++) { char *s = ref_text(v->ch[i], deep, with_map, absent); if (!s[0]) continue; hb_add(&b, "%s%s,", first ? "" : " ", s); first = 0; }
        hb_s(&b, "}"); return b.p; }
    case M_STRUCT: case M_UNION: {
        int an = v->via && !v->via->name; int first = 1; /* members without a name are shown as if they were members of the outer type */
        if (!an) hb_s(&b, "{"); else hb_s(&b, "");
        for (int i = 0; i < v->nch; i++) {
            char *s = ref_text(v->ch[i], deep, with_map, absent); if (!s[0]) continue;
            const char *nm = v->ch[i]->via->name;
            if (nm) hb_add(&b, "%s.%s = %s,", first ? "" : " ", nm, s); else hb_add(&b, "%s%s", first ? "" : " ", s);
            first = 0;
        }
        if (!an) hb_s(&b, "}"); return b.p; }
    case M_PTR: {
        if (v->st == V_NULL) return "NULL";
        if (!deep) return hprintf("%p", v->pv);
        if (v->st == V_OPAQUE) return hprintf("%p", v->pv);
        if (v->st == V_LOOP || v->st == V_BAD || v->cont) { *absent = 1; return "?"; }
        char *s = ref_text(v->ch[0], deep, with_map, absent);
        if (s[0] == '"') return s;
        return hprintf("(%s)%s", decl(v->ch[0]->t->to, "[]"), s); }
    default: *absent = 1; return "?";
    }
}
