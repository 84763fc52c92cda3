#include "walk.h"
#include "metac/backend/entry.h"
#include <stdio.h>
#include <stdlib.h>
static int fails; static char path[4096]; static struct metac_db *db; static const char *unit;
static struct { const struct xt *x; metac_entry_t *e; } *seen; static int nseen;
long first_bit(const unsigned char *b, long n) { for (long i = 0; i < n * 8; ++i) if (b[i >> 3] & (1 << (i & 7))) return i; return -1; }
static void bad(const char *kind, const char *f, ...) {
    if (++fails > 20) return;
    va_list a; va_start(a, f); printf("BAD %s %s: ", kind, path); vprintf(f, a); printf("\n"); va_end(a);
}
#define EQS(kind, a, b) do { const char *a_ = (a), *b_ = (b); if ((a_ == NULL) != (b_ == NULL) || (a_ && strcmp(a_, b_))) bad(kind, "%s instead of %s", a_ ? a_ : "(none)", b_ ? b_ : "(none)"); } while (0)
#define EQL(kind, a, b) do { long long a_ = (a), b_ = (b); if (a_ != b_) bad(kind, "%lld instead of %lld", a_, b_); } while (0)
static metac_entry_t *quals(metac_entry_t *e, int *q) {
    while (e) {
        if (e->kind == METAC_KND_const_type) *q |= Q_CONST;
        else if (e->kind == METAC_KND_volatile_type) *q |= Q_VOLATILE;
        else if (e->kind == METAC_KND_restrict_type) *q |= Q_RESTRICT;
        else break;
        e = e->qual_type_info.type;
    }
    return e;
}
static int in_unit(metac_entry_t *e, const char *u, int depth) {
    if (!e || depth > 200) return 0;
    if (e->kind == METAC_KND_compile_unit) return e->name && !strcmp(e->name, u);
    for (int i = 0; i < metac_entry_parent_count(e); ++i) if (in_unit(metac_entry_parent_entry(e, i), u, depth + 1)) return 1;
    return 0;
}
static void in_list(const char *what, struct name_to_entries *l, const char *name, metac_entry_t *e) {
    int n = 0, m = 0;
    for (int i = 0; i < l->items_count; ++i) if (l->items[i].name && !strcmp(l->items[i].name, name)) { ++n; for (int k = 0; k < l->items[i].entries_count; ++k) m += l->items[i].entries[k] == e; }
    if (n != 1 || m != 1) bad("database", "%s %s is there %d times, with this entry %d times", what, name, n, m);
}
static void in_db(metac_entry_t *e) {
    if (!db || !e->name) return;
    struct db_v0 *d = &db->db_v0;
    switch (e->kind) {
    case METAC_KND_base_type: in_list("base type", &d->base_types, e->name, e); break;
    case METAC_KND_enumeration_type: in_list("enum", &d->enums, e->name, e); break;
    case METAC_KND_typedef: in_list("typedef", &d->typedefs, e->name, e); break;
    case METAC_KND_struct_type: in_list("struct", &d->structs, e->name, e); break;
    case METAC_KND_union_type: in_list("union", &d->unions, e->name, e); break;
    case METAC_KND_variable: in_list("variable", &d->variables, e->name, e); break;
    case METAC_KND_subprogram: in_list("function", &d->subprograms, e->name, e); break;
    }
}
void chk_db(struct metac_db *p) { if (!p || p->version != 0) { strcpy(path, "database"); bad("database", "no database"); return; } db = p; }
/* compilers may put the qualifiers of the elements on the array and may look through typedefs of arrays */
static int elem_quals(const struct xt *x) { int q = 0; for (; x && (x->k == X_ARR || x->k == X_TYPEDEF || x->k == X_QUAL); x = x->type) q |= x->k == X_QUAL ? x->quals : 0; return q; }
static int is_arr(const struct xt *x) { while (x && (x->k == X_TYPEDEF || x->k == X_QUAL)) x = x->type; return x && x->k == X_ARR; }
static const struct xt *elem(const struct xt *x, metac_entry_t *e) {
    int q = 0; const struct xt *r = x; e = quals(e, &q);
    if (!e || e->kind != METAC_KND_array_type) return x;
    while (r && (r->k == X_TYPEDEF || r->k == X_QUAL)) r = r->type;
    return r && r->k == X_ARR ? r : x;
}
static void chk_type(const struct xt *x, metac_entry_t *e);
static void sub(const char *s, const struct xt *x, metac_entry_t *e) {
    size_t n = strlen(path); if (n + strlen(s) + 2 > sizeof path) return;
    strcpy(path + n, s); chk_type(x, e); path[n] = 0;
}
static void name_of(const char *kind, const char *got, const char *want) { /* want may list several accepted names */
    if (want && strchr(want, '|')) {
        char b[200]; strcpy(b, want);
        for (char *s = strtok(b, "|"); s; s = strtok(NULL, "|")) if (got && !strcmp(s, got)) return;
    }
    EQS(kind, got, want);
}
static void chk_params(const struct xt *ret, int n, const struct xm *p, int variadic, int named, metac_entry_t *e) {
    EQL("parameters", metac_entry_parameters_count(e), n + variadic);
    if (metac_entry_parameters_count(e) != n + variadic) return;
    for (int i = 0; i < n + variadic; ++i) {
        metac_entry_t *q = metac_entry_by_paremeter_id(e, i);
        if (!q || !metac_entry_is_parameter(q)) { bad("parameters", "parameter %d isn't one", i); continue; }
        EQL("parameters", metac_entry_is_unspecified_parameter(q) != 0, i == n);
        if (i == n) continue;
        if (named) EQS("parameter name", metac_entry_name(q), p[i].name);
        if (q->parents_count != 1 || q->parents[0] != e) bad("parents", "parameter %d", i);
        char b[40]; sprintf(b, "(%d)", i); sub(b, p[i].t, metac_entry_parameter_entry(q));
    }
    EQL("result", metac_entry_has_result(e) != 0, ret->k != X_VOID);
    sub("()", ret, e->kind == METAC_KND_subprogram ? e->subprogram_info.type : e->subroutine_type_info.type);
}
static void chk_type(const struct xt *x, metac_entry_t *e) {
    int q = 0, xq = 0;
    e = quals(e, &q);
    while (x->k == X_QUAL) { xq |= x->quals; x = x->type; }
    if (is_arr(x) ? (q & ~elem_quals(x)) | (xq & ~q) : q != xq) bad("qualifiers", "%d instead of %d", q, xq);
    if (x->k == X_VOID) { if (e) bad("type", "something instead of void"); return; }
    if (!e) { bad("type", "nothing instead of a type of kind %d", x->k); return; }
    for (int i = 0; i < nseen; ++i) if (seen[i].x == x && seen[i].e == e) return;
    seen = realloc(seen, sizeof *seen * (nseen + 1)); seen[nseen].x = x; seen[nseen++].e = e;
    static const int kinds[] = { [X_BASE] = METAC_KND_base_type, [X_PTR] = METAC_KND_pointer_type, [X_ARR] = METAC_KND_array_type, [X_STRUCT] = METAC_KND_struct_type, [X_UNION] = METAC_KND_union_type, [X_ENUM] = METAC_KND_enumeration_type, [X_TYPEDEF] = METAC_KND_typedef, [X_FUNC] = METAC_KND_subroutine_type, [X_DECL_S] = METAC_KND_struct_type, [X_DECL_U] = METAC_KND_union_type };
    if (metac_entry_kind(e) != kinds[x->k]) { bad("kind", "%d instead of %d", metac_entry_kind(e), kinds[x->k]); return; }
    name_of("type name", metac_entry_name(e), x->name);
    if (!in_unit(e, unit, 0)) bad("parents", "unit %s isn't a parent of the type %s", unit, e->name ? e->name : "");
    in_db(e);
    if (x->k == X_DECL_S || x->k == X_DECL_U) return;
    if (e->declaration) { bad("declaration", "%s is only declared", e->name ? e->name : ""); return; }
    metac_size_t sz = -1; char b[200];
    if (x->size >= 0) { EQL("size call", metac_entry_byte_size(e, &sz), 0); EQL("size", sz, x->size); }
    switch (x->k) {
    case X_BASE: EQL("encoding", e->base_type_info.encoding, x->enc); break;
    case X_PTR: sub("*", x->type, e->pointer_type_info.type); break;
    case X_ARR: EQL("count", x->count > 0x7fffffff ? e->array_type_info.count : metac_entry_element_count(e), x->count); EQL("lower bound", e->array_type_info.lower_bound, 0); sub("[]", elem(x->type, metac_entry_element_entry(e)), metac_entry_element_entry(e)); break;
    case X_TYPEDEF: sub("=", x->type, e->typedef_info.type); break;
    case X_ENUM:
        EQL("enumerators", metac_entry_enumeration_info_size(e), x->n);
        for (int i = 0; i < x->n && metac_entry_enumeration_info_size(e) == x->n; ++i) {
            struct metac_type_enumerator_info const *p = metac_entry_enumeration_info(e, i);
            if (!p) { bad("enumerator", "no %d", i); continue; }
            EQS("enumerator", p->name, x->e[i].name); EQL("enumerator value", p->const_value, x->e[i].v);
        }
        break;
    case X_FUNC: chk_params(x->type, x->n, x->m, x->variadic, 0, e); break;
    case X_STRUCT: case X_UNION:
        EQL("members", metac_entry_member_count(e), x->n);
        if (metac_entry_member_count(e) != x->n) break;
        for (int i = 0; i < x->n; ++i) {
            metac_entry_t *m = metac_entry_by_member_id(e, i); const struct xm *xm = &x->m[i];
            if (!m || !metac_entry_is_member(m)) { bad("members", "member %d isn't one", i); continue; }
            size_t pl = strlen(path); snprintf(b, sizeof b, ".%s", xm->name ? xm->name : "_"); if (pl + strlen(b) + 2 < sizeof path) strcat(path, b);
            EQS("member name", metac_entry_name(m), xm->name);
            if (xm->name) EQL("member by name", metac_entry_member_name_to_id(e, xm->name), i);
            if (m->parents_count != 1 || m->parents[0] != e) bad("parents", "member %d", i);
            if (xm->bits) {
                metac_offset_t by = 0, bi = 0, bs = 0; EQL("bit-field call", metac_entry_member_bitfield_offsets(m, &by, &bi, &bs), 0);
                EQL("bit offset", by * 8 + bi, xm->bo()); EQL("bits", bs, xm->bits);
            } else {
                struct metac_member_raw_location_info r = {0}; EQL("location call", metac_entry_member_raw_location_info(m, &r), 0);
                EQL("offset", r.byte_offset, xm->off);
                if (r.p_bit_size || r.p_bit_offset || r.p_data_bit_offset) bad("bits", "bits for a member which isn't a bit-field");
                if (m->member_info.p_alignment && xm->align) EQL("alignment", *m->member_info.p_alignment, xm->align);
            }
            sub("", xm->t, metac_entry_member_entry(m));
            path[pl] = 0;
        }
        if (x->va) { int r = x->va(e); if (r) bad(r == 2 ? "va_arg_abi" : "va_arg", "a structure of %ld bytes isn't read from a variable list as it was passed", x->size); }
        break;
    }
}
static void where(metac_entry_t *e, struct xwhere w) {
    if (!w.line) return;
    if (!in_unit(e, w.unit, 0)) bad("parents", "not in unit %s", w.unit);
    if (e->parents_count != 1) { bad("parents", "%d of them", (int)e->parents_count); return; }
    metac_entry_t *p = e->parents[0], *cu = p; int n = 0; struct hierarchy_item *h = NULL;
    for (int i = 0; i < 100 && cu->kind != METAC_KND_compile_unit && cu->parents_count; ++i) cu = cu->parents[0];
    if (cu->kind != METAC_KND_compile_unit) { bad("parents", "no unit"); return; }
    if (p->kind == METAC_KND_compile_unit) n = p->compile_unit_info.hierarchy_items_count, h = p->compile_unit_info.hierarchy_items;
    else if (p->kind == METAC_KND_subprogram) n = p->subprogram_info.hierarchy_items_count, h = p->subprogram_info.hierarchy_items;
    else if (p->kind == METAC_KND_lex_block) n = p->lex_block_info.hierarchy_items_count, h = p->lex_block_info.hierarchy_items;
    else { bad("parents", "parent of kind %d", p->kind); return; }
    int f = 0;
    for (int i = 0; i < n; ++i) if (h[i].link == e) {
        ++f; if (!h[i].p_decl_line) { bad("location", "no line"); continue; }
        EQL("line", *h[i].p_decl_line, w.line);
        if (!h[i].p_decl_file || *h[i].p_decl_file >= cu->compile_unit_info.decl_files_count) { bad("location", "no file"); continue; }
        EQS("file", cu->compile_unit_info.decl_files[*h[i].p_decl_file], w.file);
    }
    EQL("hierarchy", f, 1);
}
void chk_var(const char *name, const struct xt *x, long size, metac_entry_t *e, struct xwhere w) {
    snprintf(path, sizeof path, "%s", name); unit = w.unit;
    if (!e) { bad("missing", "no entry"); return; }
    if (metac_entry_kind(e) != METAC_KND_variable) { bad("kind", "%d isn't a variable", metac_entry_kind(e)); return; }
    EQS("name", metac_entry_name(e), name);
    if (w.line) EQL("external", e->variable_info.linkage_info.external != 0, w.external);
    where(e, w);
    if (w.line) in_db(e);
    if (size >= 0) { metac_size_t sz = -1; EQL("size call", metac_entry_byte_size(e, &sz), 0); EQL("size", sz, size); }
    chk_type(x, e->variable_info.type);
}
void chk_fn(const char *name, const struct xt *ret, int n, const struct xm *p, int variadic, metac_entry_t *e, struct xwhere w) {
    snprintf(path, sizeof path, "%s", name); unit = w.unit;
    if (!e) { bad("missing", "no entry"); return; }
    if (metac_entry_kind(e) != METAC_KND_subprogram) { bad("kind", "%d isn't a function", metac_entry_kind(e)); return; }
    EQS("name", metac_entry_name(e), name);
    if (w.line) EQL("external", e->subprogram_info.linkage_info.external != 0, w.external);
    where(e, w);
    if (w.line) in_db(e);
    chk_params(ret, n, p, variadic, 1, e);
}
int chk_done(void) { printf("%s %d checks\n", fails ? "FAILED" : "OK", nseen); return fails ? 1 : 0; }
