/* P11: captured calls, P12: captured printf arguments. */
#include "deep.h"
#include "cap.h"
#include <stdlib.h>
static world_t *W; static fn_t *F[8]; static int nf;
static void setup(rng_t *r) {
    wcfg_t c; rand_cfg(r, &c, 1); W = world_make(r, &c); nf = 5;
    for (int i = 0; i < nf; i++) { int k = rng_i(r, 0, 99); F[i] = fn_make(W, r, k < 45 ? 0 : k < 75 ? 1 : 2, va_accessor); }
}
static void finish(void) { world_free(W); CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left after the tag maps are deleted"); }
typedef struct { fn_t *f; obj_t *o; format_t *fm; va_t *v, *in; int words, failing; uint8_t *top; } call_t;
static call_t call_make(fn_t *f, rng_t *q, uint64_t seed, int direct) {
    call_t c = { .f = f }; c.o = obj_make(W, seed, f->top); if (!c.o) return c;
    c.v = direct ? va_new(16, 0, 12288) : va_new(8 * rng_i(q, 0, 6), 16 * rng_i(q, 0, 8), 12288);
    rng_t fr = rng_make(seed, 77, 1); if (f->vakind) c.fm = format_make(&fr, 6, 1);
    if (c.fm) { mm *m = &f->args->m[f->vapos - 1]; char *p = obj_block(c.o, strlen(c.fm->fmt) + 1); strcpy(p, c.fm->fmt); memcpy(c.o->top + m->off, &p, 8); }
    for (int i = 0, k = 0; i < f->np; i++) {
        if (f->vakind && i == f->vapos) {
            if (f->vakind == 1) format_pass(c.fm, c.v);
            else { c.in = va_new(8 * rng_i(q, 0, 6), 16 * rng_i(q, 0, 8), 4096); format_pass(c.fm, c.in); struct va_list_container *pc = heap_obj_alloc(sizeof *pc); *pc = c.in->c; va_int(c.v, (uint64_t)pc); }
            continue;
        }
        mm *m = &f->args->m[k++]; va_arg_of(c.v, m->t, c.o->top + m->off);
    }
    c.top = halloc(c.o->topsize); memcpy(c.top, c.o->top, c.o->topsize); c.words = (c.v->nov + 7) / 8; return c;
}
static int arg_eq(mt *t, const void *a, const void *b) {
    t = res(t); if (t->k == M_BASE && t->base == 13) return !memcmp(a, b, 10);
    if (t->k == M_BASE && t->base == 16) return !memcmp(a, b, 10) && !memcmp((char *)a + 16, (char *)b + 16, 10);
    return !memcmp(a, b, t->size);
}
/* every parameter is there with the argument's value */
static void check_items(call_t *c, metac_value_t *v, const char *what, int deepcopied) {
    fn_t *f = c->f; int n = SUTQ(metac_value_parameter_count(v)); CHECK(n == f->np, "capture-count", "%s: %d parameters are stored, the function has %d", what, n, f->np);
    for (int i = 0, k = 0; i < f->np; i++) {
        metac_value_t *x = SUTQ(metac_value_parameter_new_item(v, i)); CHECK(x != NULL, "capture-item", "%s: parameter %d can't be taken", what, i);
        CHECK(SUTQ(metac_value_entry(x)) == &f->par[i], "capture-item", "%s: parameter %d has another entry", what, i);
        if (f->vakind && i == f->vapos) { if (f->vahint) { if (!deepcopied) format_check(c->fm, SUTQ(metac_value_addr(x)), 0, 0); else CHECK(SUTQ(metac_value_parameter_count(x)) == c->fm->n, "capture-count", "%s: the variable part has another number of arguments", what); } }
        else { mm *m = &f->args->m[k++]; mt *t = res(m->t); if (!deepcopied || t->k == M_BASE || t->k == M_ENUM) CHECK(arg_eq(m->t, c->top + m->off, SUTQ(metac_value_addr(x))), "capture-value", "%s: parameter %d (%s) isn't the argument's value", what, i, ref_cdecl_as(m->t, m->name)); }
        SUTQV(metac_value_delete(x));
    }
}
static void new_dst(fn_t *f, metac_parameter_storage_t **ps, metac_value_t **pv, rng_t *q, int both) {
    uint32_t seq = heap_seq(); *pv = NULL;
    if (both && rng_p(q, 30)) {
        *pv = SUT(metac_new_value_with_call_params(f->e)); if (!*pv) { CHECK(sim_last_hits(), "capture-setup", "no call value although nothing failed"); CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "failed creation of a call value leaves memory"); *pv = SUTQ(metac_new_value_with_call_params(f->e)); }
        CHECK(*pv, "capture-setup", "no call value with memory available"); *ps = SUTQ(metac_value_addr(*pv)); return;
    }
    *ps = SUT(metac_new_parameter_storage()); if (!*ps) { CHECK(sim_last_hits(), "capture-setup", "no parameter storage although nothing failed"); *ps = SUTQ(metac_new_parameter_storage()); }
    *pv = SUT(metac_new_value(f->e, *ps)); if (!*pv) { CHECK(sim_last_hits(), "capture-setup", "no value although nothing failed"); *pv = mkval(f->e, *ps); }
}
static metac_value_t *do_wrap(call_t *c, metac_value_t *v, metac_tag_map_t *map, int direct, int quiet) {
    va_t *a = c->v;
    if (direct) return quiet ? SUTQ(metac_value_parameter_wrap(v, map, VA_PASS(a, 2))) : SUT(metac_value_parameter_wrap(v, map, VA_PASS(a, 2)));
    return quiet ? SUTQ(metac_value_parameter_vwrap(v, map, a->c.parameters)) : SUT(metac_value_parameter_vwrap(v, map, a->c.parameters));
}
static char *call_text(call_t *c, int *absent) {
    fn_t *f = c->f; vinfo_t vi = {0}; vn *v = obj_view(c->o, &vi); hbuf_t b = {0}; int first = 1; hb_add(&b, "%s(", f->name); if (vi.bad) *absent = 1;
    for (int i = 0, k = 0; i < f->np; i++) {
        char *s;
        if (f->vakind && i == f->vapos) { s = f->vahint ? format_text(c->fm) : ""; if (f->vakind == 2) s = hprintf("VA_LIST(%s)", s); }
        else { vn x = *v->ch[k++]; s = ref_text(&x, 1, W->map != NULL, absent); }
        if (!s[0]) continue; hb_add(&b, "%s%s", first ? "" : ", ", s); first = 0;
    }
    hb_s(&b, ")"); return b.p;
}
static void check_text(metac_value_t *v, metac_tag_map_t *map, const char *want, int absent, const char *what) {
    char *s = NULL;
    for (int i = 0; i < 2 && !s; i++) {
        uint32_t seq = heap_seq(); s = i ? SUTQ(metac_value_string_ex(v, METAC_WMODE_deep, map)) : SUT(metac_value_string_ex(v, METAC_WMODE_deep, map)); uint32_t h = sim_last_hits(); sim_trace_s(s);
        CHECK(heap_live(1 << H_SUT, seq, NULL) == (s != NULL), "text-leak", "%s: memory is left by the text of a call", what);
        if (!s) { CHECK(absent || h, "text-absent", "%s: no text of a call although nothing failed; expected %s", what, want); if (absent) return; }
    }
    CHECK(!absent, "text-guess", "%s: text is given although there can be none: %s", what, s);
    CHECK(!strcmp(s, want), "text-wrong", "%s: text of the call is\n      %s\n    has to be\n      %s", what, s, want); SUTQV(sim_free(s)); sim_probe("capture: text of a call");
}
static void drop(metac_value_t *v, metac_parameter_storage_t *ps, rng_t *q) {
    if (rng_p(q, 40)) { SUTQV(metac_value_with_call_params_delete(v)); return; }
    SUTQV(metac_parameter_storage_delete(ps)); SUTQV(metac_value_delete(v));
}
static metac_value_t *capture(call_t *c, rng_t *q, metac_tag_map_t *map, int direct, metac_parameter_storage_t **ps, int must_fail_) {
    metac_value_t *v, *r = NULL; uint32_t seq0 = heap_seq(); new_dst(c->f, ps, &v, q, 1); uint32_t seq;
    for (int i = 0; i < 2; i++) {
        if (i) v = mkval(c->f->e, *ps);
        seq = heap_seq(); r = do_wrap(c, v, map, direct, i); uint32_t h = sim_last_hits(); sim_trace_u(r != NULL);
        if (r) { CHECK(r == v, "capture-value", "another value is given back"); CHECK(!must_fail_, "capture-guess", "a call is captured although %s", c->fm && c->fm->bad ? hprintf("format '%s' has an unsupported conversion", c->fm->fmt) : "it can't be"); break; }
        CHECK(must_fail_ || h, "capture-fails", "a call of %s isn't captured although nothing failed%s%s", ref_cdecl_as(c->f->args, ""), c->fm ? ", format " : "", c->fm ? c->fm->fmt : "");
        hblk_t *fb = NULL; int left = heap_live(1 << H_SUT, seq, &fb); CHECK(left == 0, "leak", "a failed capture leaves %d blocks, first of %zu bytes", left, fb ? fb->size : 0);
        CHECK(heap_owned(*ps, H_SUT), "capture-frees", "a failed capture releases the caller's parameter storage");
        sim_probe(must_fail_ ? "capture: refused" : "capture: failed by a fault"); if (must_fail_) break;
    }
    if (!r) { SUTQV(metac_parameter_storage_delete(*ps)); hblk_t *fb = NULL; CHECK(heap_live(1 << H_SUT, seq0, &fb) == 0, "leak", "memory is left after a failed capture, first block of %zu bytes", fb ? fb->size : 0); }
    return r;
}
static void op_call(rng_t *q) {
    fn_t *f = F[rng_n(q, (uint64_t)nf)]; uint64_t seed = rng_u64(q); int direct = rng_p(q, 35); uint32_t seq0 = heap_seq();
    call_t c = call_make(f, q, seed, direct); if (!c.o) return;
    if (direct && c.words > VA_WORDS) { obj_destroy(c.o); return; }
    metac_tag_map_t *map = W->map; if (!f->vakind && rng_p(q, 20)) map = NULL;
    /* structures which have no accessor can't be taken */
    mt *noacc = NULL; if (rng_p(q, 6) && sim_plan->ntasks == 1) for (int i = 0; i < f->args->nm; i++) { mt *t = res(f->args->m[i].t); if (t->k == M_STRUCT) { noacc = t; t->e->structure_type_info.p_va_arg_fn = NULL; break; } }
    int mf = noacc || (f->vakind && !map) || (f->vakind && f->vahint && c.fm->bad);
    metac_parameter_storage_t *ps; metac_value_t *v = capture(&c, q, map, direct, &ps, mf);
    if (noacc) noacc->e->structure_type_info.p_va_arg_fn = va_accessor(noacc->size);
    if (!v) { obj_destroy(c.o); return; }
    int absent = 0; char *want = !f->sub && map == W->map && !(c.o->oddloop) ? call_text(&c, &absent) : NULL;
    /* the caller's variables change */
    va_scramble(c.v); if (c.in) va_scramble(c.in); memset(c.o->top, 0xee, c.o->topsize); if (c.fm) format_spoil(c.fm);
    check_items(&c, v, "capture", 0); sim_probe(direct ? "capture: variadic call" : "capture: va_list"); if (f->vakind && f->vahint) sim_probe("capture: with variable arguments");
    if (want) check_text(v, map, want, absent, "capture");
    /* an independent copy */
    if (rng_p(q, 60)) {
        metac_parameter_storage_t *p2; metac_value_t *v2; new_dst(f, &p2, &v2, q, 0); uint32_t seq = heap_seq();
        int rc = SUT(metac_parameter_storage_copy(ps, p2)); uint32_t h = sim_last_hits();
        if (rc) { CHECK(h, "capture-copy", "a capture isn't copied although nothing failed (%d)", rc); CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "a failed copy of a capture leaves memory"); sim_probe("capture: copy failed by a fault");
            rc = SUTQ(metac_parameter_storage_copy(ps, p2)); CHECK(rc == 0, "capture-copy", "the copy can't be repeated (%d)", rc); }
        check_items(&c, v2, "copy of the capture", 0); check_items(&c, v, "capture after it was copied", 0);
        if (rng_p(q, 50)) { /* a change of one isn't seen in the other */
            metac_value_t *a = rng_p(q, 50) ? v : v2, *b = a == v ? v2 : v;
            for (int i = 0, k = 0; i < f->np; i++) { if (f->vakind && i == f->vapos) continue; mm *m = &f->args->m[k++]; metac_value_t *x = SUTQ(metac_value_parameter_new_item(a, i)); memset(SUTQ(metac_value_addr(x)), 0x77, m->t->size); SUTQV(metac_value_delete(x)); }
            check_items(&c, b, "capture whose copy was changed", 0);
            if (a == v) { metac_value_t *t = v; v = v2; v2 = t; metac_parameter_storage_t *tp = ps; ps = p2; p2 = tp; }
            drop(v2, p2, q);
        } else if (rng_p(q, 50)) { drop(v, ps, q); v = v2; ps = p2; check_items(&c, v, "copy of a deleted capture", 0); if (want) check_text(v, map, want, absent, "copy of a deleted capture"); }
        else drop(v2, p2, q);
        sim_probe("capture: copied");
    }
    memcpy(c.o->top, c.top, c.o->topsize); /* the arguments as they were */
    vinfo_t vi = {0}; obj_view(c.o, &vi); metac_value_memory_map_mode_t md = {0}, *pm = NULL; metac_value_memory_map_non_handled_mode_t nm = {0}, *pn = NULL; int opq = 0;
    if (rng_p(q, 40)) { md.unknown_ptr_mode = nm.unknown_ptr_mode = METAC_UPTR_as_values; md.memory_block_mode = rng_p(q, 60) ? METAC_MMODE_dag : METAC_MMODE_tree; pm = &md; pn = &nm; sim_probe("capture: unknown pointers as values"); }
    if (c.fm) for (int i = 0; i < c.fm->n; i++) if (c.fm->c[i].opaque) opq = 1;
    int deep_ok = map == W->map && !must_fail(c.o, &vi, &md) && !vi.consts && (!opq || pm) && !(f->vakind && !f->vahint);
    /* a second capture of the same call is equal, of a changed one isn't */
    if (deep_ok && rng_p(q, 40)) {
        int diff = rng_p(q, 50), k = -1; if (diff) { for (int t = 0; t < 8 && k < 0 && f->args->nm; t++) { int i = (int)rng_n(q, (uint64_t)f->args->nm); mm *m = &f->args->m[i]; if (m->role == R_PLAIN && is_intlike(m->t) && !(res(m->t)->k == M_BASE && res(m->t)->base == 10)) k = i; } }
        if (c.fm) { /* the strings were spoilt above */ for (int i = 0; i < c.fm->n; i++) if (c.fm->c[i].conv == 's' && c.fm->c[i].str) { char *cp; memcpy(&cp, c.fm->c[i].val + 8, 8); memcpy(c.fm->c[i].str, cp, c.fm->c[i].len); } }
        call_t c2 = c; rng_t q2 = *q; (void)q2; c2.v = va_new(0, 0, 12288); if (k >= 0) { mm *m = &f->args->m[k]; wr_int(m->t, c.o->top + m->off, 0, 0, rd_int(m->t, c.o->top + m->off, 0, 0) ^ 1); }
        for (int i = 0, z = 0; i < f->np; i++) {
            if (f->vakind && i == f->vapos) { if (f->vakind == 1) format_pass(c.fm, c2.v); else { c2.in = va_new(0, 0, 4096); format_pass(c.fm, c2.in); struct va_list_container *pc = heap_obj_alloc(sizeof *pc); *pc = c2.in->c; va_int(c2.v, (uint64_t)pc); } continue; }
            mm *m = &f->args->m[z++]; va_arg_of(c2.v, m->t, c.o->top + m->off);
        }
        metac_parameter_storage_t *p2; metac_value_t *v2 = capture(&c2, q, map, 0, &p2, 0);
        for (int i = 0; i < 2; i++) {
            uint32_t seq = heap_seq(); int eq = i ? SUTQ(metac_value_equal_ex(v, v2, pm, map)) : SUT(metac_value_equal_ex(v, v2, pm, map)); uint32_t h = sim_last_hits(); sim_trace_u((uint64_t)eq);
            CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "comparison of captures leaves memory");
            if (eq < 0) { CHECK(h, "capture-equal", "comparison of two captures fails although nothing failed (%d)", eq); continue; }
            CHECK(eq == (k < 0), "capture-equal", "captures of %s calls are %s", k < 0 ? "the same" : "different", eq ? "equal" : "unequal"); sim_probe(k < 0 ? "capture: equal" : "capture: unequal"); break;
        }
        drop(v2, p2, q); memcpy(c.o->top, c.top, c.o->topsize);
    }
    /* a deep copy of the capture survives the caller's objects */
    if (deep_ok && rng_p(q, 40)) {
        metac_parameter_storage_t *p2; metac_value_t *v2; new_dst(f, &p2, &v2, q, 0); metac_value_t *r = NULL;
        for (int i = 0; i < 2 && !r; i++) {
            uint32_t seq = heap_seq(); r = i ? SUTQ(metac_value_copy_ex(v, v2, pm, user_calloc, user_free, map)) : SUT(metac_value_copy_ex(v, v2, pm, user_calloc, user_free, map)); uint32_t h = sim_last_hits();
            if (!r) { CHECK(h, "capture-deep", "a capture isn't deeply copied although nothing failed"); CHECK(heap_live((1 << H_SUT) | (1 << H_USER), seq, NULL) == 0, "leak", "a failed deep copy of a capture leaves memory"); }
        }
        check_items(&c, v2, "deep copy", 1); drop(v, ps, q); v = v2; ps = p2;
        for (int i = 0; i < c.o->nb; i++) if (i) memset(c.o->b[i].a, 0xdd, c.o->b[i].n);
        if (want) check_text(v, map, want, absent, "deep copy of a capture");
        int rc = SUT(metac_value_free_ex(v, pn, user_free, map)); if (!rc) { CHECK(sim_last_hits(), "capture-deep", "the memory of a deep copy isn't released although nothing failed"); rc = SUTQ(metac_value_free_ex(v, pn, user_free, map)); CHECK(rc, "capture-deep", "release of a deep copy can't be repeated"); }
        CHECK(heap_live(1 << H_USER, seq0, NULL) == 0, "leak", "memory of the deep copy of a capture is left after its release"); sim_probe("capture: deep copy"); if (f->vakind) sim_probe("capture: deep copy with variable arguments");
    }
    drop(v, ps, q); hblk_t *fb = NULL; CHECK(heap_live(1 << H_SUT, seq0, &fb) == 0, "leak", "memory is left after a capture is deleted, first block of %zu bytes", fb ? fb->size : 0);
    obj_destroy(c.o);
}
static void op_result(rng_t *q) {
    fn_t *f = F[rng_n(q, (uint64_t)nf)]; metac_entry_t *re = f->sub ? f->e->subroutine_type_info.type : f->e->subprogram_info.type; uint32_t seq = heap_seq();
    metac_value_t *v = SUT(metac_new_value_with_call_result(f->e)); uint32_t h = sim_last_hits();
    if (!re) CHECK(!v, "result", "a function without a result gives a value");
    else if (!v) { CHECK(h, "result", "no place for the result although nothing failed"); CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "memory is left"); }
    else { CHECK(SUTQ(metac_value_entry(v)) == re, "result", "the result has another type"); metac_size_t sz = 0; SUTQ(metac_entry_byte_size(re, &sz)); memset(SUTQ(metac_value_addr(v)), 1, sz); SUTQV(metac_value_with_call_result_delete(v)); }
    CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "memory is left after the result is deleted"); sim_probe("capture: place for a result");
}
static void body(sim_task_t *t) {
    for (int i = 0; i < 10; i++) {
        if (!op_on(t, i)) continue;
        rng_t q = rng_make(sim_plan->seed, 0x1100 + (uint64_t)t->id, (uint64_t)i); if (rng_p(&q, 8)) op_result(&q); else op_call(&q);
    }
}
const prop_t prop_p11 = { .id = "P11", .max_tasks = 2, .variants = 8, .max_ops = 10, .setup = setup, .body = body, .finish = finish, .quick_seeds = 1000, .thorough_seeds = 60000,
    .what = "calls of random functions (0 to 12 parameters of all base types, enums, pointers, structures and unions of up to 256 bytes, ... and va_list with a format hint) whose arguments lie in seeded register and stack positions are captured, printed, compared, copied shallow and deep and deleted in any order while the caller's variables are overwritten, with failing allocations and hints; every parameter is compared with the argument" };

/* ---------- P12 ---------- */
static void f_setup(rng_t *r) { (void)r; for (int i = 0; i < base_count(); i++) t_base(i); }
static void f_finish(void) { CHECK(heap_live(1 << H_SUT, 0, NULL) == 0, "leak", "memory is left at the end"); }
static void f_body(sim_task_t *t) {
    for (int i = 0; i < 12; i++) {
        if (!op_on(t, i)) continue;
        rng_t q = rng_make(sim_plan->seed, 0x1200 + (uint64_t)t->id, (uint64_t)i); uint32_t seq0 = heap_seq();
        metac_parameter_storage_t *st = SUT(metac_new_parameter_storage()); if (!st) { CHECK(sim_last_hits(), "format-setup", "no parameter storage although nothing failed"); continue; }
        int rounds = rng_p(&q, 25) ? 2 : 1, from = 0; format_t *fs[2] = {0};
        for (int k = 0; k < rounds; k++) {
            format_t *f = format_make(&q, rng_p(&q, 10) ? 30 : 7, 2); int direct = rng_p(&q, 40); va_t *v = direct ? va_new(16, 0, 4096) : va_new(8 * rng_i(&q, 0, 6), 16 * rng_i(&q, 0, 8), 4096); format_pass(f, v);
            if (direct && v->nov > VA_WORDS * 8) direct = 0, v = va_new(0, 0, 4096), format_pass(f, v);
            if (!f->bad) { int n = (int)SUTQ(metac_count_format_specifiers(f->fmt)); CHECK(n == f->n, "format-count", "%d conversions are counted in '%s', it has %d", n, f->fmt, f->n); }
            int rc = -1;
            for (int z = 0; z < 2; z++) {
                uint32_t seq = heap_seq();
                if (direct) rc = z ? SUTQ(metac_store_printf_params(st, f->fmt, VA_PASS(v, 2))) : SUT(metac_store_printf_params(st, f->fmt, VA_PASS(v, 2)));
                else rc = z ? SUTQ(metac_store_vprintf_params(st, f->fmt, v->c.parameters)) : SUT(metac_store_vprintf_params(st, f->fmt, v->c.parameters));
                uint32_t h = sim_last_hits(); sim_trace_u((uint64_t)rc);
                if (rc == 0) { CHECK(!f->bad, "format-guess", "format '%s' with an unsupported conversion is accepted", f->fmt); break; }
                CHECK(f->bad || h, "format-fails", "format '%s' isn't accepted although nothing failed (%d)", f->fmt, rc); int n = SUTQ(metac_parameter_storage_size(st));
                if (n != from) { SUTQV(metac_parameter_storage_cleanup(st)); from = 0; fs[0] = NULL; } /* what was stored before a failure may stay until the storage is cleaned up */
                else CHECK(heap_live(1 << H_SUT, seq, NULL) == 0, "leak", "a refused format '%s' leaves memory", f->fmt);
                sim_probe(f->bad ? "format: unsupported conversion refused" : "format: failed by a fault"); if (f->bad) break;
            }
            if (rc == 0) { va_scramble(v); format_spoil(f); format_check(f, st, from, 0); if (k && fs[0] && from) { /* what was there before */ format_check(fs[0], st, 0, 1); sim_probe("format: appended to a used storage"); } fs[k] = f; from += f->n; sim_probe(direct ? "format: variadic" : "format: va_list"); }
        }
        if (fs[0] && rng_p(&q, 40) && rounds == 1) { /* texts of single arguments, and a copy */
            metac_parameter_storage_t *s2 = SUT(metac_new_parameter_storage());
            if (s2) {
                int rc = SUT(metac_parameter_storage_copy(st, s2)); if (rc) { CHECK(sim_last_hits(), "format-copy", "stored arguments aren't copied although nothing failed"); SUTQV(metac_parameter_storage_delete(s2)); }
                else { SUTQV(metac_parameter_storage_delete(st)); st = s2; format_check(fs[0], st, 0, 0); }
            }
            for (int k = 0; k < fs[0]->n; k++) {
                conv_t *c = &fs[0]->c[k]; if (c->conv == 'p') continue; metac_value_t *x = SUTQ(metac_parameter_storage_new_param_value(st, k)); char *s = SUT(metac_value_string_ex(x, METAC_WMODE_deep, NULL)); uint32_t h = sim_last_hits();
                const char *w = c->text; if (w[0] == '(' && c->conv != 's') w = strchr(w, ')') + 1; else if (w[0] == '(') w = strchr(w, ')') + 1;
                if (!s) CHECK(h, "format-text", "no text of an argument although nothing failed"); else { CHECK(!strcmp(s, w), "format-text", "text of an argument of '%s' is %s, has to be %s", fs[0]->fmt, s, w); SUTQV(sim_free(s)); }
                SUTQV(metac_value_delete(x));
            }
        }
        SUTQV(metac_parameter_storage_delete(st)); hblk_t *fb = NULL; CHECK(heap_live(1 << H_SUT, seq0, &fb) == 0, "leak", "memory is left after stored arguments are deleted, first block of %zu bytes", fb ? fb->size : 0);
    }
}
const prop_t prop_p12 = { .id = "P12", .max_tasks = 2, .variants = 6, .max_ops = 12, .setup = f_setup, .body = f_body, .finish = f_finish, .quick_seeds = 6000, .thorough_seeds = 200000,
    .what = "12 random formats per run (0 to 30 conversions with flags, widths, precisions, length modifiers, literal text and %% around them; strings of 0 to 700 bytes; unsupported and broken conversions) with arguments in seeded register and stack positions, captured through the variadic and the va_list call, with failing allocations; type and value of every stored parameter are compared with the argument after the caller's data is overwritten" };
