/* Simulator core: see sim.h. Compiled without instrumentation. */
#define _GNU_SOURCE
#include "sim_int.h"
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>

void __asan_poison_memory_region(void const volatile *addr, size_t size);
void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
void __sanitizer_start_switch_fiber(void **fake_stack_save, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *fake_stack_save, const void **bottom_old, size_t *size_old);

#define ARENA_BASE ((char *)0x200000000000ull)
#define ARENA_SIZE (1024ull << 20)
#define HMEM_BASE ((char *)0x210000000000ull)
#define HMEM_SIZE (2048ull << 20)
#define STACK_BASE ((char *)0x220000000000ull)
#define STACK_SIZE (32ull << 20)
#define STACK_PAINT (192ull << 10)
#define MAX_BLOCKS (4u << 20)
#define REDZONE 32

sim_task_t *sim_cur;
const sim_plan_t *sim_plan;
sim_shared_t *sim_sh;
sim_slot_t *sim_slot;
int sim_verbose;

static sim_task_t tasks[SIM_MAX_TASKS], main_task;
static struct {
    uint64_t step, next_event, budget;
    uint32_t next_switch;
    uint32_t pick; int want_yield;
    uint64_t hash, sched_hash;
    const prop_t *prop;
    void *main_sp; void *main_fake; const void *main_bottom; size_t main_size;
    uint32_t fault_i;
    uint8_t fill;
    uint32_t hits_at_enter;
    uint64_t fault_sites_hash;
} S;

static hblk_t *blocks; static uint32_t nblocks; static char *arena_top, *arena_poisoned;
static char *hmem_top;

extern char __start_sutdata[] __attribute__((weak)), __stop_sutdata[] __attribute__((weak));
static char *sut_snapshot;

/* ---------- trace ---------- */
static void tr(uint64_t v) { S.hash = (S.hash ^ v) * 0x100000001b3ull; S.hash ^= S.hash >> 29; }
void sim_trace_u(uint64_t v) { tr(v); }
void sim_trace_mem(const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) tr(c[i]); }
void sim_trace_s(const char *s) { if (!s) { tr(0xdead); return; } tr(strlen(s)); sim_trace_mem(s, strlen(s)); }
void sim_note(const char *fmt, ...) {
    if (!sim_verbose) return;
    va_list a; va_start(a, fmt);
    fprintf(stderr, "  [task %d op %d step %llu] ", sim_cur ? sim_cur->id : -1, sim_cur ? sim_cur->cur_op : -1, (unsigned long long)S.step);
    vfprintf(stderr, fmt, a); fputc('\n', stderr); va_end(a);
}
static void set_add(uint64_t *set, uint64_t slots, uint64_t *count, uint64_t v) {
    if (v == 0) v = 1;
    uint64_t i = mix64(v) & (slots - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (slots - 1)) {
        uint64_t cur = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
        if (cur == v) return;
        if (cur == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&set[i], &z, v, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(count, 1, __ATOMIC_RELAXED); return; }
            if (z == v) return;
        }
    }
}
void sim_probe(const char *name) {
    uint64_t h = 1469598103934665603ull;
    for (const char *c = name; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
    for (int k = 0, i = (int)(h % SIM_PROBES); k < SIM_PROBES; k++, i = (i + 1) % SIM_PROBES) {
        sim_probe_t *p = &sim_sh->probes[i];
        uint64_t z = __atomic_load_n(&p->h, __ATOMIC_ACQUIRE);
        if (z == 0 && __atomic_compare_exchange_n(&p->h, &z, h, 0, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { strncpy(p->name, name, sizeof p->name - 1); z = h; }
        if (z == h) { __atomic_fetch_add(&p->n, 1, __ATOMIC_RELAXED); return; }
    }
}

/* ---------- violations ---------- */
static void report(int what, const char *kind, const char *fmt, va_list a) {
    sim_result_t *r = &sim_slot->res;
    r->status = what;
    snprintf(r->kind, sizeof r->kind, "%s", kind);
    vsnprintf(r->msg, sizeof r->msg, fmt, a);
    r->task = sim_cur ? sim_cur->id : -1;
    r->op = sim_cur ? sim_cur->cur_op : -1;
    r->step = S.step; r->hash = S.hash;
    if (sim_verbose) fprintf(stderr, "%s: %s: %s (task %d op %d step %llu)\n", what == SIM_VIOLATION ? "VIOLATED" : "HARNESS-ERROR", kind, r->msg, r->task, r->op, (unsigned long long)S.step);
    _exit(77);
}
void sim_fail(const char *kind, const char *fmt, ...) { va_list a; va_start(a, fmt); report(SIM_VIOLATION, kind, fmt, a); __builtin_unreachable(); }
void sim_harness_error(const char *fmt, ...) { va_list a; va_start(a, fmt); report(SIM_HARNESS, "harness", fmt, a); __builtin_unreachable(); }

void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    const char *b = strrchr(f, '/');
    sim_fail("assert", "assertion '%s' failed in %s (%s)", e, fn, b ? b + 1 : f);
}
void sim_abort(void) { sim_fail("abort", "the code under test called abort()"); }
void sim_exit(int rc) { sim_fail("exit", "the code under test called exit(%d)", rc); }

static void on_signal(int sig) {
    sim_result_t *r = &sim_slot->res;
    if (r->status == SIM_RUNNING) {
        if (!sim_cur || !sim_cur->in_sut) { r->status = SIM_VIOLATION; snprintf(r->kind, sizeof r->kind, "damage"); snprintf(r->msg, sizeof r->msg, "signal %d when what the code under test left behind is examined", sig); }
        else { r->status = SIM_VIOLATION; snprintf(r->kind, sizeof r->kind, "crash"); snprintf(r->msg, sizeof r->msg, "signal %d (%s) inside the code under test", sig, sig == SIGSEGV ? "invalid memory access" : sig == SIGALRM || sig == SIGPROF ? "no answer" : "fatal"); }
        r->task = sim_cur ? sim_cur->id : -1; r->op = sim_cur ? sim_cur->cur_op : -1; r->step = S.step; r->hash = S.hash;
        if (sim_verbose) fprintf(stderr, "%s\n", r->msg);
    }
    _exit(77);
}
/* ASan found something: stack/heap/global overflow or use after free in the code under test */
const char *__asan_get_report_description(void); void *__asan_get_report_address(void);
void __asan_on_error(void) {
    sim_result_t *r = &sim_slot->res;
    if (!sim_slot || r->status != SIM_RUNNING) return;
    int sut = sim_cur && sim_cur->in_sut;
    r->status = SIM_VIOLATION;
    snprintf(r->kind, sizeof r->kind, sut ? "memory" : "damage");
    hblk_t *b = heap_find(__asan_get_report_address());
    snprintf(r->msg, sizeof r->msg, "invalid memory access (%s)%s%s", __asan_get_report_description(),
        b ? (b->live ? " beside a live heap block" : " in a freed heap block") : "", b ? (b->origin == H_OBJ ? " of the caller's object" : " of the library") : "");
    r->task = sim_cur ? sim_cur->id : -1; r->op = sim_cur ? sim_cur->cur_op : -1; r->step = S.step; r->hash = S.hash;
}
const char *__asan_default_options(void) {
    return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:abort_on_error=0:halt_on_error=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:allow_user_segv_handler=1:intercept_tls_get_addr=0:check_printf=1:strict_string_checks=0:symbolize=0:print_legend=0:print_full_thread_history=0:print_summary=0:log_path=/dev/null:malloc_context_size=1:quarantine_size_mb=1:allocator_may_return_null=1";
}

/* ---------- step clock and scheduler ---------- */
static void next_event(void) {
    uint64_t n = S.budget;
    if (S.next_switch < sim_plan->nswitches && sim_plan->switches[S.next_switch].step < n) n = sim_plan->switches[S.next_switch].step;
    S.next_event = n;
}
static void yield_to_main(int finished);
static void slow_event(void) {
    if (S.step >= S.budget) sim_fail("no-progress", "no answer within %llu steps", (unsigned long long)S.budget);
    while (S.next_switch < sim_plan->nswitches && sim_plan->switches[S.next_switch].step <= S.step) {
        S.pick = sim_plan->switches[S.next_switch].pick; S.want_yield = 1;
        S.next_switch++;
    }
    next_event();
    if (S.want_yield && sim_cur != &main_task && sim_cur->in_sut) { S.want_yield = 0; yield_to_main(0); }
}
void __sanitizer_cov_trace_pc(void) {
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    if (sim_sh) sim_sh->cov[pc & (SIM_COV - 1)] = 1;
    if (++S.step >= S.next_event && sim_cur) slow_event();
}

__asm__(
".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
".size sim_swap,.-sim_swap\n");
void sim_swap(void **save, void *to);

static void yield_to_main(int finished) {
    sim_task_t *t = sim_cur;
    if (finished) t->finished = 1;
    else { S.sched_hash = mix64(S.sched_hash ^ (S.step * 8 + (uint64_t)t->id)); tr(0x5317c4); sim_slot->res.switches++; }
    __sanitizer_start_switch_fiber(finished ? NULL : &t->fake, S.main_bottom, S.main_size);
    sim_swap(&t->sp, S.main_sp);
    __sanitizer_finish_switch_fiber(t->fake, NULL, NULL);
}
static void task_entry(void) {
    sim_task_t *t = sim_cur;
    __sanitizer_finish_switch_fiber(NULL, &S.main_bottom, &S.main_size);
    S.prop->body(t);
    yield_to_main(1);
    __builtin_trap();
}
static void run_task(sim_task_t *t) {
    sim_cur = t;
    if (!t->started) {
        t->started = 1;
        uintptr_t top = ((uintptr_t)t->stack + t->stack_size - 64) & ~63ull;
        uint64_t *sp = (uint64_t *)top;
        *--sp = 0; /* fake return address of task_entry: keeps rsp%16==8 at entry */
        *--sp = (uint64_t)(uintptr_t)task_entry;
        for (int i = 0; i < 6; i++) *--sp = 0;
        t->sp = sp;
    }
    __sanitizer_start_switch_fiber(&S.main_fake, t->stack, t->stack_size);
    sim_swap(&S.main_sp, t->sp);
    __sanitizer_finish_switch_fiber(S.main_fake, NULL, NULL);
    sim_cur = &main_task;
}
int sim_ntasks(void) { return (int)sim_plan->ntasks; }

static void stack_mark(void); static void stack_read(void);
void sim_enter(int faults) {
    sim_task_t *t = sim_cur;
    if (t->in_sut++ == 0) { t->faults_on = faults && t != &main_task; t->user = t->user; S.hits_at_enter = 0; t->hits = 0; if (sim_stack_meter && t != &main_task) stack_mark(); }
}
void sim_leave(void) { if (--sim_cur->in_sut == 0) { if (sim_stack_meter && sim_cur != &main_task) stack_read(); sim_cur->faults_on = 0; tr(0x1ea7e ^ sim_cur->hits); } }
uint32_t sim_last_hits(void) { return sim_cur->hits; }

static uint64_t site_hash(void) {
    uint64_t h = 7; uintptr_t *fp = __builtin_frame_address(0);
    sim_task_t *t = sim_cur;
    for (int i = 0; i < 7; i++) {
        if ((char *)fp < t->stack || (char *)fp >= t->stack + t->stack_size - 16) break;
        if (i > 1) h = mix64(h ^ fp[1]);
        if ((uintptr_t)fp[0] <= (uintptr_t)fp) break;
        fp = (uintptr_t *)fp[0];
    }
    return h;
}
static int fault_hit(int kind, uint32_t ord) {
    for (uint32_t i = 0; i < sim_plan->nfaults; i++) {
        const sim_fault_t *f = &sim_plan->faults[i];
        if (f->task == sim_cur->id && f->kind == kind && f->ord == ord) {
            sim_cur->hits++;
            uint64_t site = site_hash();
            set_add(sim_sh->sites, SIM_SITES, &sim_sh->nsites, site ^ (uint64_t)kind);
            S.fault_sites_hash = mix64(S.fault_sites_hash ^ site);
            if (kind == 'A') sim_slot->res.faults_a++; else sim_slot->res.faults_c++;
            tr(0xFA17 + (uint64_t)kind);
            sim_note("FAULT injected: %s #%u of task %d", kind == 'A' ? "allocation" : "user callback", ord, sim_cur->id);
            return 1;
        }
    }
    return 0;
}
int sim_cb_fault(void) {
    sim_task_t *t = sim_cur;
    if (t == &main_task || !t->faults_on) return 0;
    return fault_hit('C', t->ord_c++);
}

/* ---------- heap ---------- */
static void *raw_alloc(size_t size, int origin, int fill) {
    if (nblocks >= MAX_BLOCKS || size > (64u << 20) || arena_top + size + 4 * REDZONE > ARENA_BASE + ARENA_SIZE) {
        if (origin == H_OBJ) sim_harness_error("simulated heap is full");
        sim_fail("memory-explosion", "asked for %zu bytes, %u blocks in use", size, nblocks);
    }
    char *p = arena_top + REDZONE;
    arena_top = (char *)(((uintptr_t)p + size + 15) & ~15ull);
    if (arena_top == p) arena_top += 16;
    hblk_t *b = &blocks[nblocks];
    *b = (hblk_t){ .addr = p, .size = size, .origin = (uint8_t)origin, .task = (uint8_t)sim_cur->id, .live = 1, .seq = nblocks, .op = (uint32_t)sim_cur->cur_op, .site = 0 };
    nblocks++;
    __asan_unpoison_memory_region(p, size);
    memset(p, fill, size);
    if (sim_verbose > 1 && origin != H_OBJ) sim_note("alloc seq %u size %zu -> %p", b->seq, size, (void *)p);
    return p;
}
static hblk_t *find_start(const void *p) {
    hblk_t *b = heap_find(p);
    return b && b->addr == (const char *)p ? b : NULL;
}
hblk_t *heap_find(const void *pp) {
    const char *p = pp;
    if (p < ARENA_BASE || p >= arena_top + REDZONE || nblocks == 0) return NULL;
    uint32_t lo = 0, hi = nblocks;
    while (hi - lo > 1) { uint32_t m = (lo + hi) / 2; if (blocks[m].addr <= p) lo = m; else hi = m; }
    return blocks[lo].addr <= p ? &blocks[lo] : NULL;
}
int heap_owned(const void *p, int origin) { hblk_t *b = find_start(p); return b && b->live && b->origin == origin; }
hblk_t *heap_block(uint32_t seq) { return seq < nblocks ? &blocks[seq] : NULL; }
uint32_t heap_seq(void) { return nblocks; }
int heap_live(int mask, uint32_t seq, hblk_t **pp) {
    int n = 0;
    for (uint32_t i = seq; i < nblocks; i++)
        if (blocks[i].live && ((mask >> blocks[i].origin) & 1) && blocks[i].task == sim_cur->id) { if (n == 0 && pp) *pp = &blocks[i]; n++; }
    return n;
}
static void kill_block(hblk_t *b) { b->live = 0; memset(b->addr, 0xDD, b->size); __asan_poison_memory_region(b->addr, b->size); }
void *heap_obj_alloc(size_t size) { return raw_alloc(size, H_OBJ, 0); }
void heap_obj_free(void *p) { hblk_t *b = find_start(p); if (!b || !b->live || b->origin != H_OBJ) sim_harness_error("bad heap_obj_free"); kill_block(b); }

/* calls out of the instrumented code are switch points too */
uint64_t sim_steps(void) { return S.step; }
static void tick(void) { if (++S.step >= S.next_event && sim_cur) slow_event(); }
static void *sut_alloc(size_t size, int origin, int fill) {
    tick();
    sim_task_t *t = sim_cur;
    sim_slot->res.allocs++;
    if (t->faults_on && t != &main_task) {
        if (fault_hit('A', t->ord_a++)) { errno = ENOMEM; return NULL; }
    }
    tr(size * 4 + (uint64_t)origin);
    return raw_alloc(size, origin, fill);
}
void *sim_malloc(size_t n) { return sut_alloc(n, H_SUT, S.fill); }
void *sim_calloc(size_t n, size_t s) {
    if (s && n > SIZE_MAX / s) { errno = ENOMEM; return NULL; }
    return sut_alloc(n * s, H_SUT, 0);
}
static void sut_free(void *p, int origin) {
    if (!p) return;
    tick();
    hblk_t *b = find_start(p);
    if (!b) sim_fail("bad-free", "free of %s", heap_find(p) && (char *)p < heap_find(p)->addr + heap_find(p)->size ? "a pointer into the middle of a block" : "memory which is not from the heap");
    if (!b->live) sim_fail("double-free", "block #%u of %zu bytes (%s) is freed twice", b->seq, b->size, b->origin == H_OBJ ? "caller's object" : b->origin == H_USER ? "from the caller's allocator" : "library's own");
    if (b->task != sim_cur->id) sim_fail("foreign-free", "a task frees a block of another task");
    if (b->origin == H_OBJ) sim_fail("bad-free", "caller's own block #%u of %zu bytes is freed without being asked", b->seq, b->size);
    if (b->origin != origin) sim_fail("allocator-mismatch", "block #%u of %zu bytes from %s is freed by %s", b->seq, b->size, b->origin == H_USER ? "the caller's calloc" : "the default allocator", origin == H_USER ? "the caller's free" : "the default free");
    tr(b->size * 4 + 3);
    if (sim_verbose > 1) sim_note("free seq %u size %zu", b->seq, b->size);
    kill_block(b);
}
void sim_free(void *p) { sut_free(p, H_SUT); }
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    hblk_t *b = find_start(p);
    if (!b || !b->live || b->origin != H_SUT) sim_fail("bad-free", "realloc of memory which is not a live block");
    if (n == 0) { sut_free(p, H_SUT); return NULL; }
    void *q = sut_alloc(n, H_SUT, S.fill);
    if (!q) return NULL;
    memcpy(q, p, b->size < n ? b->size : n);
    sut_free(p, H_SUT);
    return q;
}
void *sim_reallocarray(void *p, size_t n, size_t s) { if (s && n > SIZE_MAX / s) { errno = ENOMEM; return NULL; } return sim_realloc(p, n * s); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
int sim_vasprintf(char **pp, const char *f, va_list a) {
    va_list c; va_copy(c, a); int n = vsnprintf(NULL, 0, f, c); va_end(c);
    if (n < 0) return n;
    char *r = sim_malloc((size_t)n + 1); if (!r) { *pp = NULL; return -1; }
    vsnprintf(r, (size_t)n + 1, f, a); *pp = r; return n;
}
int sim_vsnprintf(char *b, size_t n, const char *f, va_list a) { tick(); int r = vsnprintf(b, n, f, a); tick(); return r; }
int sim_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = sim_vsnprintf(b, n, f, a); va_end(a); return r; }
int sim_sprintf(char *b, const char *f, ...) { tick(); va_list a; va_start(a, f); int r = vsprintf(b, f, a); va_end(a); tick(); return r; }
int sim_asprintf(char **pp, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vasprintf(pp, f, a); va_end(a); return n; }
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return sim_malloc(n); }
int sim_posix_memalign(void **pp, size_t al, size_t n) { (void)al; void *p = sim_malloc(n); if (!p) return ENOMEM; *pp = p; return 0; }

void *user_calloc(size_t n, size_t sz) { return sut_alloc(n * sz, H_USER, 0); }
static int obj_free_mode;
void heap_obj_free_mode(int on) { obj_free_mode = on; }
void user_free(void *p) {
    hblk_t *b = p ? find_start(p) : NULL;
    if (b && b->live && b->origin == H_OBJ) { /* deep free of the caller's object: recorded */
        if (b->task != sim_cur->id) sim_fail("foreign-free", "a task frees a block of another task");
        tr(b->size * 4 + 2); kill_block(b); return;
    }
    sut_free(p, H_USER);
}

/* ---------- harness memory ---------- */
void *halloc(size_t n) {
    char *p = hmem_top; hmem_top += (n + 15) & ~15ull;
    if (hmem_top > HMEM_BASE + HMEM_SIZE) sim_harness_error("harness memory is full");
    memset(p, 0, n); return p;
}
char *hstrdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(halloc(n), s, n); }
char *hprintf(const char *fmt, ...) {
    va_list a; va_start(a, fmt); int n = vsnprintf(NULL, 0, fmt, a); va_end(a);
    char *p = halloc((size_t)n + 1); va_start(a, fmt); vsnprintf(p, (size_t)n + 1, fmt, a); va_end(a); return p;
}
static void hb_room(hbuf_t *b, size_t n) {
    if (b->n + n + 1 > b->cap) { size_t c = (b->n + n + 1) * 2 + 64; char *p = halloc(c); if (b->n) memcpy(p, b->p, b->n); b->p = p; b->cap = c; }
}
void hb_s(hbuf_t *b, const char *s) { size_t n = strlen(s); hb_room(b, n); memcpy(b->p + b->n, s, n + 1); b->n += n; }
void hb_add(hbuf_t *b, const char *fmt, ...) {
    va_list a; va_start(a, fmt); int n = vsnprintf(NULL, 0, fmt, a); va_end(a);
    hb_room(b, (size_t)n); va_start(a, fmt); vsnprintf(b->p + b->n, (size_t)n + 1, fmt, a); va_end(a); b->n += (size_t)n;
}

/* ---------- stack meter ---------- */
#define PAINT 0x6b6b6b6b6b6b6b6bull
#define METER (256u << 10)
size_t sim_stack_peak; int sim_stack_meter;
static char *meter_top;
static void stack_mark(void) {
    meter_top = (char *)(((uintptr_t)__builtin_frame_address(0) - 256) & ~63ull);
    for (volatile uint64_t *c = (uint64_t *)(meter_top - METER); (char *)c < meter_top; c++) *c = PAINT;
}
static void stack_read(void) {
    volatile uint64_t *c = (uint64_t *)(meter_top - METER); while ((char *)c < meter_top && *c == PAINT) c++;
    size_t n = (size_t)(meter_top - (char *)c); if (n > sim_stack_peak) sim_stack_peak = n;
}

/* ---------- one run ---------- */
void sim_process_init(void) {
    void *a = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    void *h = mmap(HMEM_BASE, HMEM_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (a != ARENA_BASE || h != HMEM_BASE) { fprintf(stderr, "cannot map the arena\n"); _exit(3); }
    for (int i = 0; i < SIM_MAX_TASKS; i++) {
        char *b = STACK_BASE + (size_t)i * 2 * STACK_SIZE;
        if (mmap(b, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != b) { fprintf(stderr, "cannot map a stack\n"); _exit(3); }
        tasks[i].stack = b; tasks[i].stack_size = STACK_SIZE;
    }
    blocks = mmap(NULL, sizeof(hblk_t) * MAX_BLOCKS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_top = arena_poisoned = ARENA_BASE; hmem_top = HMEM_BASE;
    if (__start_sutdata && __stop_sutdata > __start_sutdata) {
        size_t n = (size_t)(__stop_sutdata - __start_sutdata);
        sut_snapshot = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t i = 0; i < n; i++) ((volatile char *)sut_snapshot)[i] = ((volatile char *)__start_sutdata)[i];
    }
    stack_t ss = { .ss_sp = mmap(NULL, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), .ss_size = 1 << 16 };
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF };
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
}

void sim_run(const prop_t *prop, const sim_plan_t *plan, uint64_t budget) {
    sim_result_t *r = &sim_slot->res;
    memset(r, 0, sizeof *r);
    r->status = SIM_RUNNING;
    sim_plan = plan;
    if (sut_snapshot) for (size_t i = 0, n = (size_t)(__stop_sutdata - __start_sutdata); i < n; i++)
        if (((volatile char *)__start_sutdata)[i] != sut_snapshot[i]) ((volatile char *)__start_sutdata)[i] = sut_snapshot[i];
    /* a fresh heap */
    if (arena_top > arena_poisoned) arena_poisoned = arena_top;
    __asan_poison_memory_region(ARENA_BASE, (size_t)(arena_poisoned - ARENA_BASE) + (1u << 20));
    arena_top = ARENA_BASE; nblocks = 0; hmem_top = HMEM_BASE;
    memset(&S, 0, sizeof S); sim_stack_meter = 0; sim_stack_peak = 0;
    S.prop = prop; S.budget = budget; S.hash = 0xcbf29ce484222325ull; S.sched_hash = plan->ntasks; S.next_event = budget;
    S.fill = (uint8_t)(0xA0 | (mix64(plan->seed) & 0xF));
    memset(&main_task, 0, sizeof main_task); main_task.id = SIM_MAX_TASKS; main_task.cur_op = -1;
    sim_cur = &main_task;
    for (uint32_t i = 0; i < plan->ntasks; i++) {
        sim_task_t *t = &tasks[i]; char *st = t->stack; size_t sz = t->stack_size;
        memset(t, 0, sizeof *t); t->id = (int)i; t->stack = st; t->stack_size = sz;
        __asan_unpoison_memory_region(st + sz - STACK_PAINT, STACK_PAINT);
        memset(st + sz - STACK_PAINT, S.fill ^ 0x55, STACK_PAINT);
    }
    rng_t sr = rng_make(plan->seed, 0x5E7, 0);
    if (prop->setup) prop->setup(&sr);
    S.next_switch = 0; next_event();
    sim_task_t *t = &tasks[0];
    for (;;) {
        run_task(t);
        /* who is next */
        sim_task_t *run[SIM_MAX_TASKS]; int n = 0;
        for (uint32_t i = 0; i < plan->ntasks; i++) if (!tasks[i].finished) run[n++] = &tasks[i];
        if (n == 0) break;
        if (t->finished) { t = run[0]; continue; }
        sim_task_t *oth[SIM_MAX_TASKS]; int m = 0;
        for (int i = 0; i < n; i++) if (run[i] != t) oth[m++] = run[i];
        if (m) t = oth[S.pick % (uint32_t)m];
    }
    S.next_event = S.budget = UINT64_MAX;
    if (prop->finish) prop->finish();
    for (uint32_t i = 0; i < plan->ntasks; i++) { r->ord_a[i] = tasks[i].ord_a; r->ord_c[i] = tasks[i].ord_c; }
    for (uint32_t i = 0; i < nblocks; i++) if (blocks[i].live && blocks[i].origin != H_OBJ) { sim_cur = &tasks[blocks[i].task < SIM_MAX_TASKS ? blocks[i].task : 0]; sim_fail("leak", "block #%u of %zu bytes allocated in op %u of task %u is never freed", i, blocks[i].size, blocks[i].op, blocks[i].task); }
    r->step = S.step; r->hash = S.hash; r->sched_hash = S.sched_hash ^ (S.fault_sites_hash * 3);
    set_add(sim_sh->scheds, SIM_SETS, &sim_sh->nscheds, S.sched_hash);
    set_add(sim_sh->traces, SIM_SETS, &sim_sh->ntraces, S.hash);
    r->blocks = nblocks;
    r->status = SIM_OK;
    sim_cur = NULL;
}
char *sim_strdup2(const char *s) { return sim_strdup(s); }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
