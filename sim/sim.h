/* Deterministic simulator: tasks, step clock, seeded scheduler, simulated heap, fault plan. */
#ifndef SIM_H_
#define SIM_H_
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>

/* ---------- random streams ---------- */
typedef struct { uint64_t s; } rng_t;
static inline uint64_t mix64(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline rng_t rng_make(uint64_t a, uint64_t b, uint64_t c) {
    rng_t r = { mix64(mix64(mix64(a) ^ (b * 0x9E3779B97F4A7C15ull)) ^ (c * 0xD1B54A32D192ED03ull)) };
    return r;
}
static inline uint64_t rng_u64(rng_t *r) {
    r->s += 0x9E3779B97F4A7C15ull;
    uint64_t z = r->s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
/* uniform in [0, n) */
static inline uint64_t rng_n(rng_t *r, uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((__uint128_t)rng_u64(r) * n) >> 64); }
static inline int rng_i(rng_t *r, int lo, int hi) { return lo + (int)rng_n(r, (uint64_t)(hi - lo + 1)); }
static inline int rng_p(rng_t *r, int percent) { return (int)rng_n(r, 100) < percent; }

/* ---------- plan: everything a run is decided by ---------- */
#define SIM_MAX_TASKS 4
#define SIM_MAX_FAULTS 512
#define SIM_MAX_SWITCHES 512
#define SIM_MAX_OPS 64
typedef struct { uint8_t task; uint8_t kind; uint32_t ord; } sim_fault_t; /* kind: 'A' allocation, 'C' user callback */
typedef struct { uint64_t step; uint32_t pick; } sim_switch_t;
typedef struct {
    uint64_t seed;
    uint32_t ntasks;
    uint64_t opmask[SIM_MAX_TASKS];
    uint32_t nfaults; sim_fault_t faults[SIM_MAX_FAULTS];
    uint32_t nswitches; sim_switch_t switches[SIM_MAX_SWITCHES];
} sim_plan_t;

/* ---------- tasks ---------- */
typedef struct sim_task {
    int id;
    int started, finished;
    void *sp;
    char *stack; size_t stack_size;
    int in_sut;          /* nesting of calls into the code under test */
    int faults_on;       /* allocation faults can hit now */
    uint32_t ord_a, ord_c; /* fault point ordinals used so far in this run */
    uint32_t hits;       /* faults injected into this task so far */
    uint64_t steps;
    void *user;
    int cur_op;
    /* ASan fiber state */
    void *fake; 
} sim_task_t;

extern sim_task_t *sim_cur; /* task which is running */
extern const sim_plan_t *sim_plan;

int sim_ntasks(void);
/* calls into the code under test; faults may hit inside */
#define SUT(expr) ({ sim_enter(1); __typeof__(expr) _r_ = (expr); sim_leave(); _r_; })
#define SUTV(expr) do { sim_enter(1); expr; sim_leave(); } while (0)
/* same, faults off */
#define SUTQ(expr) ({ sim_enter(0); __typeof__(expr) _r_ = (expr); sim_leave(); _r_; })
#define SUTQV(expr) do { sim_enter(0); expr; sim_leave(); } while (0)
void sim_enter(int faults);
void sim_leave(void);
/* number of faults which hit the task during its last SUT()/SUTQ() call */
uint32_t sim_last_hits(void);
/* user callback fault point: returns non-0 if the callback has to fail */
int sim_cb_fault(void);

void sim_free(void *p);
/* ---------- violation ---------- */
void sim_fail(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define CHECK(cond, kind, ...) do { if (!(cond)) sim_fail(kind, __VA_ARGS__); } while (0)

/* ---------- trace ---------- */
void sim_trace_u(uint64_t v);
void sim_trace_mem(const void *p, size_t n);
void sim_trace_s(const char *s);
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* shown on replay only */
/* count a reached situation (coverage probes) */
void sim_probe(const char *name);

/* ---------- simulated heap ---------- */
enum { H_SUT = 1, H_USER = 2, H_OBJ = 3 }; /* default allocator of the code; caller's calloc_fn; memory of the caller's objects */
typedef struct {
    char *addr; size_t size; uint8_t origin; uint8_t task; uint8_t live; uint8_t mark; uint32_t seq; uint32_t op; uint64_t site;
} hblk_t;
void *heap_obj_alloc(size_t size);           /* caller's own object memory: never fails */
void *heap_obj_alloc_aligned_end(size_t size); /* same */
void heap_obj_free(void *p);
hblk_t *heap_find(const void *p);            /* block which contains p (live or dead), or NULL */
uint32_t heap_seq(void);                     /* sequence number to be given to the next block */
/* number of live blocks with origin mask bits (1<<origin), of the current task, allocated at or after seq */
int heap_live(int origin_mask, uint32_t seq, hblk_t **pp_first);
hblk_t *heap_block(uint32_t seq);
int heap_owned(const void *p, int origin); /* p is the start of a live block of that origin */
/* caller supplied allocator pair for deep copy / free (fault point too) */
void *user_calloc(size_t n, size_t sz);
void user_free(void *p);
/* checks that all red zones and freed blocks are untouched */
void heap_check(void);

/* ---------- harness memory: per run, never fails, not tracked ---------- */
void *halloc(size_t n);
char *hprintf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
char *hstrdup(const char *s);
typedef struct { char *p; size_t n, cap; } hbuf_t;
void hb_add(hbuf_t *b, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void hb_s(hbuf_t *b, const char *s);

/* deepest stack use of the calls into the code under test while sim_stack_meter is set (one caller task only) */
extern size_t sim_stack_peak; extern int sim_stack_meter;
uint64_t sim_steps(void); /* steps of the code under test so far */

/* ---------- property ---------- */
typedef struct {
    const char *id;
    int max_tasks;         /* >1: caller tasks are interleaved */
    int variants;          /* faulted/interleaved variants per seed */
    int max_ops;
    void (*setup)(rng_t *r);        /* per run, before tasks, faults off */
    void (*body)(sim_task_t *t);    /* code of one caller task */
    void (*finish)(void);           /* per run, after tasks, faults off */
    uint64_t quick_seeds, thorough_seeds;
    const char *what; /* rule text for evidence */
    int no_faults; /* alloc faults aren't used */
    int min_tasks; /* >1: always that many caller tasks at least */
} prop_t;
extern const prop_t *const all_props[];

static inline int op_on(sim_task_t *t, int op) { t->cur_op = op; return (int)((sim_plan->opmask[t->id] >> (op & 63)) & 1); }
#endif
