/* Seeded search, gating, minimisation, replay files, evidence. */
#define _GNU_SOURCE
#include "sim_int.h"
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>

static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static const prop_t *find_prop(const char *id) {
    for (int i = 0; all_props[i]; i++) if (strcmp(all_props[i]->id, id) == 0) return all_props[i];
    return NULL;
}
#define BASE_BUDGET 400000000ull
static uint64_t budget_for(uint64_t base_steps) { return base_steps * 20 + 3000000; }

/* plan of the fault free, switch free run of a seed */
static void base_plan(const prop_t *p, uint64_t seed, sim_plan_t *pl) {
    memset(pl, 0, sizeof *pl);
    rng_t r = rng_make(seed, 0x7A5, 1);
    pl->seed = seed;
    pl->ntasks = 1;
    if (p->min_tasks > 1) pl->ntasks = (uint32_t)rng_i(&r, p->min_tasks, p->max_tasks);
    else if (p->max_tasks > 1 && rng_p(&r, 40)) pl->ntasks = (uint32_t)rng_i(&r, 2, p->max_tasks);
    for (int i = 0; i < SIM_MAX_TASKS; i++) pl->opmask[i] = ~0ull;
}
static void add_fault(sim_plan_t *pl, int task, int kind, uint32_t ord) {
    if (pl->nfaults >= SIM_MAX_FAULTS) return;
    for (uint32_t i = 0; i < pl->nfaults; i++) if (pl->faults[i].task == task && pl->faults[i].kind == kind && pl->faults[i].ord == ord) return;
    pl->faults[pl->nfaults++] = (sim_fault_t){ .task = (uint8_t)task, .kind = (uint8_t)kind, .ord = ord };
}
static int cmp_sw(const void *a, const void *b) { const sim_switch_t *x = a, *y = b; return x->step < y->step ? -1 : x->step > y->step; }
static void variant_plan(const prop_t *p, const sim_plan_t *base, const sim_result_t *br, int v, sim_plan_t *pl) {
    *pl = *base;
    rng_t r = rng_make(base->seed, 0x11A, (uint64_t)v + 1);
    int want_sw = base->ntasks > 1, want_f = !p->no_faults;
    if (want_sw && want_f) { int k = rng_i(&r, 0, 3); if (k == 0) want_f = 0; else if (k == 1) want_sw = 0; }
    if (want_f) {
        int mode = rng_i(&r, 0, 10);
        int task = rng_i(&r, 0, (int)base->ntasks - 1);
        uint32_t na = br->ord_a[task], nc = br->ord_c[task];
        int kind = (nc && (na == 0 || rng_p(&r, 25))) ? 'C' : 'A';
        uint32_t n = kind == 'A' ? na : nc;
        if (n) {
            uint32_t k = (uint32_t)rng_n(&r, n);
            if (mode <= 4) add_fault(pl, task, kind, k);                       /* one failure */
            else if (mode <= 6) { uint32_t len = 2 + (uint32_t)rng_n(&r, 12); for (uint32_t i = 0; i < len; i++) add_fault(pl, task, kind, k + i); } /* burst */
            else if (mode == 7) { for (uint32_t i = 0; i < SIM_MAX_FAULTS; i++) add_fault(pl, task, kind, k + i); } /* memory is exhausted from here on */
            else if (mode == 8) { int m = rng_i(&r, 2, 6); for (int i = 0; i < m; i++) add_fault(pl, task, kind, (uint32_t)rng_n(&r, n + n / 8 + 1)); }
            else if (mode == 9) { static const int dens[] = { 3, 10, 30, 60 }; int d = dens[rng_n(&r, 4)]; for (uint32_t i = rng_p(&r, 50) ? 0 : k; i < n + 500 && pl->nfaults < SIM_MAX_FAULTS; i++) if (rng_p(&r, d)) add_fault(pl, task, kind, i); } /* every allocation may fail */
            else { int m = rng_i(&r, 2, 8); for (int i = 0; i < m; i++) { int t2 = rng_i(&r, 0, (int)base->ntasks - 1); int k2 = rng_p(&r, 70) ? 'A' : 'C'; uint32_t n2 = k2 == 'A' ? br->ord_a[t2] : br->ord_c[t2]; if (n2) add_fault(pl, t2, k2, (uint32_t)rng_n(&r, n2)); } }
        }
    }
    if (want_sw) {
        static const int rates[] = { 1, 3, 8, 20, 60, 200, 500 };
        int n = rng_i(&r, 1, rates[rng_n(&r, 7)]);
        uint64_t span = br->step + br->step / 4 + 1, lo = 0;
        if (rng_p(&r, 30)) { uint64_t w = span / 16 + 1; lo = rng_n(&r, span); span = w; } /* dense window */
        for (int i = 0; i < n && pl->nswitches < SIM_MAX_SWITCHES; i++) pl->switches[pl->nswitches++] = (sim_switch_t){ .step = 1 + lo + rng_n(&r, span), .pick = (uint32_t)rng_n(&r, 16) };
        qsort(pl->switches, pl->nswitches, sizeof *pl->switches, cmp_sw);
    }
}

static void account(sim_slot_t *s) {
    s->runs++; s->steps += s->res.step; s->allocs += s->res.allocs; s->faults_a += s->res.faults_a; s->faults_c += s->res.faults_c; s->switches += s->res.switches;
    if (s->res.faults_a + s->res.faults_c) s->runs_faulted++;
    if (s->res.switches) s->runs_switched++;
    if (!(s->res.faults_a + s->res.faults_c + s->res.switches)) s->runs_clean++;
}
/* loops without a single basic block border don't move the step clock: CPU time of one run is limited too (never near it otherwise) */
static void cpu_limit(void) { struct itimerval t = { .it_value = { .tv_sec = 30 } }; setitimer(ITIMER_PROF, &t, NULL); }
static void one(const prop_t *p, sim_slot_t *s, const sim_plan_t *pl, uint64_t budget) {
    s->plan = *pl;
    cpu_limit();
    sim_run(p, &s->plan, budget);
    account(s);
}
static void worker(const prop_t *p, sim_slot_t *s, uint64_t base_seed, uint64_t from, uint64_t to, uint64_t stride, double deadline) {
    sim_slot = s;
    sim_process_init();
    for (uint64_t i = from; i < to; i += stride) {
        if (i > __atomic_load_n(&sim_sh->stop_index, __ATOMIC_RELAXED)) break;
        if (now_s() > deadline) break;
        s->index = i; s->variant = 0;
        sim_plan_t base, pl;
        base_plan(p, base_seed + i, &base);
        one(p, s, &base, BASE_BUDGET);
        sim_result_t br = s->res;
        for (int v = 1; v <= p->variants; v++) {
            s->variant = v;
            variant_plan(p, &base, &br, v, &pl);
            one(p, s, &pl, budget_for(br.step));
            if (((i * 31 + (uint64_t)v) & 127) == 0) { /* the same plan again: must be the same execution */
                sim_result_t a = s->res;
                one(p, s, &pl, budget_for(br.step));
                s->redone++;
                if (a.hash != s->res.hash || a.step != s->res.step || a.status != s->res.status) {
                    s->res.status = SIM_HARNESS; snprintf(s->res.msg, sizeof s->res.msg, "the same plan gave two different executions (seed %llu variant %d)", (unsigned long long)base.seed, v);
                    _exit(77);
                }
            }
        }
        s->seeds++;
    }
    s->done = 1;
    _exit(0);
}
/* one plan in a process of its own */
static sim_result_t run_fresh(const prop_t *p, const sim_plan_t *pl, uint64_t budget) {
    sim_slot_t *s = &sim_sh->slots[64];
    memset(s, 0, sizeof *s);
    s->plan = *pl;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) { sim_slot = s; sim_process_init(); cpu_limit(); sim_run(p, &s->plan, budget); _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (s->res.status == SIM_RUNNING || s->res.status == 0) {
        s->res.status = SIM_VIOLATION; snprintf(s->res.kind, sizeof s->res.kind, "crash"); snprintf(s->res.msg, sizeof s->res.msg, "the process ended without an answer (status 0x%x)", st);
    }
    return s->res;
}
static int same(const sim_result_t *a, const sim_result_t *b) { return a->status == b->status && strcmp(a->kind, b->kind) == 0; }

static int write_replay(const char *path, const prop_t *p, const sim_plan_t *pl, const sim_result_t *r, uint64_t budget) {
    FILE *f = fopen(path, "w"); if (!f) return -1;
    fprintf(f, "# deterministic simulation replay: vsim --replay <this file>\nproperty %s\nseed %llu\nntasks %u\nbudget %llu\n", p->id, (unsigned long long)pl->seed, pl->ntasks, (unsigned long long)budget);
    for (uint32_t i = 0; i < pl->ntasks; i++) fprintf(f, "opmask %u %016llx\n", i, (unsigned long long)pl->opmask[i]);
    for (uint32_t i = 0; i < pl->nfaults; i++) fprintf(f, "fault %u %c %u\n", pl->faults[i].task, pl->faults[i].kind, pl->faults[i].ord);
    for (uint32_t i = 0; i < pl->nswitches; i++) fprintf(f, "switch %llu %u\n", (unsigned long long)pl->switches[i].step, pl->switches[i].pick);
    fprintf(f, "expect %s task %d op %d step %llu hash %016llx\nmessage %s\n", r->kind, r->task, r->op, (unsigned long long)r->step, (unsigned long long)r->hash, r->msg);
    return fclose(f);
}
static const prop_t *read_replay(const char *path, sim_plan_t *pl, uint64_t *budget, char *kind, uint64_t *hash) {
    FILE *f = fopen(path, "r"); if (!f) return NULL;
    memset(pl, 0, sizeof *pl); for (int i = 0; i < SIM_MAX_TASKS; i++) pl->opmask[i] = ~0ull;
    const prop_t *p = NULL; char l[600]; *hash = 0; kind[0] = 0;
    while (fgets(l, sizeof l, f)) {
        char id[32]; unsigned long long a; unsigned u, v; char c; int t, o; unsigned long long st;
        if (sscanf(l, "property %31s", id) == 1) p = find_prop(id);
        else if (sscanf(l, "seed %llu", &a) == 1) pl->seed = a;
        else if (sscanf(l, "ntasks %u", &u) == 1) pl->ntasks = u;
        else if (sscanf(l, "budget %llu", &a) == 1) *budget = a;
        else if (sscanf(l, "opmask %u %llx", &u, &a) == 2 && u < SIM_MAX_TASKS) pl->opmask[u] = a;
        else if (sscanf(l, "fault %u %c %u", &u, &c, &v) == 3) add_fault(pl, (int)u, c, v);
        else if (sscanf(l, "switch %llu %u", &a, &u) == 2 && pl->nswitches < SIM_MAX_SWITCHES) pl->switches[pl->nswitches++] = (sim_switch_t){ .step = a, .pick = u };
        else if (sscanf(l, "expect %31s task %d op %d step %llu hash %llx", kind, &t, &o, &st, &a) == 5) *hash = a;
    }
    fclose(f);
    return p;
}

static void minimise(const prop_t *p, sim_plan_t *pl, sim_result_t *r, uint64_t budget) {
    double end = now_s() + 40; int tries = 0;
    int changed = 1;
    while (changed && now_s() < end && tries < 600) {
        changed = 0;
        for (uint32_t chunk = pl->nfaults; chunk >= 1; chunk /= 2) /* faults */
            for (uint32_t i = 0; i + chunk <= pl->nfaults && now_s() < end; ) {
                sim_plan_t q = *pl; memmove(q.faults + i, q.faults + i + chunk, (q.nfaults - i - chunk) * sizeof *q.faults); q.nfaults -= chunk; tries++;
                sim_result_t x = run_fresh(p, &q, budget);
                if (same(&x, r)) { *pl = q; *r = x; changed = 1; } else i += chunk;
            }
        for (uint32_t chunk = pl->nswitches; chunk >= 1; chunk /= 2) /* switches */
            for (uint32_t i = 0; i + chunk <= pl->nswitches && now_s() < end; ) {
                sim_plan_t q = *pl; memmove(q.switches + i, q.switches + i + chunk, (q.nswitches - i - chunk) * sizeof *q.switches); q.nswitches -= chunk; tries++;
                sim_result_t x = run_fresh(p, &q, budget);
                if (same(&x, r)) { *pl = q; *r = x; changed = 1; } else i += chunk;
            }
        for (uint32_t t = 0; t < pl->ntasks; t++) /* operations */
            for (int w = 64; w >= 1; w /= 2)
                for (int b = 0; b < 64 && now_s() < end; b += w) {
                    uint64_t m = (w == 64 ? ~0ull : ((1ull << w) - 1) << b) & pl->opmask[t];
                    if (!m) continue;
                    if (p->max_ops < 64 && b >= p->max_ops) { pl->opmask[t] &= ~m; continue; }
                    sim_plan_t q = *pl; q.opmask[t] &= ~m; tries++;
                    sim_result_t x = run_fresh(p, &q, budget);
                    if (same(&x, r)) { *pl = q; *r = x; changed = 1; }
                }
    }
}

/* ---------- known findings ---------- */
static int known_match(const char *file, const prop_t *p, const sim_result_t *r, char *out, size_t n) {
    FILE *f = file ? fopen(file, "r") : NULL; char l[1024]; int hit = 0;
    if (!f) return 0;
    /* "finding: property=<id> match=<substring of 'kind: message'> :: text" */
    char full[480]; snprintf(full, sizeof full, "%s: %s", r->kind, r->msg);
    while (!hit && fgets(l, sizeof l, f)) {
        char id[32]; if (sscanf(l, "finding: property=%31s", id) != 1 || strcmp(id, p->id)) continue;
        char *m = strstr(l, "match="), *e = m ? strstr(m, " :: ") : NULL;
        if (!m || !e) continue;
        *e = 0; if (strstr(full, m + 6)) { hit = 1; char *t = e + 4; t[strcspn(t, "\n")] = 0; snprintf(out, n, "%s", t); }
    }
    fclose(f); return hit;
}

static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s); else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); } fputc('"', f); }

int main(int argc, char **argv) {
    if (!getenv("LD_BIND_NOW")) { setenv("LD_BIND_NOW", "1", 1); execv("/proc/self/exe", argv); } /* the dynamic linker takes no stack of measured calls */
    const char *prop_id = NULL, *replay = NULL, *evidence = NULL, *dir = ".", *known = NULL, *tier = "quick"; uint64_t seeds = 0, vseed = 1; int workers = 8; double secs = 0; int det = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--prop")) prop_id = argv[++i];
        else if (!strcmp(argv[i], "--seeds")) seeds = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--seed")) vseed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--tier")) tier = argv[++i];
        else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--seconds")) secs = atof(argv[++i]);
        else if (!strcmp(argv[i], "--evidence")) evidence = argv[++i];
        else if (!strcmp(argv[i], "--replay-dir")) dir = argv[++i];
        else if (!strcmp(argv[i], "--known")) known = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else if (!strcmp(argv[i], "--det")) det = atoi(argv[++i]);
        else if (!strcmp(argv[i], "-v")) sim_verbose++;
        else if (!strcmp(argv[i], "--list")) { for (int k = 0; all_props[k]; k++) printf("%s\n", all_props[k]->id); return 0; }
    }
    sim_sh = mmap(NULL, sizeof *sim_sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sim_sh == MAP_FAILED) { perror("mmap"); return 3; }
    sim_sh->stop_index = UINT64_MAX;
    if (replay) {
        sim_plan_t pl; uint64_t budget = BASE_BUDGET, hash; char kind[32];
        const prop_t *p = read_replay(replay, &pl, &budget, kind, &hash);
        if (!p) { fprintf(stderr, "cannot read %s\n", replay); return 3; }
        sim_result_t r = run_fresh(p, &pl, budget);
        int rep = r.status == SIM_VIOLATION && !strcmp(r.kind, kind) && r.hash == hash;
        printf("replay of %s: %s%s%s%s (trace hash %016llx) %s\n", p->id, r.status == SIM_VIOLATION ? "violation: " : r.status == SIM_OK ? "no violation" : "harness error: ", r.kind, r.msg[0] ? ": " : "", r.msg, (unsigned long long)r.hash, rep ? "REPRODUCED" : "NOT-REPRODUCED");
        return rep ? 1 : 0;
    }
    const prop_t *p = prop_id ? find_prop(prop_id) : NULL;
    if (!p) { fprintf(stderr, "no such property\n"); return 3; }
    uint64_t base_seed = vseed * 1000000000ull;
    if (det) { /* determinism: print the trace hashes of many runs, for comparison between processes */
        for (int i = 0; i < det; i++) {
            sim_plan_t b, q; base_plan(p, base_seed + (uint64_t)i, &b);
            sim_result_t br = run_fresh(p, &b, BASE_BUDGET); variant_plan(p, &b, &br, 1, &q);
            sim_result_t x = run_fresh(p, &q, budget_for(br.step));
            printf("%d %016llx %016llx %d %d\n", i, (unsigned long long)br.hash, (unsigned long long)x.hash, br.status, x.status);
        }
        return 0;
    }
    if (!seeds) seeds = !strcmp(tier, "thorough") ? p->thorough_seeds : p->quick_seeds;
    if (secs == 0) secs = !strcmp(tier, "thorough") ? 780 : 240;
    if (workers > 60) workers = 60;
    double t0 = now_s(), deadline = t0 + secs;
    pid_t pids[64]; sim_slot_t tot; memset(&tot, 0, sizeof tot);
    fflush(NULL);
    for (int w = 0; w < workers; w++) { pids[w] = fork(); if (pids[w] == 0) worker(p, &sim_sh->slots[w], base_seed, (uint64_t)w, seeds, (uint64_t)workers, deadline); }
    int alive = workers, rc = 0, nfound = 0; char found[32][512]; int nviol = 0;
    struct { int set; uint64_t index; int variant; sim_plan_t plan; sim_result_t res; uint64_t budget; } best = { 0 };
    while (alive) {
        int st; pid_t pid = wait(&st); if (pid < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int k = 0; k < workers; k++) if (pids[k] == pid) w = k;
        if (w < 0) continue;
        alive--;
        sim_slot_t *s = &sim_sh->slots[w];
        if (s->done) continue;
        if (s->res.status == SIM_RUNNING || s->res.status == SIM_OK || s->res.status == 0) {
            s->res.status = SIM_VIOLATION; snprintf(s->res.kind, sizeof s->res.kind, "crash"); snprintf(s->res.msg, sizeof s->res.msg, "the process ended without an answer (status 0x%x)", st);
        }
        if (s->res.status == SIM_HARNESS) { fprintf(stderr, "HARNESS ERROR: %s (seed %llu variant %d)\n", s->res.msg, (unsigned long long)s->plan.seed, s->variant); rc = 3; sim_sh->stop_index = 0; continue; }
        char text[500];
        if (known_match(known, p, &s->res, text, sizeof text)) {
            int dup = 0; for (int k = 0; k < nfound; k++) dup |= !strcmp(found[k], text);
            if (!dup && nfound < 32) snprintf(found[nfound++], sizeof found[0], "%s", text);
            s->res.status = 0; uint64_t nx = s->index + (uint64_t)workers;
            fflush(NULL);
            pids[w] = fork(); if (pids[w] == 0) worker(p, s, base_seed, nx, seeds, (uint64_t)workers, deadline);
            alive++; continue;
        }
        nviol++;
        if (!best.set || s->index < best.index) {
            best.set = 1; best.index = s->index; best.variant = s->variant; best.plan = s->plan; best.res = s->res; best.budget = BASE_BUDGET;
            if (s->index < sim_sh->stop_index) sim_sh->stop_index = s->index;
        }
    }
    for (int w = 0; w < workers; w++) { sim_slot_t *s = &sim_sh->slots[w]; tot.runs += s->runs; tot.steps += s->steps; tot.allocs += s->allocs; tot.faults_a += s->faults_a; tot.faults_c += s->faults_c; tot.switches += s->switches; tot.seeds += s->seeds; tot.redone += s->redone; tot.runs_faulted += s->runs_faulted; tot.runs_switched += s->runs_switched; tot.runs_clean += s->runs_clean; }
    double search_s = now_s() - t0;
    char path[600] = "";
    if (rc == 0 && best.set) {
        /* gate: the same plan in two processes of its own must give the same violation and trace */
        uint64_t budget = best.budget;
        if (!strcmp(best.res.kind, "no-progress")) { sim_plan_t b; base_plan(p, best.plan.seed, &b); sim_result_t br = run_fresh(p, &b, BASE_BUDGET); if (br.status == SIM_OK) budget = budget_for(br.step); }
        sim_result_t a = run_fresh(p, &best.plan, budget), b = run_fresh(p, &best.plan, budget);
        if (!same(&a, &best.res) && a.status == SIM_VIOLATION && same(&b, &a) && a.hash == b.hash) best.res = a; /* a violation, which shows differently in a process of its own */
        if (!same(&a, &best.res) || !same(&b, &a) || a.hash != b.hash) {
            fprintf(stderr, "HARNESS ERROR: a violation was seen but does not replay: %s: %s (seed %llu variant %d); fresh: %d %s %s\n", best.res.kind, best.res.msg, (unsigned long long)best.plan.seed, best.variant, a.status, a.kind, a.msg); rc = 3;
        } else {
            sim_plan_t m = best.plan; sim_result_t r = a;
            minimise(p, &m, &r, budget);
            mkdir(dir, 0755);
            snprintf(path, sizeof path, "%s/%s-%llu-%d.replay", dir, p->id, (unsigned long long)best.plan.seed, best.variant);
            write_replay(path, p, &m, &r, budget);
            printf("violation: %s: %s\n  seed %llu variant %d, minimised to %u faults, %u switches, op %d of task %d at step %llu\n", r.kind, r.msg, (unsigned long long)best.plan.seed, best.variant, m.nfaults, m.nswitches, r.op, r.task, (unsigned long long)r.step);
            best.res = r;
            /* a fresh process, from the file */
            char cmd[1400]; snprintf(cmd, sizeof cmd, "'%s' --replay '%s' >/dev/null 2>&1", argv[0], path);
            int x = system(cmd);
            if (!WIFEXITED(x) || WEXITSTATUS(x) != 1) { fprintf(stderr, "HARNESS ERROR: the replay file does not reproduce\n"); rc = 3; }
            else { printf("VIOLATION property=%s replay=%s\n", p->id, path); rc = 1; }
        }
    }
    for (int k = 0; k < nfound; k++) printf("KNOWN-FINDING: property=%s %s\n", p->id, found[k]);
    double wall = now_s() - t0; uint64_t pcs = 0; for (uint32_t i = 0; i < SIM_COV; i++) pcs += sim_sh->cov[i];
    if (evidence) {
        FILE *f = fopen(evidence, "w"); if (!f) { perror(evidence); return 3; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", p->id, tier, (unsigned long long)vseed);
        fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": ", (unsigned long long)tot.runs, (unsigned long long)sim_sh->ntraces);
        jstr(f, p->what);
        fprintf(f, ",\n  \"samples\": [");
        for (int k = 0; k < 4 && k < (int)seeds; k++) { sim_plan_t bp, q; base_plan(p, base_seed + (uint64_t)k, &bp); sim_result_t br = run_fresh(p, &bp, BASE_BUDGET); variant_plan(p, &bp, &br, 1, &q); sim_result_t x = run_fresh(p, &q, budget_for(br.step));
            fprintf(f, "%s\n   {\"seed\": %llu, \"tasks\": %u, \"steps\": %llu, \"fault_points\": %u, \"trace_hash\": \"%016llx\", \"variant\": {\"planned_faults\": %u, \"hit\": %llu, \"planned_switches\": %u, \"trace_hash\": \"%016llx\"}}", k ? "," : "", (unsigned long long)bp.seed, bp.ntasks, (unsigned long long)br.step, br.ord_a[0] + br.ord_c[0], (unsigned long long)br.hash, q.nfaults, (unsigned long long)(x.faults_a + x.faults_c), q.nswitches, (unsigned long long)x.hash); }
        fprintf(f, "\n  ],\n  \"seeds\": %llu,\n  \"runs\": %llu,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", (unsigned long long)tot.seeds, (unsigned long long)tot.runs, (double)tot.runs / search_s * 3600, (double)tot.seeds / search_s * 3600);
        fprintf(f, "  \"simulated_time\": {\"unit\": \"steps of the code under test (basic blocks)\", \"total\": %llu},\n", (unsigned long long)tot.steps);
        fprintf(f, "  \"faults_injected\": {\"failed_allocation\": %llu, \"failed_user_callback\": %llu, \"forced_task_switch\": %llu},\n", (unsigned long long)tot.faults_a, (unsigned long long)tot.faults_c, (unsigned long long)tot.switches);
        fprintf(f, "  \"runs_by_configuration\": {\"fault_free_sequential\": %llu, \"with_faults\": %llu, \"interleaved\": %llu},\n", (unsigned long long)tot.runs_clean, (unsigned long long)tot.runs_faulted, (unsigned long long)tot.runs_switched);
        fprintf(f, "  \"distinct\": {\"execution_traces\": %llu, \"schedules\": %llu, \"fault_sites_by_call_path\": %llu, \"basic_blocks_reached\": %llu, \"measure\": \"64-bit hash of the event trace (allocations, frees, faults, switches, results); hash of the switch points; hash of 5 return addresses at the failed call; program counters of reached blocks\"},\n", (unsigned long long)sim_sh->ntraces, (unsigned long long)sim_sh->nscheds, (unsigned long long)sim_sh->nsites, (unsigned long long)pcs);
        fprintf(f, "  \"determinism\": {\"plans_executed_twice_with_equal_trace\": %llu},\n  \"allocations_seen\": %llu,\n  \"probes\": {", (unsigned long long)tot.redone, (unsigned long long)tot.allocs);
        int first = 1; for (int i = 0; i < SIM_PROBES; i++) if (sim_sh->probes[i].h) { fprintf(f, "%s", first ? "" : ", "); jstr(f, sim_sh->probes[i].name); fprintf(f, ": %llu", (unsigned long long)sim_sh->probes[i].n); first = 0; }
        fprintf(f, "},\n  \"components\": {\"real\": \"all of /repo/src compiled from the working tree (AddressSanitizer, basic block hooks)\", \"simulated\": \"heap (malloc, calloc, realloc, free, strdup, ...), task scheduler, caller tasks and their callbacks\", \"stub\": \"reflection tables are built by the simulator instead of the metac generator\"}\n },\n");
        fprintf(f, " \"wall_s\": %.2f,\n \"assumptions\": [\"x86-64 Linux, gcc build of the working tree\", \"a failed allocation returns NULL and has no other effect\", \"objects handed to the library are well formed\"],\n \"violations\": [", wall);
        if (rc == 1) { fprintf(f, "{\"replay\": "); jstr(f, path); fprintf(f, ", \"kind\": "); jstr(f, best.res.kind); fprintf(f, ", \"message\": "); jstr(f, best.res.msg); fprintf(f, "}"); }
        fprintf(f, "]\n}\n"); fclose(f);
    }
    printf("%s %s: %llu seeds, %llu runs, %llu faults, %llu switches, %llu traces, %.1f s, %s\n", p->id, tier, (unsigned long long)tot.seeds, (unsigned long long)tot.runs, (unsigned long long)(tot.faults_a + tot.faults_c), (unsigned long long)tot.switches, (unsigned long long)sim_sh->ntraces, wall, rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "ERROR");
    return rc;
}
