#ifndef SIM_INT_H_
#define SIM_INT_H_
#include "sim.h"
enum { SIM_RUNNING = 1, SIM_OK, SIM_VIOLATION, SIM_HARNESS };
typedef struct {
    int status; char kind[32]; char msg[400];
    int task, op;
    uint64_t step, hash, sched_hash;
    uint64_t allocs, faults_a, faults_c, switches;
    uint32_t ord_a[SIM_MAX_TASKS], ord_c[SIM_MAX_TASKS];
    uint32_t blocks;
} sim_result_t;
typedef struct {
    sim_result_t res; sim_plan_t plan;
    uint64_t index; int variant; int done;
    uint64_t runs, steps, allocs, faults_a, faults_c, switches, seeds, redone, runs_faulted, runs_switched, runs_clean;
} sim_slot_t;
#define SIM_COV (1u << 22)
#define SIM_SITES (1u << 18)
#define SIM_SETS (1u << 23)
#define SIM_PROBES 1024
typedef struct { uint64_t h, n; char name[56]; } sim_probe_t;
typedef struct {
    uint64_t stop_index; /* lowest index with an unlisted violation so far */
    uint64_t nsites, nscheds, ntraces;
    uint64_t sites[SIM_SITES], scheds[SIM_SETS], traces[SIM_SETS];
    uint8_t cov[SIM_COV];
    sim_probe_t probes[SIM_PROBES];
    sim_slot_t slots[65];
} sim_shared_t;
extern sim_shared_t *sim_sh;
extern sim_slot_t *sim_slot;
extern int sim_verbose;
void sim_process_init(void);
void sim_run(const prop_t *prop, const sim_plan_t *plan, uint64_t budget);
#endif
