#ifndef DEEP_H_
#define DEEP_H_
#include "gen.h"
/* operations with their complete oracle; each returns 1 if the library gave a result, 0 if it failed cleanly */
typedef struct { metac_value_memory_map_mode_t m; int null_mode; } dmode_t;
void rand_cfg(rng_t *r, wcfg_t *c, int cb);
dmode_t rand_mode(rng_t *q, obj_t *o, int allow_tree);
int must_fail(obj_t *o, vinfo_t *vi, metac_value_memory_map_mode_t *m);
int op_copy(obj_t *o, rng_t *q, int allow_tree);
void op_callback(world_t *w, rng_t *q, int which); /* objects with a function pointer which is set: 0 copy, 1 free, 2 compare, 3 text */
int op_free(obj_t *o, rng_t *q);
int op_equal(obj_t *o, rng_t *q);
int op_text(obj_t *o, rng_t *q);
obj_t *rand_obj(world_t *w, rng_t *q);
metac_value_t *mkval(metac_entry_t *e, void *a);
#endif
