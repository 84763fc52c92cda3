#ifndef MIX_H_
#define MIX_H_
#include "deep.h"
void mix_op(world_t *w, rng_t *q); /* one random operation of the library with its oracle */
void op_cdecl(world_t *w, rng_t *q);
void op_tagstr(rng_t *q);
void op_leaf(obj_t *o, rng_t *q);
#endif
