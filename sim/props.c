#include "sim.h"
#define P(x) extern const prop_t prop_##x;
#include "props.list"
#undef P
const prop_t *const all_props[] = {
#define P(x) &prop_##x,
#include "props.list"
#undef P
0 };
