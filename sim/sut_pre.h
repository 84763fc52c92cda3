/* included in front of every source file of the code under test: reflection requests of the library itself are
   answered by the simulator's tables (normally the metac generator answers them from DWARF) */
#include <stdlib.h>
#include <string.h>
#include "metac/reflect.h"
metac_entry_t *sim_type_entry(int id);
#undef METAC_ENTRY_FROM_DECLLOC
#define METAC_ENTRY_FROM_DECLLOC(_name_, _var_) ((void)METAC_DECLLOC_PTR(_name_), sim_type_entry(_Generic((_var_), \
    char: 1, signed char: 2, unsigned char: 3, short: 4, unsigned short: 5, int: 6, unsigned int: 7, long: 8, unsigned long: 9, \
    long long: 10, unsigned long long: 11, _Bool: 12, float: 13, double: 14, long double: 15, \
    char *: 21, signed char *: 22, unsigned char *: 23, short *: 24, unsigned short *: 25, int *: 26, unsigned int *: 27, long *: 28, unsigned long *: 29, \
    long long *: 30, unsigned long long *: 31, _Bool *: 32, float *: 33, double *: 34, long double *: 35, void *: 36, \
    const char *: 37, default: 0)))
