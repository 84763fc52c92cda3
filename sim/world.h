#ifndef WORLD_H_
#define WORLD_H_
#include "metac/reflect.h"
extern metac_entry_t bt_char, bt_schar, bt_uchar, bt_short, bt_ushort, bt_int, bt_uint, bt_long, bt_ulong, bt_llong, bt_ullong, bt_bool, bt_float, bt_double, bt_ldouble, bt_fcomplex, bt_dcomplex, bt_ldcomplex;
extern metac_entry_t pt_char, pt_void, pt_cchar, pt_int, pt_va_list, ct_char, st_va_list_tag;
#endif
