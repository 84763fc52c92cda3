/* hand-made reflection data and an allocator which can be told to fail; part of a demonstration */
#ifndef ENT_H_
#define ENT_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <stdbool.h>
#include "metac/backend/entry.h"
#include "metac/backend/value.h"
#include "metac/reflect.h"
#define BT(_n_, _name_, _t_, _e_) static metac_entry_t bt_##_n_ = { .kind = METAC_KND_base_type, .name = _name_, .base_type_info = { .byte_size = sizeof(_t_), .encoding = _e_ } };
BT(char, "char", char, METAC_ENC_signed_char) BT(uchar, "unsigned char", unsigned char, METAC_ENC_unsigned_char)
BT(short, "short int", short, METAC_ENC_signed) BT(ushort, "unsigned short int", unsigned short, METAC_ENC_unsigned)
BT(int, "int", int, METAC_ENC_signed) BT(uint, "unsigned int", unsigned, METAC_ENC_unsigned)
BT(long, "long int", long, METAC_ENC_signed) BT(ulong, "unsigned long int", unsigned long, METAC_ENC_unsigned)
BT(llong, "long long int", long long, METAC_ENC_signed) BT(ullong, "unsigned long long int", unsigned long long, METAC_ENC_unsigned)
BT(bool, "_Bool", bool, METAC_ENC_boolean) BT(float, "float", float, METAC_ENC_float) BT(double, "double", double, METAC_ENC_float) BT(ldouble, "long double", long double, METAC_ENC_float)
#define PT(_n_, _to_) static metac_entry_t pt_##_n_ = { .kind = METAC_KND_pointer_type, .pointer_type_info = { .byte_size = sizeof(void *), .type = _to_ } };
#define AT(_n_, _to_, _count_) static metac_entry_t at_##_n_ = { .kind = METAC_KND_array_type, .array_type_info = { .type = _to_, .count = _count_ } };
#define MB(_name_, _type_, _off_) { .kind = METAC_KND_member, .name = _name_, .member_info = { .type = _type_, .byte_offset = _off_ } }
#define ST(_n_, _name_, _size_, _members_) static metac_entry_t st_##_n_ = { .kind = METAC_KND_struct_type, .name = _name_, .structure_type_info = { .byte_size = _size_, .members_count = sizeof(_members_) / sizeof(*(_members_)), .members = _members_ } };
#define VAR(_n_, _name_, _type_) static metac_entry_t var_##_n_ = { .kind = METAC_KND_variable, .name = _name_, .variable_info = { .type = _type_ } };
#define PAR(_name_, _type_) { .kind = METAC_KND_func_parameter, .name = _name_, .func_parameter_info = { .type = _type_ } }
#define PAR_DOTS { .kind = METAC_KND_func_parameter, .func_parameter_info = { .unspecified_parameters = 1 } }
PT(char, &bt_char) PT(int, &bt_int) PT(void, NULL)
metac_entry_t *metac_dflt_gsym_metac_store_vprintf_params, *metac_dflt_gsym_metac_store_printf_params; struct metac_entry_db *metac_entry_dflt;
/* the allocator: fail_at: number of allocations which still succeed (<0: all) */
static long fail_at = -1, n_alloc, n_live, n_failed;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
long one_shot, only_calloc; /* one_shot: only one allocation fails, only_calloc: malloc never does */
static int refuse(void) { n_alloc++; if (fail_at < 0) return 0; if (fail_at == 0) { n_failed++; if (one_shot) fail_at = -1; return 1; } fail_at--; return 0; }
void *__wrap_malloc(size_t n) { if (!only_calloc && refuse()) return NULL; n_live++; return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t s) { if (refuse()) return NULL; n_live++; return __real_calloc(n, s); }
void *__wrap_realloc(void *p, size_t n) { if (refuse()) return NULL; if (!p) n_live++; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (p) n_live--; __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
#define OK(_c_) do { if (!(_c_)) { printf("FAILED line %d: %s\n", __LINE__, #_c_); exit(1); } } while (0)
#endif
