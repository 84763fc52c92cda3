/* Static reflection tables: base types, pointers to them, functions of the library which ask for their own entry. */
#include "sim.h"
#include "metac/backend/entry.h"
#include "world.h"

#define BT(_n_, _name_, _t_, _e_) metac_entry_t bt_##_n_ = { .kind = METAC_KND_base_type, .name = _name_, .base_type_info = { .byte_size = sizeof(_t_), .encoding = _e_ } };
BT(char, "char", char, METAC_ENC_signed_char)
BT(schar, "signed char", signed char, METAC_ENC_signed_char)
BT(uchar, "unsigned char", unsigned char, METAC_ENC_unsigned_char)
BT(short, "short int", short, METAC_ENC_signed)
BT(ushort, "unsigned short int", unsigned short, METAC_ENC_unsigned)
BT(int, "int", int, METAC_ENC_signed)
BT(uint, "unsigned int", unsigned, METAC_ENC_unsigned)
BT(long, "long int", long, METAC_ENC_signed)
BT(ulong, "unsigned long int", unsigned long, METAC_ENC_unsigned)
BT(llong, "long long int", long long, METAC_ENC_signed)
BT(ullong, "unsigned long long int", unsigned long long, METAC_ENC_unsigned)
BT(bool, "_Bool", bool, METAC_ENC_boolean)
BT(float, "float", float, METAC_ENC_float)
BT(double, "double", double, METAC_ENC_float)
BT(ldouble, "long double", long double, METAC_ENC_float)
BT(fcomplex, "complex float", float _Complex, METAC_ENC_complex_float)
BT(dcomplex, "complex double", double _Complex, METAC_ENC_complex_float)
BT(ldcomplex, "long complex double", long double _Complex, METAC_ENC_complex_float)
#define PT(_n_, _to_) metac_entry_t pt_##_n_ = { .kind = METAC_KND_pointer_type, .pointer_type_info = { .byte_size = sizeof(void *), .type = _to_ } };
PT(char, &bt_char) PT(schar, &bt_schar) PT(uchar, &bt_uchar) PT(short, &bt_short) PT(ushort, &bt_ushort) PT(int, &bt_int) PT(uint, &bt_uint) PT(long, &bt_long) PT(ulong, &bt_ulong)
PT(llong, &bt_llong) PT(ullong, &bt_ullong) PT(bool, &bt_bool) PT(float, &bt_float) PT(double, &bt_double) PT(ldouble, &bt_ldouble) PT(void, NULL)
metac_entry_t ct_char = { .kind = METAC_KND_const_type, .qual_type_info = { .type = &bt_char } };
PT(cchar, &ct_char)
static metac_entry_t *const by_id[] = { NULL, &bt_char, &bt_schar, &bt_uchar, &bt_short, &bt_ushort, &bt_int, &bt_uint, &bt_long, &bt_ulong, &bt_llong, &bt_ullong, &bt_bool, &bt_float, &bt_double, &bt_ldouble, 0, 0, 0, 0, 0,
    &pt_char, &pt_schar, &pt_uchar, &pt_short, &pt_ushort, &pt_int, &pt_uint, &pt_long, &pt_ulong, &pt_llong, &pt_ullong, &pt_bool, &pt_float, &pt_double, &pt_ldouble, &pt_void, &pt_cchar };
metac_entry_t *sim_type_entry(int id) {
    if (id <= 0 || id >= (int)(sizeof by_id / sizeof *by_id) || !by_id[id]) return NULL;
    return by_id[id];
}

/* struct metac_parameter_storage is only declared for users; va_list on x86-64 gcc: array of 1 struct __va_list_tag, as a parameter: pointer to it */
static metac_entry_t st_storage = { .kind = METAC_KND_struct_type, .name = "metac_parameter_storage", .declaration = 1 };
static metac_entry_t td_storage = { .kind = METAC_KND_typedef, .name = "metac_parameter_storage_t", .typedef_info = { .type = &st_storage } };
PT(storage, &td_storage)
static metac_entry_t va_members[] = {
    { .kind = METAC_KND_member, .name = "gp_offset", .member_info = { .type = &bt_uint, .byte_offset = 0 } },
    { .kind = METAC_KND_member, .name = "fp_offset", .member_info = { .type = &bt_uint, .byte_offset = 4 } },
    { .kind = METAC_KND_member, .name = "overflow_arg_area", .member_info = { .type = &pt_void, .byte_offset = 8 } },
    { .kind = METAC_KND_member, .name = "reg_save_area", .member_info = { .type = &pt_void, .byte_offset = 16 } },
};
metac_entry_t st_va_list_tag = { .kind = METAC_KND_struct_type, .name = "__va_list_tag", .structure_type_info = { .byte_size = 24, .members_count = 4, .members = va_members } };
PT(va_list, &st_va_list_tag)
#define PAR(_name_, _type_) { .kind = METAC_KND_func_parameter, .name = _name_, .func_parameter_info = { .type = _type_ } }
#define PAR_DOTS { .kind = METAC_KND_func_parameter, .func_parameter_info = { .unspecified_parameters = 1 } }
static metac_entry_t vp_params[] = { PAR("p_pload", &pt_storage), PAR("format", &pt_cchar), PAR("parameters", &pt_va_list) };
static metac_entry_t pp_params[] = { PAR("p_pload", &pt_storage), PAR("format", &pt_cchar), PAR_DOTS };
static metac_entry_t vp_sub = { .kind = METAC_KND_subprogram, .name = "metac_store_vprintf_params", .subprogram_info = { .type = &bt_int, .parameters_count = 3, .parameters = vp_params, .linkage_info = { .external = 1 } } };
static metac_entry_t pp_sub = { .kind = METAC_KND_subprogram, .name = "metac_store_printf_params", .subprogram_info = { .type = &bt_int, .parameters_count = 3, .parameters = pp_params, .linkage_info = { .external = 1 } } };
metac_entry_t *metac_dflt_gsym_metac_store_vprintf_params = &vp_sub;
metac_entry_t *metac_dflt_gsym_metac_store_printf_params = &pp_sub;
struct metac_entry_db *metac_entry_dflt;
