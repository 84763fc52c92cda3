/* Arguments of variable argument calls (x86-64 SysV): registers save area and stack part are built by hand, so that a seed decides the whole call. */
#ifndef CAP_H_
#define CAP_H_
#include "gen.h"
#include "metac/backend/printf_format.h"
#define VA_WORDS 40
typedef struct { struct va_list_container c; char *regs, *ov; int gp, fp, nov, cap; } va_t;
va_t *va_new(int gp_used, int fp_used, int cap);
void va_scramble(va_t *v);
void va_int(va_t *v, uint64_t x); void va_dbl(va_t *v, double d); void va_mem(va_t *v, const void *p, size_t n, size_t align); void va_struct(va_t *v, const void *p, size_t n);
void va_arg_of(va_t *v, mt *t, const char *a);   /* an argument of that type as it's passed through ... */
/* the words to give to a variadic function whose named arguments took gp integer registers: needs va_new(gp * 8, 0, ..) */
#define VA_PASS(v, gp) VA_G##gp(v), VA_F(v), VA_O(v)
#define VAG(v, i) (((uint64_t *)(v)->regs)[i])
#define VAF(v, i) (*(double *)((v)->regs + 48 + 16 * (i)))
#define VAO(v, i) (((uint64_t *)(v)->ov)[i])
#define VA_G2(v) VAG(v, 2), VAG(v, 3), VAG(v, 4), VAG(v, 5)
#define VA_F(v) VAF(v, 0), VAF(v, 1), VAF(v, 2), VAF(v, 3), VAF(v, 4), VAF(v, 5), VAF(v, 6), VAF(v, 7)
#define VA_O8(v, i) VAO(v, i), VAO(v, i + 1), VAO(v, i + 2), VAO(v, i + 3), VAO(v, i + 4), VAO(v, i + 5), VAO(v, i + 6), VAO(v, i + 7)
#define VA_O(v) VA_O8(v, 0), VA_O8(v, 8), VA_O8(v, 16), VA_O8(v, 24), VA_O8(v, 32)
metac_flag_t (*va_accessor(size_t n))(struct va_list_container *, void *);
/* formats */
typedef struct { char conv; const char *type; uint8_t val[32]; size_t size, cmp; char *str; size_t len; const char *text; int opaque; } conv_t;
typedef struct { char *fmt; conv_t *c; int n; int bad; int big; } format_t;
format_t *format_make(rng_t *r, int max, int allow_bad);
void format_pass(format_t *f, va_t *v);
void format_check(format_t *f, metac_parameter_storage_t *st, int from, int more); /* items from.. are what the format says (type, value) */
char *format_text(format_t *f);                      /* as shown inside of a call */
void format_spoil(format_t *f);                      /* the caller's strings are overwritten */
#endif
