/* what a unit of a generated program says about its own types, and the walker that compares metac's tables with it */
#ifndef GEN_WALK_H
#define GEN_WALK_H
#include <stddef.h>
#include <string.h>
#include <stdarg.h>
#include "metac/reflect.h"
enum { X_VOID, X_BASE, X_PTR, X_ARR, X_STRUCT, X_UNION, X_ENUM, X_TYPEDEF, X_FUNC, X_QUAL, X_DECL_S, X_DECL_U };
enum { Q_CONST = 1, Q_VOLATILE = 2, Q_RESTRICT = 4 };
struct xe { const char *name; long long v; };
struct xt;
struct xm { const char *name; const struct xt *t; long off; int bits; long (*bo)(void); long align; };
struct xt {
    int k; const char *name; long size; int enc; long count; int quals, variadic, n;
    const struct xt *type; const struct xm *m; const struct xe *e;
    int (*va)(metac_entry_t *e);
};
struct xwhere { const char *unit, *file; int line, external; };
void chk_var(const char *name, const struct xt *x, long size, metac_entry_t *e, struct xwhere w);
void chk_fn(const char *name, const struct xt *ret, int n, const struct xm *p, int variadic, metac_entry_t *e, struct xwhere w);
long first_bit(const unsigned char *b, long n);
void chk_db(struct metac_db *db);
int chk_done(void);
#endif
