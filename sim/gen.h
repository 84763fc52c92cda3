/* Seeded generator of worlds (types + hints) and objects, and the reference model which says what an object holds. */
#ifndef GEN_H_
#define GEN_H_
#include "sim.h"
#include "metac/backend/entry.h"
#include "world.h"

typedef enum { M_BASE, M_ENUM, M_PTR, M_ARR, M_FLEX, M_STRUCT, M_UNION, M_WRAP, M_VOID, M_DECL, M_FUNC } mk_t;
typedef enum { HT_NONE, HT_COUNT, HT_ZSTR, HT_USEL, HT_UPERM, HT_CAST, HT_CONT } hint_t;
typedef enum { R_PLAIN, R_COUNTER, R_SELECTOR } role_t;
typedef struct mt mt; typedef struct mm mm;
typedef struct { int64_t v; int id; const char *name; mt *to; metac_entry_t *pe; } mcase;
struct mm {
    const char *name; mt *t; metac_entry_t *e;
    size_t off; int bitoff, bits;      /* bits != 0: bit-field at byte off, first bit bitoff (0..7) */
    hint_t h; int sib, sib2;           /* sibling index: counter / selector; sib2: counter of a cast */
    mcase *cs; int ncs; int perm;
    mt *cont; size_t cont_off;         /* HT_CONT */
    role_t role; int64_t maxv;
    int wrapped_cb, by_final;
    int bad, badcase; const char *badname; /* wrong hints: 1 the sibling doesn't exist or has no number, 2 a case leads to no member, 3 constant out of range, 4 as 1 but the counter of a cast */
};
struct mt {
    mk_t k; metac_entry_t *e; size_t size, align; mt *to; int64_t n; mm *m; int nm; const char *name;
    int base; int ne; const char **en; int64_t *ev; int wk; /* wrap: 't','c','v' */
    int flex; int packed; int id; mt **par; const char **parn; int npar; int dots; int anon;
};
typedef struct { int hints, uptr, unhandled, consts, faults_cb; int max_structs, max_members; int zfinal; int mapkind; int nobits; int notext; int badhints; int maxents; } wcfg_t;
typedef struct {
    wcfg_t cfg; rng_t r;
    metac_entry_t *ents; int nents, maxents; uint8_t *aux; size_t naux, maxaux;
    mt *st[8]; int nst; mt *zptr; mt *decl; metac_entry_t *cbs; /* structure with a callback */
    mt *tops[32]; metac_entry_t *tope[32]; hint_t toph[32]; int ntops;
    metac_tag_map_t *map, *map2;
    int serial, nwide, has_const, has_uptr, has_unh; uint32_t topfn; uint64_t nameseed; /* tops which are arguments of a function */
    mm *hinted[128]; int nhinted;
} world_t;
world_t *world_make(rng_t *r, const wcfg_t *cfg);   /* in setup(): also builds the tag maps */
void world_free(world_t *w);                        /* in finish() */
uint64_t world_hash(world_t *w);
static inline mt *res(mt *t) { while (t->k == M_WRAP) t = t->to; return t; }
mt *t_base(int i); int base_count(void);
mt *t_ptr(world_t *w, mt *to); mt *t_arr(world_t *w, mt *to, int64_t n); mt *t_wrap(world_t *w, int kind, mt *to, const char *name);
metac_entry_t *ent_new(world_t *w, int n);
void *aux_new(world_t *w, size_t n);
mt *t_void(void); mt *t_func(world_t *w, mt *ret, int npar, mt **par, const char **names, int dots);
char *aux_str(world_t *w, const char *s);
mt *t_rand(world_t *w, int depth); int wide(world_t *w, rng_t *r, int few); long double rldbl(rng_t *r, size_t size);                  /* random type for declarations */

/* functions whose calls are captured: the arguments are modelled as a structure */
typedef struct { metac_entry_t *e, *par; const char *name; mt *args; int top, np, sub; int vakind, vapos, vahint, vawrapped; /* vakind: 0 none, 1 '...', 2 va_list; vapos: index of the parameter */ } fn_t;
fn_t *fn_make(world_t *w, rng_t *r, int vakind, metac_flag_t (*(*acc)(size_t))(struct va_list_container *, void *));
/* objects */
typedef struct { char *a; size_t n; uint8_t *snap; } oblk_t;
typedef struct {
    world_t *w; int topi; mt *t; metac_entry_t *e; char *top; size_t topsize;
    oblk_t *b; int nb, capb; int shared, oddloop; uint64_t seed; int sharing; int forced;
    int wide, wideok; int intop; /* pointers may lead into the top-level memory */ int flexcount; int budget; int noone; /* unknown pointers may lead to blocks of no bytes */
    int chain, chainlen, ended, depth, nodes, ptrs; /* long objects */
    void *reg; int nreg, capreg; void *zreg; int nzreg, capzreg;
} obj_t;
int obj_in_domain(obj_t *o);
obj_t *obj_make(world_t *w, uint64_t seed, int top); /* same seed and top: an isomorphic clone */
obj_t *obj_make_long(world_t *w, uint64_t seed, int top, int len);
int world_nest(world_t *w, rng_t *r, int kind, int n);
extern int view_max, view_depth; /* bounds of what is in the domain */
char *obj_block(obj_t *o, size_t n);                 /* one more block of the object */
void obj_destroy(obj_t *o);                         /* what's still alive */
void obj_snap(obj_t *o); int obj_changed(obj_t *o); /* compares with the snapshot */

/* the reference view of an object */
enum { V_OK, V_NULL, V_LOOP, V_TGT, V_OPAQUE, V_UNK, V_BAD };
typedef struct vn vn;
struct vn { mt *t, *dt; char *a; mm *via; int bitoff, bits; int st; vn **ch; int nch; vn *up, *loop; char *pv; int64_t cnt; size_t ext, tx; int sel; int cont; }; /* ext: own bytes, tx: bytes of the target */
typedef struct { int n, max, maxdepth; int loops, nulls, opaque, unk, flexunk, conts, bad, badloop, odd, ptrs, zero, consts; int overflow; int hints; int shallow; /* pointers aren't followed */ } vinfo_t;
vn *view(world_t *w, mt *t, metac_entry_t *e, hint_t toph, char *a, int hints, vinfo_t *vi);
vn *obj_view(obj_t *o, vinfo_t *vi);
int64_t rd_int(mt *t, const char *a, int bitoff, int bits);
void wr_int(mt *t, char *a, int bitoff, int bits, int64_t v);
int leaf_eq(vn *x, vn *y);
int is_intlike(mt *t);
/* texts */
char *ref_cdecl(mt *t);             /* with %s */
char *ref_cdecl_as(mt *t, const char *name);
char *ref_text(vn *v, int deep, int with_map, int *p_absent); /* absent: the library has to give no text */
char *ref_trim(const char *s);
#endif
