#include <hob3lbase/base-def.h>
#include <hob3lbase/arith.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/heap.h>
#include <hob3lbase/list.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/pool.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/base-mat.h>
#include <hob3lbase/bool-bitmap.h>
#include <hob3lbase/utf8.h>
#include "bshim.h"
typedef struct { unsigned char x[1]; } e1; typedef struct { int x[1]; } e4; typedef struct { int x[2]; } e8; typedef struct { int x[3]; } e12; typedef struct { int x[6]; } e24;
typedef CP_VEC_T(e1) v1; typedef CP_VEC_T(e4) v4; typedef CP_VEC_T(e8) v8; typedef CP_VEC_T(e12) v12; typedef CP_VEC_T(e24) v24;
typedef struct { int e; cp_alloc_t *m; cp_pool_t pool; union { v1 a1; v4 a4; v8 a8; v12 a12; v24 a24; cp_v_t v; }; } bv;
#define SET(el, id) do { for (size_t q_ = 0; q_ < sizeof((el).x) / sizeof((el).x[0]); q_++) (el).x[q_] = (__typeof__((el).x[0]))((id) + (int)q_ * 7); } while (0)
#define CMPF(T) static int cmp_##T(T const *a, T const *b, void *u) { (void)u; return (int)a->x[0] - (int)b->x[0]; } static int key_##T(int const *k, T const *b, void *u) { (void)u; return *k - (int)b->x[0]; }
CMPF(e1) CMPF(e4) CMPF(e8) CMPF(e12) CMPF(e24)
#define OPS(T, V) \
static int op_##T(bv *o, V *v, int op, size_t a, size_t b, size_t c, int id) { cp_alloc_t *m = o->m; int g = m == &cp_alloc_global; T t; memset(&t, 0, sizeof t); SET(t, id); \
    T arr[64]; for (size_t i = 0; i < 64; i++) SET(arr[i], id + (int)i); \
    switch (op) { \
    case V_INIT0: if (g) cp_v_init0(v, a); else cp_v_init0_alloc(m, v, a); break; \
    case V_CLEAR: if (g) cp_v_clear(v, a); else cp_v_clear_alloc(m, v, a); break; \
    case V_SET_SIZE: if (g) cp_v_set_size(v, a); else cp_v_set_size_alloc(m, v, a); break; \
    case V_ENSURE: if (g) cp_v_ensure_size(v, a); else cp_v_ensure_size_alloc(m, v, a); break; \
    case V_INFLATE: if (g) cp_v_inflate(v, a, b); else cp_v_inflate_alloc(m, v, a, b); break; \
    case V_COPY1: if (g) cp_v_copy1(v, a, t); else cp_v_copy1_alloc(m, v, a, t); break; \
    case V_INSERT1: if (g) cp_v_insert1(v, a, t); else cp_v_insert1_alloc(m, v, a, t); break; \
    case V_INSERT_ARR: if (g) cp_v_insert_arr(v, a, arr, b); else cp_v_insert_arr_alloc(m, v, a, arr, b); break; \
    case V_INSERT_VEC: { V w; cp_v_init(&w); for (size_t i = 0; i < b; i++) cp_v_push(&w, arr[i]); if (g) cp_v_insert(v, a, &w); else cp_v_insert_alloc(m, v, a, &w); cp_v_fini(&w); break; } \
    case V_INSERT_SELF: if (g) cp_v_insert_arr(v, a, v->data + b, c); else cp_v_insert_arr_alloc(m, v, a, v->data + b, c); break; \
    case V_COPY_SELF: if (g) cp_v_copy(v, a, v, b, c); else cp_v_copy_alloc(m, v, a, v, b, c); break; \
    case V_COPY_ARR_SELF: cp_v_copy_arr(v, a, v, b, c); break; \
    case V_REMOVE: cp_v_remove(v, a, b); break; \
    case V_REVERSE: cp_v_reverse(v, a, b); break; \
    case V_EXTRACT: { T r = cp_v_extract(v, a); return (int)r.x[0]; } \
    case V_PUSH: { T *r; if (g) r = cp_v_push(v, t); else r = cp_v_push_alloc(m, v, t); return (int)CP_MONUS(r, v->data); } \
    case V_PUSH0: { T *r; if (g) r = cp_v_push0(v); else r = cp_v_push0_alloc(m, v); return (int)CP_MONUS(r, v->data); } \
    case V_POP: { T r = cp_v_pop(v); return (int)r.x[0]; } \
    case V_APPEND_SELF: if (g) cp_v_append(v, v); else cp_v_append_alloc(m, v, v); break; \
    case V_QSORT: cp_v_qsort(v, a, b, cmp_##T, (void*)NULL); break; \
    case V_SHRINK: if (g) cp_v_shrink(v, a); else cp_v_shrink_alloc(m, v, a); break; \
    } return 0; } \
static int get_##T(V *v, size_t i) { T *t = cp_v_nth_ptr(v, i); int f = (int)t->x[0]; for (size_t q = 0; q < sizeof(t->x) / sizeof(t->x[0]); q++) { T w; SET(w, f); int z = 1; for (size_t k = 0; k < sizeof(t->x) / sizeof(t->x[0]); k++) if (t->x[k]) z = 0; if (!z && t->x[q] != w.x[q]) return -1; } return f; } \
static size_t bs_##T(V *v, int key) { return cp_v_bsearch(&key, v, key_##T, (void*)NULL); } \
static int n0_##T(V *v, size_t i) { T *p = cp_v_nth_ptr0(v, i); return p ? (int)p->x[0] : -2; } \
static int lb_##T(V *v, size_t i) { return (int)cp_v_last_but(v, i).x[0]; }
OPS(e1, v1) OPS(e4, v4) OPS(e8, v8) OPS(e12, v12) OPS(e24, v24)
#define SW(f, ...) switch (o->e) { case E1: return f##_e1(__VA_ARGS__); }
void *bv_new(int e, int pool) { bv *o = calloc(1, sizeof *o); o->e = e; o->m = &cp_alloc_global; if (pool) { cp_pool_init(&o->pool); o->pool.block_size = 0x1000; o->m = o->pool.alloc; } return o; }
void bv_free(void *p) { bv *o = p; if (o->m == &cp_alloc_global) cp_v_fini(&o->a4); else { cp_v_fini_alloc(o->m, &o->a4); cp_pool_fini(&o->pool); } free(o); }
int bv_op(void *p, int op, size_t a, size_t b, size_t c, int id) { bv *o = p; switch (o->e) { case E1: return op_e1(o, &o->a1, op, a, b, c, id); case E4: return op_e4(o, &o->a4, op, a, b, c, id); case E8: return op_e8(o, &o->a8, op, a, b, c, id); case E12: return op_e12(o, &o->a12, op, a, b, c, id); default: return op_e24(o, &o->a24, op, a, b, c, id); } }
size_t bv_size(void *p) { return ((bv*)p)->v.size; }
size_t bv_alloc(void *p) { return ((bv*)p)->v.alloc; }
int bv_get(void *p, size_t i) { bv *o = p; switch (o->e) { case E1: return get_e1(&o->a1, i); case E4: return get_e4(&o->a4, i); case E8: return get_e8(&o->a8, i); case E12: return get_e12(&o->a12, i); default: return get_e24(&o->a24, i); } }
size_t bv_bsearch(void *p, int k) { bv *o = p; switch (o->e) { case E1: return bs_e1(&o->a1, k); case E4: return bs_e4(&o->a4, k); case E8: return bs_e8(&o->a8, k); case E12: return bs_e12(&o->a12, k); default: return bs_e24(&o->a24, k); } }
int bv_nth0(void *p, size_t i) { bv *o = p; switch (o->e) { case E1: return n0_e1(&o->a1, i); case E4: return n0_e4(&o->a4, i); case E8: return n0_e8(&o->a8, i); case E12: return n0_e12(&o->a12, i); default: return n0_e24(&o->a24, i); } }
int bv_last_but(void *p, size_t i) { bv *o = p; switch (o->e) { case E1: return lb_e1(&o->a1, i); case E4: return lb_e4(&o->a4, i); case E8: return lb_e8(&o->a8, i); case E12: return lb_e12(&o->a12, i); default: return lb_e24(&o->a24, i); } }

static int cmp_i(e12 const *a, e12 const *b, void *u) { (void)u; return a->x[0] - b->x[0]; }
#define HE(k) ({ e12 t_; SET(t_, (k)); t_; })
void *bh_new(void) { return calloc(1, sizeof(v12)); }
void bh_free(void *p) { v12 *v = p; cp_v_fini(v); free(p); }
size_t bh_size(void *p) { return ((v12*)p)->size; }
int bh_get(void *p, size_t i) { return get_e12(p, i); }
void bh_push_raw(void *p, int k) { v12 *v = p; cp_v_push(v, HE(k)); }
void bh_make(void *p) { v12 *v = p; cp_v_heap_make(v, cmp_i, (void*)NULL); }
void bh_insert(void *p, int k) { v12 *v = p; cp_v_heap_insert(v, cmp_i, (void*)NULL, HE(k)); }
int bh_extract(void *p) { v12 *v = p; e12 r = cp_v_heap_extract(v, cmp_i, (void*)NULL); return r.x[0]; }
void bh_update(void *p, size_t i, int k) { v12 *v = p; v->data[i] = HE(k); cp_v_heap_update(v, cmp_i, (void*)NULL, i); }
int bh_min(void *p) { v12 *v = p; e12 *r = cp_v_heap_min(v); return r->x[0]; }

typedef struct { int key; size_t idx; } pe;
typedef struct { cp_heap_t h; pe e[32]; } bp;
static int cmp_p(size_t const *a, size_t const *b, void *u) { (void)u; return CP_BOX_OF(a, pe const, idx)->key - CP_BOX_OF(b, pe const, idx)->key; }
static int eno(bp *b, size_t *x) { return x ? (int)(CP_BOX_OF(x, pe, idx) - b->e) : -1; }
void *bp_new(void) { bp *b = calloc(1, sizeof *b); for (int i = 0; i < 32; i++) b->e[i].idx = CP_HEAP_NO_IDX; return b; }
void bp_free(void *p) { bp *b = p; cp_v_fini(&b->h); free(b); }
size_t bp_size(void *p) { return ((bp*)p)->h.size; }
int bp_get(void *p, size_t i) { bp *b = p; return eno(b, b->h.data[i]); }
long bp_idx(void *p, int e) { return (long)((bp*)p)->e[e].idx; }
int bp_key(void *p, int e) { return ((bp*)p)->e[e].key; }
void bp_push_raw(void *p, int e, int k) { bp *b = p; b->e[e].key = k; b->e[e].idx = 77; cp_v_push(&b->h, &b->e[e].idx); }
void bp_make(void *p) { bp *b = p; cp_heap_make_(&b->h, cmp_p, NULL); }
void bp_insert(void *p, int e, int k) { bp *b = p; b->e[e].key = k; cp_heap_insert(&b->h, cmp_p, NULL, &b->e[e].idx); }
int bp_extract(void *p) { bp *b = p; return eno(b, cp_heap_extract(&b->h, cmp_p, NULL)); }
int bp_remove(void *p, size_t i) { bp *b = p; return eno(b, cp_heap_remove(&b->h, cmp_p, NULL, i)); }
void bp_update(void *p, size_t i, int k) { bp *b = p; CP_BOX_OF(b->h.data[i], pe, idx)->key = k; cp_heap_update(&b->h, cmp_p, NULL, i); }
int bp_replace(void *p, size_t i, int e, int k) { bp *b = p; if (e >= 0) b->e[e].key = k; return eno(b, cp_heap_replace(&b->h, cmp_p, NULL, i, e >= 0 ? &b->e[e].idx : NULL)); }
int bp_min(void *p) { bp *b = p; return eno(b, cp_heap_min(&b->h)); }
int bp_member(void *p, int e) { return cp_heap_is_member(&((bp*)p)->e[e].idx); }

typedef struct ln ln; struct ln { int a; ln *next, *prev; int b; };
static ln L[8];
void bl_init(int n) { for (int i = 0; i < n; i++) cp_list_init(&L[i]); }
void bl_chain(int p, int n) { cp_list_chain(&L[p], &L[n]); }
void bl_remove(int n) { cp_list_remove(&L[n]); }
int bl_next(int n) { return (int)(L[n].next - L); }
int bl_prev(int n) { return (int)(L[n].prev - L); }
int bl_member(int n) { return cp_list_is_member(&L[n]); }

void *bs_new(void) { cp_vchar_t *v = malloc(sizeof *v); cp_vchar_init(v); return v; }
void bs_free(void *p) { cp_vchar_fini(p); free(p); }
size_t bs_size(void *p) { return ((cp_vchar_t*)p)->size; }
size_t bs_alloc(void *p) { return ((cp_vchar_t*)p)->alloc; }
const char *bs_data(void *p) { return ((cp_vchar_t*)p)->data; }
const char *bs_cstr(void *p) { return cp_vchar_cstr(p); }
void bs_push(void *p, int c) { cp_vchar_push(p, (char)c); }
void bs_append(void *p, void *q) { cp_vchar_append(p, q); }
void bs_append_str(void *p, const char *s) { cp_vchar_append_str(p, s); }
void bs_append_arr(void *p, const char *s, size_t n) { cp_vchar_append_arr(p, s, n); }
void bs_printf(void *p, const char *f, int w, const char *s) { cp_vchar_printf(p, f, w, s); }
void bs_swap(void *p, void *q) { cp_vchar_swap(p, q); }
void bs_clear(void *p) { cp_vchar_clear(p); }
int bs_pop(void *p) { return cp_vchar_pop(p); }

void *bq_new(size_t block) { cp_pool_t *p = malloc(sizeof *p); cp_pool_init(p); p->block_size = block; return p; }
void bq_free(void *p) { cp_pool_fini(p); free(p); }
void *bq_calloc(void *p, size_t n, size_t sz, size_t al) { return cp_pool_calloc(__FILE__, __LINE__, p, n, sz, al); }
void bq_clear(void *p) { cp_pool_clear(p); }
void bq_fini(void *p) { cp_pool_fini(p); }
void *bq_xcalloc(void *p, size_t n, size_t sz) { return cp_calloc(((cp_pool_t*)p)->alloc, n, sz); }
void *bq_xremalloc(void *p, void *q, size_t o, size_t n, size_t sz) { return cp_remalloc(((cp_pool_t*)p)->alloc, q, o, n, sz); }
void *bq_xrecalloc(void *p, void *q, size_t o, size_t n, size_t sz) { return cp_recalloc(((cp_pool_t*)p)->alloc, q, o, n, sz); }
void *bg_remalloc(void *q, size_t o, size_t n, size_t sz) { return cp_remalloc(&cp_alloc_global, q, o, n, sz); }
void *bg_recalloc(void *q, size_t o, size_t n, size_t sz) { return cp_recalloc(&cp_alloc_global, q, o, n, sz); }
void *bg_calloc(size_t n, size_t sz) { return cp_calloc(&cp_alloc_global, n, sz); }
void bg_free(void *p) { cp_free(&cp_alloc_global, p); }

size_t bb_bytes(void) { return sizeof(cp_bool_bitmap_t); }
void bb_spread(void *p, size_t h, size_t a) { cp_bool_bitmap_spread(p, h, a); }
void bb_repeat(void *p, size_t h, size_t a) { cp_bool_bitmap_repeat(p, h, a); }
void bb_combine(void *p, const void *q, size_t s, int op) { static const cp_bool_op_t m[] = { CP_OP_ADD, CP_OP_CUT, CP_OP_SUB, CP_OP_XOR }; cp_bool_bitmap_combine(p, q, s, m[op]); }
int bb_get(const void *p, size_t i) { return cp_bool_bitmap_get(p, i); }
void bb_set(void *p, size_t i, int v) { cp_bool_bitmap_set(p, i, v); }
unsigned bu_decode(const char **s, size_t *size, const char **err, int esc) { cp_utf8_iter_t it = { .data = *s, .size = *size, .error_msg = NULL }; unsigned r = esc ? cp_utf8_escaped_decode(&it) : cp_utf8_decode(&it); *s = it.data; *size = it.size; *err = it.error_msg; return r; }
size_t bu_encode(char *d, size_t n, unsigned cp) { return cp_utf8_encode(d, n, cp); }
int bu_ok(unsigned cp) { return cp_utf8_ok(cp); }
unsigned bu_take(const char **s) { return cp_utf8_take(s); }
void bk_memswap(void *a, void *b, size_t n) { cp_memswap(a, b, n); }
int bk_mem_is0(void *a, size_t n) { return cp_mem_is0(a, n); }
size_t bk_size(int k, size_t n, size_t a) { switch (k) { case 0: return cp_align_down(n, a); case 1: return cp_align_up(n, a); case 2: return cp_align_down_diff(n, a); case 3: return cp_align_up_diff(n, a);
    case 4: return cp_size_align(n); case 5: return cp_idx0(n, a); case 6: return cp_wrap_add1(n, a); case 7: return cp_wrap_sub1(n, a); default: return cp_min(n, a) + 1000 * cp_max(n, a); } }
long bk_pref(const char *h, const char *n) { const char *p = is_prefix(h, n); size_t q = strpref(h, n); return (p ? p - h : -1) * 100 + (long)q; }
int bk_strcmp0(const char *a, const char *b) { int c = strcmp0(a, b); return (c > 0) - (c < 0) + (strequ0(a, b) ? 10 : 0); }
