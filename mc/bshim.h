#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* vectors of several element sizes; every element carries an int in its first bytes (a char for size 1) */
enum { E1, E4, E8, E12, E24, E_N };
enum { V_INIT0, V_CLEAR, V_SET_SIZE, V_ENSURE, V_INFLATE, V_COPY1, V_INSERT1, V_INSERT_ARR, V_INSERT_SELF, V_COPY_ARR_SELF, V_COPY_SELF, V_REMOVE, V_REVERSE, V_EXTRACT, V_PUSH, V_POP, V_APPEND_SELF, V_PUSH0, V_QSORT, V_SHRINK, V_INSERT_VEC, V_NOPS };
void *bv_new(int e, int pool);
void bv_free(void *v);
int bv_op(void *v, int op, size_t a, size_t b, size_t c, int id); /* id: value of the first new element, following ones count up */
size_t bv_size(void *v);
size_t bv_alloc(void *v);
int bv_get(void *v, size_t i);        /* -1 if the copies within the element disagree */
size_t bv_bsearch(void *v, int key);
int bv_nth0(void *v, size_t i);
int bv_last_but(void *v, size_t i);
/* heaps */
void *bh_new(void);
void bh_free(void *);
size_t bh_size(void *); int bh_get(void *, size_t i);
void bh_push_raw(void *, int); void bh_make(void *); void bh_insert(void *, int); int bh_extract(void *); void bh_update(void *, size_t i, int key); int bh_min(void *);
/* heap of pointers with positions; elements 0..31 */
void *bp_new(void);
void bp_free(void *);
size_t bp_size(void *); int bp_get(void *, size_t i); /* element at a position */ long bp_idx(void *, int e); int bp_key(void *, int e);
void bp_push_raw(void *, int e, int key); void bp_make(void *); void bp_insert(void *, int e, int key); int bp_extract(void *); int bp_remove(void *, size_t i);
void bp_update(void *, size_t i, int key); int bp_replace(void *, size_t i, int e, int key); int bp_min(void *); int bp_member(void *, int e);
/* ring lists of up to 8 nodes */
void bl_init(int n); void bl_chain(int p, int n); void bl_remove(int n); int bl_next(int n); int bl_prev(int n); int bl_member(int n);
/* strings */
void *bs_new(void); void bs_free(void *); size_t bs_size(void *); const char *bs_data(void *); const char *bs_cstr(void *); size_t bs_alloc(void *);
void bs_push(void *, int c); void bs_append(void *, void *); void bs_append_str(void *, const char *); void bs_append_arr(void *, const char *, size_t); void bs_printf(void *, const char *, int w, const char *s);
void bs_swap(void *, void *); void bs_clear(void *); int bs_pop(void *);
/* pool */
void *bq_new(size_t block); void bq_free(void *); void *bq_calloc(void *, size_t n, size_t sz, size_t al); void bq_clear(void *); void bq_fini(void *);
void *bq_xcalloc(void *, size_t n, size_t sz); void *bq_xremalloc(void *, void *p, size_t o, size_t n, size_t sz); void *bq_xrecalloc(void *, void *p, size_t o, size_t n, size_t sz);
void bk_memswap(void *a, void *b, size_t n); int bk_mem_is0(void *a, size_t n); size_t bk_size(int k, size_t n, size_t a); long bk_pref(const char *h, const char *n); int bk_strcmp0(const char *a, const char *b);
void *bg_remalloc(void *p, size_t o, size_t n, size_t sz); void *bg_recalloc(void *p, size_t o, size_t n, size_t sz); void *bg_calloc(size_t n, size_t sz); void bg_free(void *p);
/* bits */
size_t bb_bytes(void); void bb_spread(void *, size_t have, size_t add); void bb_repeat(void *, size_t have, size_t add); void bb_combine(void *, const void *, size_t size, int op); int bb_get(const void *, size_t); void bb_set(void *, size_t, int);
enum { B_ADD, B_CUT, B_SUB, B_XOR };
/* text */
unsigned bu_decode(const char **s, size_t *size, const char **err, int esc);
size_t bu_encode(char *dst, size_t n, unsigned cp);
int bu_ok(unsigned cp);
unsigned bu_take(const char **s);
#ifdef __cplusplus
}
#endif
