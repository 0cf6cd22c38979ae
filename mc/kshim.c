/* Plain C interface of the 2D kernel's public functions, for the C++ harnesses. */
#include <stdlib.h>
#include <stdio.h>
#include <hob3lbase/pool.h>
#include <hob3lbase/vec.h>
#include <hob3lop/op-sweep.h>
#include <hob3lop/op-poly.h>
#include <hob3lop/op-trianglify.h>
#include <hob3lop/gon.h>
#include "kshim.h"

static cp_pool_t pool; static int pool_ok;
static cp_pool_t *get_pool(void) {
    if (!pool_ok) { cp_pool_init(&pool); pool.block_size = 1 << 15; pool_ok = 1; }
    return &pool;
}
void k_set_scale(double s) { cq_dim_scale = s; }
double k_get_scale(void) { return cq_dim_scale; }
static cp_bool_bitmap_t mk(const unsigned char *bm, int nbits) {
    cp_bool_bitmap_t b; memset(&b, 0, sizeof b);
    for (int i = 0; i < (1 << nbits); i++) cp_bool_bitmap_set(&b, (size_t)i, bm[i]);
    return b;
}
static void add(cq_sweep_t *s, k_edge const *e, int n) {
    for (int i = 0; i < n; i++) {
        cq_vec2_t a = {.x = e[i].x1, .y = e[i].y1}, b = {.x = e[i].x2, .y = e[i].y2};
        cq_sweep_add_edge(s, &a, &b, (size_t)e[i].member);
    }
}
static void out(cq_sweep_t *s, int mode, k_out *o) {
    memset(o, 0, sizeof *o); o->ok = 1;
    if (mode <= K_REDUCE) {
        cq_v_line2_t v; CP_ZERO(&v);
        cq_sweep_get_v_line2(&v, s);
        o->nline = (int)v.size; o->line = malloc(sizeof(k_line) * (v.size + 1));
        for (size_t i = 0; i < v.size; i++) {
            cq_line2_t *l = &v.data[i];
            o->line[i] = (k_line){ l->a.x, l->a.y, l->b.x, l->b.y };
        }
        cp_v_fini(&v);
        return;
    }
    cq_csg2_poly_t p; memset(&p, 0, sizeof p);
    cp_err_t err; memset(&err, 0, sizeof err);
    o->ok = mode == K_POLY ? cq_sweep_poly(&err, s, &p) : cq_sweep_trianglify(&err, s, &p);
    o->npt = (int)p.point.size; o->pt = malloc(sizeof(k_pt) * (p.point.size + 1));
    for (size_t i = 0; i < p.point.size; i++) o->pt[i] = (k_pt){ p.point.data[i].coord.x, p.point.data[i].coord.y };
    o->npath = (int)p.path.size;
    size_t t = 0; for (size_t i = 0; i < p.path.size; i++) t += p.path.data[i].point_idx.size;
    o->plen = malloc(sizeof(int) * (p.path.size + 1)); o->pidx = malloc(sizeof(int) * (t + 1)); t = 0;
    for (size_t i = 0; i < p.path.size; i++) {
        o->plen[i] = (int)p.path.data[i].point_idx.size;
        for (int k = 0; k < o->plen[i]; k++) o->pidx[t++] = (int)p.path.data[i].point_idx.data[k];
    }
    o->ntri = (int)p.tri.size; o->tri = malloc(sizeof(k_tri) * (p.tri.size + 1));
    for (size_t i = 0; i < p.tri.size; i++) {
        cp_csg2_tri_t *q = &p.tri.data[i];
        o->tri[i] = (k_tri){ { (int)q->p[0], (int)q->p[1], (int)q->p[2] }, (int)q->flags };
    }
    cq_csg2_poly_fini(&p);
    cp_vchar_fini(&err.msg);
}
void k_free(k_out *o) { free(o->line); free(o->pt); free(o->plen); free(o->pidx); free(o->tri); memset(o, 0, sizeof *o); }
void k_run(int mode, k_edge const *e, int n, const unsigned char *bm, int nbits, k_out *o) {
    cp_pool_t *p = get_pool();
    cq_sweep_t *s = cq_sweep_new(p, NULL, 0);
    add(s, e, n);
    cq_sweep_intersect(s);
    if (mode != K_INTERSECT) { cp_bool_bitmap_t b = mk(bm, nbits); cq_sweep_reduce(s, &b, (size_t)1 << nbits); }
    int empty = cq_sweep_empty(s);
    out(s, mode, o);
    o->empty = empty;
    cq_sweep_delete(s);
    cp_pool_clear(p);
}
/* second stage: result of a sweep is member bit `m0` of another one with edges e2 */
void k_run2(int mode, k_edge const *e, int n, const unsigned char *bm, int nbits,
            int m0, k_edge const *e2, int n2, const unsigned char *bm2, int nbits2, k_out *o) {
    cp_pool_t *p = get_pool();
    cq_sweep_t *s = cq_sweep_new(p, NULL, 0);
    add(s, e, n);
    cq_sweep_intersect(s);
    cp_bool_bitmap_t b = mk(bm, nbits); cq_sweep_reduce(s, &b, (size_t)1 << nbits);
    cq_sweep_t *s2 = cq_sweep_new(p, NULL, 0);
    cq_sweep_add_sweep(s2, s, (size_t)m0);
    cq_sweep_delete(s);
    add(s2, e2, n2);
    cq_sweep_intersect(s2);
    cp_bool_bitmap_t b2 = mk(bm2, nbits2); cq_sweep_reduce(s2, &b2, (size_t)1 << nbits2);
    int empty = cq_sweep_empty(s2);
    out(s2, mode, o);
    o->empty = empty;
    cq_sweep_delete(s2);
    cp_pool_clear(p);
}
/* polygons given as point/path arrays in user coordinates */
void k_run_poly(int mode, int npoly, k_polyin const *pi, const unsigned char *bm, int nbits, k_out *o) {
    cp_pool_t *p = get_pool();
    cq_sweep_t *s = cq_sweep_new(p, NULL, 0);
    cq_csg2_poly_t *qs = calloc((size_t)npoly, sizeof *qs);
    for (int i = 0; i < npoly; i++) {
        cq_csg2_poly_t *q = &qs[i];
        for (int k = 0; k < pi[i].npt; k++)
            cp_v_push(&q->point, ((cp_vec2_loc_t){ .coord = {{ pi[i].pt[k].x, pi[i].pt[k].y }} }));
        int t = 0;
        for (int k = 0; k < pi[i].npath; k++) {
            cp_csg2_path_t *pa = cp_v_push0(&q->path);
            for (int j = 0; j < pi[i].plen[k]; j++) cp_v_push(&pa->point_idx, (size_t)pi[i].pidx[t++]);
        }
        cq_sweep_add_poly(s, q, (size_t)1 << i);
    }
    cq_sweep_intersect(s);
    cp_bool_bitmap_t b = mk(bm, nbits); cq_sweep_reduce(s, &b, (size_t)1 << nbits);
    int empty = cq_sweep_empty(s);
    out(s, mode, o);
    o->empty = empty;
    cq_sweep_delete(s);
    for (int i = 0; i < npoly; i++) cq_csg2_poly_fini(&qs[i]);
    free(qs);
    cp_pool_clear(p);
}

static void vl(cq_v_line2_t *v, k_line const *l, int n) {
    CP_ZERO(v);
    for (int i = 0; i < n; i++)
        cp_v_push(v, ((cq_line2_t){ .a = { .x = l[i].x1, .y = l[i].y1 }, .b = { .x = l[i].x2, .y = l[i].y2 } }));
}
int k_has(k_line const *l, int n, int *ia, int *ib, long long pt[6]) {
    cq_v_line2_t v; vl(&v, l, n);
    cq_vec2if_t ip; CP_ZERO(&ip);
    cq_line2_t const *a = NULL, *b = NULL;
    int r = cq_has_intersect(&ip, &a, &b, &v);
    *ia = a ? (int)(a - v.data) : -1; *ib = b ? (int)(b - v.data) : -1;
    pt[0] = ip.x.i; pt[1] = ip.x.n; pt[2] = ip.x.d; pt[3] = ip.y.i; pt[4] = ip.y.n; pt[5] = ip.y.d;
    cp_v_fini(&v);
    return r;
}
void k_copy(k_line const *l, int n, k_out *o) {
    cp_pool_t *p = get_pool();
    cq_v_line2_t v; vl(&v, l, n);
    memset(o, 0, sizeof *o); o->ok = 1;
    cq_v_line2_t *r = cq_sweep_copy(p, &v);
    o->nline = (int)r->size; o->line = malloc(sizeof(k_line) * (r->size + 1));
    for (size_t i = 0; i < r->size; i++) o->line[i] = (k_line){ r->data[i].a.x, r->data[i].a.y, r->data[i].b.x, r->data[i].b.y };
    cp_v_fini(r); CP_DELETE(r);
    cp_v_fini(&v);
    cp_pool_clear(p);
}
void k_bb(k_edge const *e, int n, int bb[4]) {
    cp_pool_t *p = get_pool();
    cq_sweep_t *s = cq_sweep_new(p, NULL, 0);
    add(s, e, n);
    cq_vec2_minmax_t m = CQ_VEC2_MINMAX_INIT;
    cq_sweep_minmax(&m, s);
    bb[0] = m.min.x; bb[1] = m.min.y; bb[2] = m.max.x; bb[3] = m.max.y;
    cq_sweep_delete(s);
    cp_pool_clear(p);
}
