#include <hob3lbase/base-def.h>
#include <hob3lbase/panic.h>
#include <hob3lbase/arith.h>
#include <hob3lmat/mat.h>
#include "mshim.h"
#define ALLK(X) X(2) X(2w) X(2i) X(2wi) X(3) X(3w) X(3i) X(3wi) X(4) X(4i)
#define G3(X) X(3) X(3w) X(3i) X(3wi) X(4) X(4i)
#define G2(X) X(2) X(2w) X(2i) X(2wi)
const mk_t mk_info[MK_N] = {{2,2,0,"mat2"},{2,3,0,"mat2w"},{2,2,1,"mat2i"},{2,3,1,"mat2wi"},{3,3,0,"mat3"},{3,4,0,"mat3w"},{3,3,1,"mat3i"},{3,4,1,"mat3wi"},{3,4,0,"mat4"},{3,4,1,"mat4i"}};
typedef union {
#define X(k) cp_mat##k##_t m##k;
    ALLK(X)
#undef X
} any;
static void g2(cp_mat2_t *m, const double *x) { for (int y = 0; y < 2; y++) for (int c = 0; c < 2; c++) m->m[y][c] = x[y*2+c]; }
static void g3(cp_mat3_t *m, const double *x) { for (int y = 0; y < 3; y++) for (int c = 0; c < 3; c++) m->m[y][c] = x[y*3+c]; }
static void g4(cp_mat4_t *m, const double *x) { for (int y = 0; y < 4; y++) for (int c = 0; c < 4; c++) m->m[y][c] = x[y*4+c]; }
static void g2w(cp_mat2w_t *m, const double *x) { for (int y = 0; y < 2; y++) { for (int c = 0; c < 2; c++) m->b.m[y][c] = x[y*3+c]; m->w.v[y] = x[y*3+2]; } }
static void g3w(cp_mat3w_t *m, const double *x) { for (int y = 0; y < 3; y++) { for (int c = 0; c < 3; c++) m->b.m[y][c] = x[y*4+c]; m->w.v[y] = x[y*4+3]; } }
static void p2(double *x, cp_mat2_t const *m) { for (int y = 0; y < 2; y++) for (int c = 0; c < 2; c++) x[y*2+c] = m->m[y][c]; }
static void p3(double *x, cp_mat3_t const *m) { for (int y = 0; y < 3; y++) for (int c = 0; c < 3; c++) x[y*3+c] = m->m[y][c]; }
static void p4(double *x, cp_mat4_t const *m) { for (int y = 0; y < 4; y++) for (int c = 0; c < 4; c++) x[y*4+c] = m->m[y][c]; }
static void p2w(double *x, cp_mat2w_t const *m) { for (int y = 0; y < 2; y++) { for (int c = 0; c < 2; c++) x[y*3+c] = m->b.m[y][c]; x[y*3+2] = m->w.v[y]; } x[6] = x[7] = 0; x[8] = 1; }
static void p3w(double *x, cp_mat3w_t const *m) { for (int y = 0; y < 3; y++) { for (int c = 0; c < 3; c++) x[y*4+c] = m->b.m[y][c]; x[y*4+3] = m->w.v[y]; } x[12] = x[13] = x[14] = 0; x[15] = 1; }
static void in(int k, any *o, const mm *a) {
    switch (k) {
    case MK_2: g2(&o->m2, a->n); break; case MK_2w: g2w(&o->m2w, a->n); break;
    case MK_3: g3(&o->m3, a->n); break; case MK_3w: g3w(&o->m3w, a->n); break; case MK_4: g4(&o->m4, a->n); break;
    case MK_2i: g2(&o->m2i.n, a->n); g2(&o->m2i.i, a->i); o->m2i.d = a->d; break;
    case MK_2wi: g2w(&o->m2wi.n, a->n); g2w(&o->m2wi.i, a->i); o->m2wi.d = a->d; break;
    case MK_3i: g3(&o->m3i.n, a->n); g3(&o->m3i.i, a->i); o->m3i.d = a->d; break;
    case MK_3wi: g3w(&o->m3wi.n, a->n); g3w(&o->m3wi.i, a->i); o->m3wi.d = a->d; break;
    case MK_4i: g4(&o->m4i.n, a->n); g4(&o->m4i.i, a->i); o->m4i.d = a->d; break; }
}
static void out(int k, mm *r, const any *o) {
    memset(r, 0, sizeof *r);
    switch (k) {
    case MK_2: p2(r->n, &o->m2); break; case MK_2w: p2w(r->n, &o->m2w); break;
    case MK_3: p3(r->n, &o->m3); break; case MK_3w: p3w(r->n, &o->m3w); break; case MK_4: p4(r->n, &o->m4); break;
    case MK_2i: p2(r->n, &o->m2i.n); p2(r->i, &o->m2i.i); r->d = o->m2i.d; break;
    case MK_2wi: p2w(r->n, &o->m2wi.n); p2w(r->i, &o->m2wi.i); r->d = o->m2wi.d; break;
    case MK_3i: p3(r->n, &o->m3i.n); p3(r->i, &o->m3i.i); r->d = o->m3i.d; break;
    case MK_3wi: p3w(r->n, &o->m3wi.n); p3w(r->i, &o->m3wi.i); r->d = o->m3wi.d; break;
    case MK_4i: p4(r->n, &o->m4i.n); p4(r->i, &o->m4i.i); r->d = o->m4i.d; break; }
}
int m_op(int k, int op, int alias, const double *x, const mm *a, const mm *b, mm *r, double *ret) {
    any A, B, R, *pr = &R, *pa = &A, *pb = &B; memset(&A, 0x7f, sizeof A); memset(&B, 0x7f, sizeof B); memset(&R, 0x47, sizeof R);
    if (a) in(k, &A, a); if (b) in(k, &B, b);
    if (alias == 3 || alias == 4) pb = &A;
    if (alias == 1 || alias == 4) pr = &A;
    if (alias == 2) pr = pb;
    int has = 1; *ret = 0;
    cp_vec2_t v2 = {{0}}; cp_vec3_t v3 = {{0}}; cp_vec2_t sc = {{0}};
    if (x) { v2 = (cp_vec2_t){ .v = { x[0], x[1] } }; v3 = (cp_vec3_t){ .v = { x[0], x[1], x[2] } }; sc = (cp_vec2_t){ .v = { x[3], x[4] } }; }
    #define D(body) has = 0; switch (k) { body } break;
    switch (op) {
#define X(k) case MK_##k: has = 1; cp_mat##k##_mul(&pr->m##k, &pa->m##k, &pb->m##k); break;
    case MO_MUL: D(ALLK(X))
#undef X
#define X(k) case MK_##k: has = 1; cp_mat##k##_trans(&pr->m##k, &pa->m##k); *ret = -1; break;
#define Y(k) case MK_##k: has = 1; *ret = cp_mat##k##_trans(&pr->m##k, &pa->m##k); break;
    case MO_TRANS: D(X(2) X(2i) X(3) X(3i) X(4) X(4i) Y(2w) Y(2wi) Y(3w) Y(3wi))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_unit(&pr->m##k); break;
    case MO_UNIT: D(ALLK(X))
#undef X
#define X(k) case MK_##k: has = 1; cp_mat##k##_scale(&pr->m##k, x[0], x[1]); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_scale(&pr->m##k, x[0], x[1], x[2]); break;
    case MO_SCALE: D(G2(X) G3(Y))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_scale1(&pr->m##k, x[0]); break;
    case MO_SCALE1: D(ALLK(X))
#undef X
#define X(k) case MK_##k: has = 1; cp_mat##k##_scale_v(&pr->m##k, &v2); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_scale_v(&pr->m##k, &v3); break;
    case MO_SCALE_V: D(G2(X) G3(Y))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_xlat(&pr->m##k, x[0], x[1]); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_xlat(&pr->m##k, x[0], x[1], x[2]); break;
    case MO_XLAT: D(X(2w) X(2wi) X(3) X(3i) Y(3w) Y(3wi) Y(4) Y(4i))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_xlat_v(&pr->m##k, &v2); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_xlat_v(&pr->m##k, &v3); break;
    case MO_XLAT_V: D(X(2w) X(2wi) X(3) X(3i) Y(3w) Y(3wi) Y(4) Y(4i))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; *ret = cp_mat##k##_inv(&pr->m##k, &pa->m##k); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_inv(&pr->m##k, &pa->m##k); break;
    case MO_INV: D(X(2) X(2w) X(3) X(3w) X(4) Y(2i) Y(2wi) Y(3i) Y(3wi) Y(4i))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; *ret = cp_mat##k##_det(&pa->m##k); break;
    case MO_DET: D(ALLK(X))
#undef X
#define Y(k) case MK_##k: has = 1; cp_mat##k##_rot_unit(&pr->m##k, &v3, &sc); break;
    case MO_ROT_UNIT: D(G3(Y))
#undef Y
#define Y(k) case MK_##k: has = 1; cp_mat##k##_rot_v(&pr->m##k, &v3, &sc); break;
    case MO_ROT_V: D(G3(Y))
#undef Y
#define Y(k) case MK_##k: has = 1; cp_mat##k##_rot_unit_into_z(&pr->m##k, &v3); break;
    case MO_ROT_UNIT_Z: D(G3(Y))
#undef Y
#define Y(k) case MK_##k: has = 1; *ret = cp_mat##k##_rot_into_z(&pr->m##k, &v3); break;
    case MO_ROT_Z_V: D(G3(Y))
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_rot_ij(&pr->m##k, (size_t)x[5], (size_t)x[6], &sc); break;
    case MO_ROT_IJ: D(ALLK(X))
#undef X
#define Y(k) case MK_##k: has = 1; cp_mat##k##_rot_x(&pr->m##k, &sc); break;
    case MO_ROT_X: D(G3(Y))
#undef Y
#define Y(k) case MK_##k: has = 1; cp_mat##k##_rot_y(&pr->m##k, &sc); break;
    case MO_ROT_Y: D(G3(Y))
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_rot(&pr->m##k, &sc); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_rot_z(&pr->m##k, &sc); break;
    case MO_ROT_Z: D(G2(X) G3(Y))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_mirror_unit(&pr->m##k, &v2); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_mirror_unit(&pr->m##k, &v3); break;
    case MO_MIRROR_UNIT: D(G2(X) G3(Y))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; cp_mat##k##_mirror_v(&pr->m##k, &v2); break;
#define Y(k) case MK_##k: has = 1; cp_mat##k##_mirror_v(&pr->m##k, &v3); break;
    case MO_MIRROR_V: D(G2(X) G3(Y))
#undef X
#undef Y
#define X(k) case MK_##k: has = 1; *ret = cp_mat##k##_lex_cmp(&pa->m##k, &pb->m##k); break;
    case MO_CMP: D(ALLK(X))
#undef X
#define X(k) case MK_##k: has = 1; *ret = cp_mat##k##_eq(&pa->m##k, &pb->m##k); break;
    case MO_EQ: D(ALLK(X))
#undef X
    default: has = 0; }
    out(k, r, pr); return has;
}
int m_xform(int k, int alias, const mm *a, const double *v, double *r) {
    any A; in(k, &A, a);
    cp_vec2_t a2 = {.v={v[0],v[1]}}, r2, *q2 = alias ? &a2 : &r2; cp_vec3_t a3 = {.v={v[0],v[1],v[2]}}, r3, *q3 = alias ? &a3 : &r3; cp_vec4_t a4 = {.v={v[0],v[1],v[2],v[3]}}, r4, *q4 = alias ? &a4 : &r4;
    switch (k) {
    case MK_2: cp_vec2_xform(q2, &A.m2, &a2); r[0] = q2->x; r[1] = q2->y; return 2;
    case MK_2w: cp_vec2w_xform(q2, &A.m2w, &a2); r[0] = q2->x; r[1] = q2->y; return 2;
    case MK_3: cp_vec3_xform(q3, &A.m3, &a3); r[0] = q3->x; r[1] = q3->y; r[2] = q3->z; return 3;
    case MK_3w: cp_vec3w_xform(q3, &A.m3w, &a3); r[0] = q3->x; r[1] = q3->y; r[2] = q3->z; return 3;
    case MK_4: cp_vec4_xform(q4, &A.m4, &a4); r[0] = q4->v[0]; r[1] = q4->v[1]; r[2] = q4->v[2]; r[3] = q4->v[3]; return 4; }
    return 0;
}
int m_from(int dst, int src, const mm *a, mm *r, int *ret) {
    any A, R; memset(&A, 0x7f, sizeof A); memset(&R, 0x47, sizeof R); in(src, &A, a); int has = 0; *ret = -1;
#define B(d, s) if (dst == MK_##d && src == MK_##s) { has = 1; *ret = cp_mat##d##_from_mat##s(&R.m##d, &A.m##s); }
#define V(d, s) if (dst == MK_##d && src == MK_##s) { has = 1; cp_mat##d##_from_mat##s(&R.m##d, &A.m##s); }
    B(3w,4) B(2w,3) B(2w,3w) V(4,3w) V(3,2w) V(3w,2w) B(3wi,4i) B(2wi,3i) B(2wi,3wi) V(4i,3wi) V(3i,2wi) V(3wi,2wi) B(2i,2) B(3i,3) B(4i,4) B(2wi,2w) B(3wi,3w)
    if (has) out(dst, r, &R);
    return has;
}
int m_isrot(const double *m) { cp_mat3_t q; g3(&q, m); return cp_mat3_is_rect_rot(&q); }
#define VOPS(N) static int vop##N(int op, int alias, const double *a_, const double *b_, double c, double *r_, int *ret) { \
    cp_vec##N##_t A, B, R, *r = alias == 1 || alias == 4 ? &A : alias == 2 ? &B : &R, *b = alias >= 3 ? &A : &B; for (int i = 0; i < N; i++) { A.v[i] = a_[i]; B.v[i] = b_[i]; R.v[i] = 77; } int has = 1; *ret = -1; \
    switch (op) { \
    case VO_ADD: cp_vec##N##_add(r, &A, b); break; case VO_SUB: cp_vec##N##_sub(r, &A, b); break; case VO_NEG: cp_vec##N##_neg(r, &A); break; \
    case VO_MUL: cp_vec##N##_mul(r, &A, c); break; case VO_MULC: cp_vec##N##_mulc(r, &A, b); break; case VO_DIV: cp_vec##N##_div(r, &A, c); break; case VO_DIVC: cp_vec##N##_divc(r, &A, b); break; \
    case VO_MIN: cp_vec##N##_min(r, &A, b); break; case VO_MAX: cp_vec##N##_max(r, &A, b); break; case VO_REV: cp_vec##N##_rev(r, &A); break; case VO_LERP: cp_vec##N##_lerp(r, &A, b, c); break; \
    case VO_UNIT: *ret = cp_vec##N##_unit(r, &A); break; case VO_DIR: cp_vec##N##_dir(r, &A, b); break; default: has = 0; } \
    for (int i = 0; i < N; i++) r_[i] = r->v[i]; return has; } \
static int vsc##N(int op, const double *a_, const double *b_, double *r) { cp_vec##N##_t A, B; for (int i = 0; i < N; i++) { A.v[i] = a_[i]; B.v[i] = b_[i]; } \
    switch (op) { case VS_DOT: *r = cp_vec##N##_dot(&A, &B); return 1; case VS_SQRLEN: *r = cp_vec##N##_sqr_len(&A); return 1; case VS_LEN: *r = cp_vec##N##_len(&A); return 1; \
    case VS_SQRDIST: *r = cp_vec##N##_sqr_dist(&A, &B); return 1; case VS_DIST: *r = cp_vec##N##_dist(&A, &B); return 1; case VS_CMP: *r = cp_vec##N##_lex_cmp(&A, &B); return 1; case VS_EQ: *r = cp_vec##N##_eq(&A, &B); return 1; \
    case VS_LEN0: *r = cp_vec##N##_has_len0(&A); return 1; case VS_LEN1: *r = cp_vec##N##_has_len1(&A); return 1; case VS_LEN01: *r = cp_vec##N##_has_len0_or_1(&A); return 1; case VS_MAXABS: *r = cp_vec##N##_max_abs_coord(&A); return 1; } return 0; } \
static int vmm##N(int op, const double *a, const double *b, double *r) { cp_vec##N##_minmax_t A, B, R; cp_vec##N##_t P; for (int i = 0; i < N; i++) { A.min.v[i] = a[i]; A.max.v[i] = a[N+i]; B.min.v[i] = b[i]; B.max.v[i] = b[N+i]; P.v[i] = b[i]; R.min.v[i] = R.max.v[i] = 77; } int ret = 1; \
    if (op == 0) { cp_vec##N##_minmax(&A, &P); R = A; } else if (op == 1) cp_vec##N##_minmax_or(&R, &A, &B); else if (op == 2) cp_vec##N##_minmax_and(&R, &A, &B); else ret = cp_vec##N##_minmax_valid(&A); \
    for (int i = 0; i < N; i++) { r[i] = R.min.v[i]; r[N+i] = R.max.v[i]; } return ret; }
VOPS(2) VOPS(3) VOPS(4)
int v_op(int dim, int op, int alias, const double *a, const double *b, const double *o, double c, double *r, int *ret) {
    if (op < VO_CROSS) return dim == 2 ? vop2(op, alias, a, b, c, r, ret) : dim == 3 ? vop3(op, alias, a, b, c, r, ret) : vop4(op, alias, a, b, c, r, ret);
    if (dim != 3) return 0;
    cp_vec3_t A = {.v={a[0],a[1],a[2]}}, B = {.v={b[0],b[1],b[2]}}, O = {.v={o[0],o[1],o[2]}}, Q, *p = alias == 1 ? &A : alias == 2 ? &B : &Q; *ret = -1;
    switch (op) { case VO_CROSS: cp_vec3_cross(p, &A, &B); break; case VO_RCROSS3: cp_vec3_right_cross3(p, &A, &O, &B); break; case VO_LCROSS3: cp_vec3_left_cross3(p, &A, &O, &B); break;
    case VO_NORMAL: if (alias) return 0; *ret = cp_vec3_normal(p, &A, &B); break; case VO_RNORMAL3: *ret = cp_vec3_right_normal3(p, &A, &O, &B); break; case VO_LNORMAL3: *ret = cp_vec3_left_normal3(p, &A, &O, &B); break; default: return 0; }
    for (int i = 0; i < 3; i++) r[i] = p->v[i]; return 1;
}
int v_scal(int dim, int op, const double *a, const double *b, const double *o, double *r) {
    if (op < VS_CROSSZ) return dim == 2 ? vsc2(op, a, b, r) : dim == 3 ? vsc3(op, a, b, r) : vsc4(op, a, b, r);
    cp_vec2_t A = {.v={a[0],a[1]}}, B = {.v={b[0],b[1]}}, O = {.v={o[0],o[1]}};
    if (dim == 3 && op == VS_INLINE) { cp_vec3_t a3 = {.v={a[0],a[1],a[2]}}, b3 = {.v={b[0],b[1],b[2]}}, o3 = {.v={o[0],o[1],o[2]}}; *r = cp_vec3_in_line(&a3, &o3, &b3); return 1; }
    if (dim != 2) return 0;
    switch (op) { case VS_CROSSZ: *r = cp_vec2_cross_z(&A, &B); return 1; case VS_NORMALZ: *r = cp_vec2_normal_z(&A, &B); return 1; case VS_RC3Z: *r = cp_vec2_right_cross3_z(&A, &O, &B); return 1; case VS_LC3Z: *r = cp_vec2_left_cross3_z(&A, &O, &B); return 1;
    case VS_RN3Z: *r = cp_vec2_right_normal3_z(&A, &O, &B); return 1; case VS_LN3Z: *r = cp_vec2_left_normal3_z(&A, &O, &B); return 1; case VS_INLINE: *r = cp_vec2_in_line(&A, &O, &B); return 1; case VS_ANGLE: *r = cp_vec2_angle(&A, &B); return 1; case VS_ANGLE3: *r = cp_vec2_angle3(&A, &O, &B); return 1; }
    return 0;
}
int v_minmax(int dim, int op, const double *a, const double *b, double *r) { return dim == 2 ? vmm2(op, a, b, r) : dim == 3 ? vmm3(op, a, b, r) : vmm4(op, a, b, r); }
void v_nearest(const double *a, const double *ud, const double *p, double *r) { cp_vec2_t A = {.v={a[0],a[1]}}, U = {.v={ud[0],ud[1]}}, P = {.v={p[0],p[1]}}, R; cp_vec2_nearest(&R, &A, &U, &P); r[0] = R.x; r[1] = R.y; }
int m_into_zx(const double *o, const double *a, const double *b, double *into, double *from) {
    cp_vec3_t O, A, B; for (int i = 0; i < 3; i++) { O.v[i] = o ? o[i] : 0; A.v[i] = a[i]; B.v[i] = b ? b[i] : 0; } cp_mat3w_t I, F;
    int r = cp_mat3w_xform_into_zx_2(into ? &I : NULL, from ? &F : NULL, o ? &O : NULL, &A, b ? &B : NULL); if (into) p3w(into, &I); if (from) p3w(from, &F); return r;
}
int f_get_int(double f, long long *i) { return cp_f_get_int(i, f); }
double f_sin(double a) { return cp_sin_deg(a); } double f_cos(double a) { return cp_cos_deg(a); } double f_tan(double a) { return cp_tan_deg(a); }
double f_div0(double a, double b) { return cp_div0(a, b); } double f_t01(double a, double b, double c) { return cp_t01(a, b, c); } double f_t_pm(double a, double b, double c) { return cp_t_pm(a, b, c); }
double f_lerp(double a, double b, double c) { return cp_lerp(a, b, c); } double f_lerp_pm(double a, double b, double c) { return cp_lerp_pm(a, b, c); }
int f_cmp(int op, double a, double b) { switch (op) { case 0: return cp_eq(a,b); case 1: return cp_le(a,b); case 2: return cp_lt(a,b); case 3: return cp_ge(a,b); case 4: return cp_gt(a,b); case 5: return cp_cmp(a,b);
    case 8: return cp_sqr_eq(a,b); case 9: return cp_sqr_le(a,b); case 10: return cp_sqr_lt(a,b); case 11: return cp_sqr_ge(a,b); case 12: return cp_sqr_gt(a,b); case 13: return cp_sqr_cmp(a,b); } return 99; }
size_t f_circle(size_t n, double *c, double *s, size_t *idx) { size_t k = 0; for (cp_circle_each(i, n)) { c[k] = i.cos; s[k] = i.sin; idx[k] = i.idx; k++; } return k; }
