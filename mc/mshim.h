// The linear algebra library seen as functions on arrays of doubles.
#pragma once
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { MK_2, MK_2w, MK_2i, MK_2wi, MK_3, MK_3w, MK_3i, MK_3wi, MK_4, MK_4i, MK_N };
// n, i: homogeneous matrices of dimension dim, row by row
typedef struct { double n[16], i[16], d; } mm;
typedef struct { int geo, dim, inv; const char *name; } mk_t; // geometric dimension, matrix dimension, has an inverse
extern const mk_t mk_info[MK_N];
enum { MO_MUL, MO_TRANS, MO_UNIT, MO_SCALE, MO_SCALE1, MO_SCALE_V, MO_XLAT, MO_XLAT_V, MO_INV, MO_DET, MO_ROT_UNIT, MO_ROT_V, MO_ROT_UNIT_Z, MO_ROT_Z_V, MO_ROT_IJ, MO_ROT_X, MO_ROT_Y, MO_ROT_Z, MO_MIRROR_UNIT, MO_MIRROR_V, MO_CMP, MO_EQ, MO_N };
// Performs op on kind k.  alias: 0 none, 1 r==a, 2 r==b, 3 a==b, 4 r==a==b.  x: numbers.
// Returns 0 when the library has no such operation; *ret is its return value.
int m_op(int k, int op, int alias, const double *x, const mm *a, const mm *b, mm *r, double *ret);
int m_xform(int k, int alias, const mm *a, const double *v, double *r);
int m_from(int dst, int src, const mm *a, mm *r, int *ret); // conversion; 0 when there is none; *ret -1: returns nothing
int m_isrot(const double *m);
enum { VO_ADD, VO_SUB, VO_NEG, VO_MUL, VO_MULC, VO_DIV, VO_DIVC, VO_MIN, VO_MAX, VO_REV, VO_LERP, VO_UNIT, VO_DIR, VO_CROSS, VO_RCROSS3, VO_LCROSS3, VO_NORMAL, VO_RNORMAL3, VO_LNORMAL3, VO_N };
int v_op(int dim, int op, int alias, const double *a, const double *b, const double *o, double c, double *r, int *ret);
enum { VS_DOT, VS_SQRLEN, VS_LEN, VS_SQRDIST, VS_DIST, VS_CMP, VS_EQ, VS_LEN0, VS_LEN1, VS_LEN01, VS_MAXABS, VS_CROSSZ, VS_NORMALZ, VS_RC3Z, VS_LC3Z, VS_RN3Z, VS_LN3Z, VS_INLINE, VS_ANGLE, VS_ANGLE3, VS_N };
int v_scal(int dim, int op, const double *a, const double *b, const double *o, double *r);
// boxes: lo[dim], hi[dim]
int v_minmax(int dim, int op, const double *a, const double *b, double *r); // op 0: add point, 1: or, 2: and, 3: valid
void v_nearest(const double *a, const double *ud, const double *p, double *r);
int m_into_zx(const double *o, const double *a, const double *b, double *into, double *from);
int f_get_int(double f, long long *i);
double f_sin(double); double f_cos(double); double f_tan(double);
double f_div0(double, double), f_t01(double, double, double), f_t_pm(double, double, double), f_lerp(double, double, double), f_lerp_pm(double, double, double);
int f_cmp(int op, double a, double b); // 0..6: eq le lt ge gt cmp; +8: squared
size_t f_circle(size_t n, double *c, double *s, size_t *idx);
#ifdef __cplusplus
}
#endif
