#pragma once
#ifdef __cplusplus
extern "C" {
#endif
enum { K_INTERSECT, K_REDUCE, K_POLY, K_TRI };
typedef struct { int x1, y1, x2, y2, member; } k_edge;
typedef struct { int x1, y1, x2, y2; } k_line;
typedef struct { double x, y; } k_pt;
typedef struct { int p[3]; int flags; } k_tri;
typedef struct { int ok, empty, nline; k_line *line; int npt; k_pt *pt; int npath; int *plen, *pidx; int ntri; k_tri *tri; } k_out;
typedef struct { int npt; k_pt const *pt; int npath; int const *plen, *pidx; } k_polyin;
void k_set_scale(double s);
double k_get_scale(void);
void k_run(int mode, k_edge const *e, int n, const unsigned char *bm, int nbits, k_out *o);
void k_run2(int mode, k_edge const *e, int n, const unsigned char *bm, int nbits,
            int m0, k_edge const *e2, int n2, const unsigned char *bm2, int nbits2, k_out *o);
void k_run_poly(int mode, int npoly, k_polyin const *pi, const unsigned char *bm, int nbits, k_out *o);
/* cq_has_intersect on a list of segments: result, indices of the segments, the point as i + n/d per coordinate */
int k_has(k_line const *l, int n, int *ia, int *ib, long long pt[6]);
/* cq_sweep_copy of a list of segments */
void k_copy(k_line const *l, int n, k_out *o);
/* cq_sweep_minmax of the edges added: bb[4] = x0 y0 x1 y1 */
void k_bb(k_edge const *e, int n, int bb[4]);
void k_free(k_out *o);
#ifdef __cplusplus
}
#endif
