/* Plain C interface of the exact arithmetic. */
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <hob3lop/matq.h>
#include <hob3lop/gon.h>
#include "ashim.h"
static sigjmp_buf jb;
static void onabrt(int s) { (void)s; siglongjmp(jb, 1); }
void a_divmod(int x, int d, int *q, int *r) { cq_divmod_t v = cq_divmod(x, d); *q = v.div; *r = v.mod; }
void a_divmodw(long long x, long long d, long long *q, long long *r) { cq_divmodw_t v = cq_divmodw(x, d); *q = v.div; *r = v.mod; }
long long a_divw_rnd(long long x, long long d) { return cq_divw_rnd(x, d); }
void a_mul(unsigned long long a, unsigned long long b, unsigned long long *h, unsigned long long *l, int aux) {
    cq_udimq_t q = aux ? cq_udimw_mul_aux(a, b) : cq_udimw_mul(a, b); *h = cq_udimq_max(q); *l = cq_udimq_min(q);
}
static cq_dimif_t mk(a_frac const *a) { return (cq_dimif_t){ .i = a->i, .n = a->n, .d = a->d }; }
int a_cmp(a_frac const *a, a_frac const *b) { cq_dimif_t x = mk(a), y = mk(b); return cq_dimif_cmp(&x, &y); }
int a_cmp_aux(a_frac const *a, a_frac const *b) { cq_dimif_t x = mk(a), y = mk(b); return cq_dimif_cmp_frac_aux(&x, &y); }
int a_cmp_int(int a, a_frac const *b) { cq_dimif_t y = mk(b); return cq_dim_dimif_cmp(a, &y); }
int a_round(a_frac const *a) { cq_dimif_t x = mk(a); return cq_round(&x); }
int a_edge(int vx, int vy, int lx, int ly, int kx, int ky) { return cq_cmp_edge_rnd(vx, vy, lx, ly, kx, ky); }
int a_intersect(int const *p, a_frac *x, a_frac *y) {
    cq_vec2if_t r; memset(&r, 0, sizeof r);
    cq_vec2_t v[4]; for (int i = 0; i < 4; i++) v[i] = (cq_vec2_t){ .x = p[2*i], .y = p[2*i+1] };
    int k = cq_vec2if_intersect(&r, v[0], v[1], v[2], v[3]);
    *x = (a_frac){ r.x.i, r.x.n, r.x.d }; *y = (a_frac){ r.y.i, r.y.n, r.y.d };
    return k;
}
int a_import(double v) { return cq_import_dim(v); }
double a_export(int v) { return cq_export_dim(v); }
void a_scale(double s) { cq_dim_scale = s; }
long long a_cross(int const *p) { return cq_right_cross3_z(p[0], p[1], p[2], p[3], p[4], p[5]); }
/* 0: ok and result stored, 1: the overflow was reported */
int a_checked(int op, long long a, long long b, long long *r) {
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = onabrt; sa.sa_flags = SA_NODEFER;
    static int null = -1, err; if (null < 0) { null = open("/dev/null", O_WRONLY); err = dup(2); }
    dup2(null, 2); sigaction(SIGABRT, &sa, &old);
    volatile int res = 0;
    if (sigsetjmp(jb, 1)) res = 1;
    else switch (op) {
    case 0: *r = cq_dim_add((int)a, (int)b); break;
    case 1: *r = cq_dim_sub((int)a, (int)b); break;
    case 2: *r = cq_dim_mul((int)a, (int)b); break;
    case 3: *r = cq_dimw_add(a, b); break;
    case 4: *r = cq_dimw_sub(a, b); break;
    case 5: *r = (long long)cq_udim_abs((int)a); break;
    case 6: *r = (long long)cq_udimw_abs(a); break;
    case 7: *r = (long long)cq_udimw_add((unsigned long long)a, (unsigned long long)b); break;
    case 8: *r = (long long)cq_udimw_sub((unsigned long long)a, (unsigned long long)b); break;
    case 9: *r = (long long)cq_udim_add((unsigned)a, (unsigned)b); break;
    }
    sigaction(SIGABRT, &old, 0); dup2(err, 2);
    return res;
}
int a_import_checked(double v, int *r) {
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = onabrt; sa.sa_flags = SA_NODEFER;
    static int null = -1, err; if (null < 0) { null = open("/dev/null", O_WRONLY); err = dup(2); }
    dup2(null, 2); sigaction(SIGABRT, &sa, &old);
    volatile int res = 0;
    if (sigsetjmp(jb, 1)) res = 1; else *r = cq_import_dim(v);
    sigaction(SIGABRT, &old, 0); dup2(err, 2);
    return res;
}
