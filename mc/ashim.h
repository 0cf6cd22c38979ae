#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int i; unsigned long long n, d; } a_frac;
void a_divmod(int x, int d, int *q, int *r);
void a_divmodw(long long x, long long d, long long *q, long long *r);
long long a_divw_rnd(long long x, long long d);
void a_mul(unsigned long long a, unsigned long long b, unsigned long long *h, unsigned long long *l, int aux);
int a_cmp(a_frac const *a, a_frac const *b);
int a_cmp_aux(a_frac const *a, a_frac const *b);
int a_cmp_int(int a, a_frac const *b);
int a_round(a_frac const *a);
int a_edge(int vx, int vy, int lx, int ly, int kx, int ky);
int a_intersect(int const *p, a_frac *x, a_frac *y);
int a_import(double v);
double a_export(int v);
void a_scale(double s);
long long a_cross(int const *p);
int a_checked(int op, long long a, long long b, long long *r);
int a_import_checked(double v, int *r);
#ifdef __cplusplus
}
#endif
