#pragma once
#include <stddef.h>
#include <hob3lbase/dict_tam.h>
#ifdef __cplusplus
extern "C" {
#endif
/* node of the dictionary with order-sensitive augmentation: number and hash of the in-order sequence below */
typedef struct dn { cp_dict_t d; int key; int id; long cnt; unsigned long h, pw; } dn;
void d_init(dn *n, int key, int id);
dn *d_insert(dn *n, dn **root, int dup, int aug);
dn *d_insert_by(dn *n, int key, dn **root, int dup, int aug);
dn *d_insert_update(dn *n, dn **root, dn **mn, dn **mx, int dup, int aug);
void d_insert_at(dn *n, dn *pos, unsigned dir, dn **root, dn **mn, dn **mx, int aug);
void d_insert_ref(dn *n, dn *parent, unsigned child, dn **root, int aug);
dn *d_find(int key, dn *root, int dup);
dn *d_find_ref(dn **parent, unsigned *child, unsigned *path, int key, dn *root, int dup);
void d_remove(dn *n, dn **root, int aug);
dn *d_extract(dn **root, unsigned dir, int aug);
dn *d_extract_update(dn **root, dn **ext, unsigned dir, int aug);
void d_swap(dn *a, dn *b);
void d_swap1(dn **r, dn *a, dn *b);
void d_swap2(dn **r1, dn **r2, dn *a, dn *b);
dn *d_join2(dn *l, dn *r, int aug);
dn *d_join3(dn *l, dn *m, dn *r, int aug);
void d_split(dn **l, dn **r, dn *root, int key, int back, int aug);
dn *d_start(dn *root, unsigned dir);
dn *d_step(dn *n, unsigned dir);
dn *d_root(dn *n);
int d_red(dn *n);
size_t d_bh(dn *n);
int d_single(dn *n);
int d_contains(dn *root, dn *n);
size_t d_each(dn *root, dn **out, size_t max, int rev);
size_t d_each_robust_remove(dn **root, dn **out, size_t max);
#ifdef __cplusplus
}
#endif
