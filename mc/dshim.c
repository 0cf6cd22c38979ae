#include <hob3lbase/dict.h>
#include <hob3lbase/base-mat.h>
#include "dshim.h"
#define B 1000003UL
#define D(n) ((dn*)(n))
static void up(cp_dict_t *x) {
    if (!x) return;
    dn *a = D(x), *l = D(x->edge[0]), *r = D(x->edge[1]);
    unsigned long h = l ? l->h : 0, p = l ? l->pw : 1;
    h = h * B + (unsigned long)a->id + 1; p *= B;
    if (r) { h = h * r->pw + r->h; p *= r->pw; }
    a->h = h; a->pw = p; a->cnt = 1 + (l ? l->cnt : 0) + (r ? r->cnt : 0);
}
static void self(dn *a) { a->cnt = 1; a->h = (unsigned long)a->id + 1; a->pw = B; }
static void ev(cp_dict_aug_t *g, cp_dict_t *a, cp_dict_t *b, cp_dict_aug_type_t t) {
    (void)g;
    switch (t) {
    case CP_DICT_AUG_LEFT: case CP_DICT_AUG_RIGHT: up(b); up(a); break;
    case CP_DICT_AUG_NOP: case CP_DICT_AUG_ADD: case CP_DICT_AUG_JOIN: up(a); break;
    case CP_DICT_AUG_NOP2: up(a); up(a->parent); break;
    case CP_DICT_AUG_FINI: for (; a; a = a->parent) up(a); break;
    case CP_DICT_AUG_CUT_SWAP: break;
    case CP_DICT_AUG_CUT_LEAF: up(a); break;
    case CP_DICT_AUG_SPLIT: self(D(a)); break;
    }
}
static cp_dict_aug_t G[1] = {{ .event = ev }};
static cp_dict_aug_t *g(int aug) { return aug ? G : NULL; }
static int ckey(int *k, cp_dict_t *b, void *u) { (void)u; int y = D(b)->key; return *k < y ? -1 : *k > y; }
static int cnode(cp_dict_t *a, cp_dict_t *b, void *u) { return ckey(&D(a)->key, b, u); }
void d_init(dn *n, int key, int id) { cp_dict_init(&n->d); n->key = key; n->id = id; self(n); }
#define R(r) cp_dict_t *rr_ = (cp_dict_t*)*(r)
dn *d_insert(dn *n, dn **root, int dup, int aug) { self(n); return D(aug ? cp_dict_insert_aug(&n->d, (cp_dict_t**)root, cnode, NULL, dup, G) : cp_dict_insert(&n->d, (cp_dict_t**)root, cnode, NULL, dup)); }
dn *d_insert_by(dn *n, int key, dn **root, int dup, int aug) { self(n); return D(aug ? cp_dict_insert_by_aug(&n->d, &key, (cp_dict_t**)root, ckey, NULL, dup, G) : cp_dict_insert_by(&n->d, &key, (cp_dict_t**)root, ckey, NULL, dup)); }
dn *d_insert_update(dn *n, dn **root, dn **mn, dn **mx, int dup, int aug) { self(n);
    return D(aug ? cp_dict_insert_update_aug(&n->d, (cp_dict_t**)root, (cp_dict_t**)mn, (cp_dict_t**)mx, cnode, NULL, dup, G) : cp_dict_insert_update(&n->d, (cp_dict_t**)root, (cp_dict_t**)mn, (cp_dict_t**)mx, cnode, NULL, dup)); }
void d_insert_at(dn *n, dn *pos, unsigned dir, dn **root, dn **mn, dn **mx, int aug) { self(n);
    if (mn || mx) cp_dict_insert_update_at_aug(&n->d, &pos->d, dir, (cp_dict_t**)root, (cp_dict_t**)mn, (cp_dict_t**)mx, g(aug));
    else if (aug) cp_dict_insert_at_aug(&n->d, &pos->d, dir, (cp_dict_t**)root, G);
    else cp_dict_insert_at(&n->d, &pos->d, dir, (cp_dict_t**)root); }
void d_insert_ref(dn *n, dn *parent, unsigned child, dn **root, int aug) { self(n); cp_dict_ref_t ref = { .parent = &parent->d, .child = child };
    if (!parent) ref.parent = NULL;
    if (aug) cp_dict_insert_ref_aug(&n->d, &ref, (cp_dict_t**)root, G); else cp_dict_insert_ref(&n->d, &ref, (cp_dict_t**)root); }
dn *d_find(int key, dn *root, int dup) { return D(cp_dict_find(&key, (cp_dict_t*)root, ckey, NULL, dup)); }
dn *d_find_ref(dn **parent, unsigned *child, unsigned *path, int key, dn *root, int dup) {
    cp_dict_ref_t ref; dn *r = D(cp_dict_find_ref(&ref, &key, (cp_dict_t*)root, ckey, NULL, dup)); *parent = D(ref.parent); *child = ref.child; *path = ref.path; return r; }
void d_remove(dn *n, dn **root, int aug) { if (aug) cp_dict_remove_aug(&n->d, (cp_dict_t**)root, G); else cp_dict_remove(&n->d, (cp_dict_t**)root); }
dn *d_extract(dn **root, unsigned dir, int aug) {
    cp_dict_t **r = (cp_dict_t**)root;
    if (dir) return D(aug ? cp_dict_extract_max_aug(r, G) : cp_dict_extract_max(r));
    return D(aug ? cp_dict_extract_min_aug(r, G) : cp_dict_extract_min(r)); }
dn *d_extract_update(dn **root, dn **ext, unsigned dir, int aug) {
    cp_dict_t **r = (cp_dict_t**)root, **e = (cp_dict_t**)ext;
    if (dir) return D(aug ? cp_dict_extract_update_max_aug(r, e, G) : cp_dict_extract_update_max(r, e));
    return D(aug ? cp_dict_extract_update_min_aug(r, e, G) : cp_dict_extract_update_min(r, e)); }
void d_swap(dn *a, dn *b) { cp_dict_swap(&a->d, &b->d); }
void d_swap1(dn **r, dn *a, dn *b) { cp_dict_swap_update_root((cp_dict_t**)r, &a->d, &b->d); }
void d_swap2(dn **r1, dn **r2, dn *a, dn *b) { cp_dict_swap_update_root2((cp_dict_t**)r1, (cp_dict_t**)r2, &a->d, &b->d); }
dn *d_join2(dn *l, dn *r, int aug) { return D(aug ? cp_dict_join2_aug((cp_dict_t*)l, (cp_dict_t*)r, G) : cp_dict_join2((cp_dict_t*)l, (cp_dict_t*)r)); }
dn *d_join3(dn *l, dn *m, dn *r, int aug) { self(m); return D(aug ? cp_dict_join3_aug((cp_dict_t*)l, &m->d, (cp_dict_t*)r, G) : cp_dict_join3((cp_dict_t*)l, &m->d, (cp_dict_t*)r)); }
void d_split(dn **l, dn **r, dn *root, int key, int back, int aug) {
    if (aug) cp_dict_split_aug((cp_dict_t**)l, (cp_dict_t**)r, (cp_dict_t*)root, &key, ckey, NULL, back, G);
    else cp_dict_split((cp_dict_t**)l, (cp_dict_t**)r, (cp_dict_t*)root, &key, ckey, NULL, back); }
dn *d_start(dn *root, unsigned dir) { return D(dir ? cp_dict_max((cp_dict_t*)root) : cp_dict_min((cp_dict_t*)root)); }
dn *d_step(dn *n, unsigned dir) { return D(dir ? cp_dict_prev0((cp_dict_t*)n) : cp_dict_next0((cp_dict_t*)n)); }
dn *d_root(dn *n) { return D(cp_dict_root(&n->d)); }
int d_red(dn *n) { return n ? (int)cp_dict_is_red(&n->d) : 0; }
size_t d_bh(dn *n) { return cp_dict_black_height((cp_dict_t*)n); }
int d_single(dn *n) { return cp_dict_is_singleton(&n->d) && !cp_dict_is_member(&n->d) && cp_dict_is_root(&n->d); }
int d_contains(dn *root, dn *n) { return cp_dict_contains((cp_dict_t*)root, &n->d); }
size_t d_each(dn *root, dn **out, size_t max, int rev) {
    size_t k = 0;
    if (rev) { for (cp_dict_each_rev(e, (cp_dict_t*)root)) { if (k >= max) return max + 1; out[k++] = D(e); } }
    else { for (cp_dict_each(e, (cp_dict_t*)root)) { if (k >= max) return max + 1; out[k++] = D(e); } }
    return k; }
size_t d_each_robust_remove(dn **root, dn **out, size_t max) {
    size_t k = 0;
    for (cp_dict_each_robust(e, (cp_dict_t*)*root)) { if (k >= max) return max + 1; out[k++] = D(e); cp_dict_remove(e, (cp_dict_t**)root); }
    return k; }
