#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/pool.h>
#include <hob3l/syn.h>
#include <hob3l/scad.h>
#include <hob3l/csg.h>
#include <hob3l/csg2.h>
#include <hob3l/csg3.h>
#include <hob3l/gc.h>
#include "gshim.h"
static void walk(cp_vchar_t *o, cp_v_obj_p_t *v);
static void obj(cp_vchar_t *o, cp_obj_t *q) {
    switch (q->type) {
    case CP_CSG_ADD: walk(o, &((cp_csg_add_t *)q)->add); return;
    case CP_CSG_SUB: { cp_csg_sub_t *s = (void *)q; walk(o, &s->add->add); cp_vchar_printf(o, "-"); walk(o, &s->sub->add); return; }
    case CP_CSG_CUT: { cp_csg_cut_t *s = (void *)q; for (size_t i = 0; i < s->cut.size; i++) { if (i) cp_vchar_printf(o, "&"); walk(o, &s->cut.data[i]->add); } return; }
    case CP_CSG_XOR: { cp_csg_xor_t *s = (void *)q; for (size_t i = 0; i < s->xor.size; i++) { if (i) cp_vchar_printf(o, "^"); walk(o, &s->xor.data[i]->add); } return; }
    case CP_CSG3_SPHERE: case CP_CSG3_POLY: { cp_csg3_t *c = (void *)q; cp_vchar_printf(o, "%c:%u,%u,%u,%u;", q->type == CP_CSG3_POLY ? 'p' : 's', c->gc.color.r, c->gc.color.g, c->gc.color.b, c->gc.color.a); return; }
    default: cp_vchar_printf(o, "?%d;", (int)q->type);
    }
}
static void walk(cp_vchar_t *o, cp_v_obj_p_t *v) { for (size_t i = 0; i < v->size; i++) obj(o, v->data[i]); }
int g_bodies(const char *text, unsigned long n, char **out, long *loc) {
    cp_syn_input_t in = {0}; cp_err_t err = {0}; cp_syn_tree_t r = {0}; cp_syn_file_t *f = calloc(1, sizeof *f);
    FILE *m = fmemopen((void *)text, n, "rb"); if (!m) abort();
    *loc = -1; cp_pool_t pool; cp_pool_init(&pool);
    cp_scad_opt_t so = { .err_unsupported_functor = CP_ERR_WARN, .err_unknown_functor = CP_ERR_FAIL, .err_unknown_param = CP_ERR_WARN };
    cp_csg_opt_t co = CP_CSG_OPT_DEFAULT;
    cp_scad_tree_t *t = calloc(1, sizeof *t); t->opt = &so; cp_csg3_tree_t *g = calloc(1, sizeof *g); g->opt = &co;
    int ok = cp_syn_read(f, &err, &in, NULL, "t", m); fclose(m);
    ok = ok && cp_syn_parse(&err, &in, &r, f) && cp_scad_from_syn_tree(t, &in, &err, &r) && cp_csg3_from_scad_tree(&pool, &in, g, &err, t);
    if (!ok) { *out = strdup(cp_vchar_cstr(&err.msg)); if (err.loc) *loc = err.loc >= f->content.data && err.loc <= f->content.data + n ? (long)(err.loc - f->content.data) : -2; return 0; }
    cp_vchar_t o = {0}; (void)cp_vchar_cstr(&o); if (g->root) walk(&o, &g->root->add);
    *out = strdup(cp_vchar_cstr(&o)); free(o.data); return 1;
}
long g_name(const char *name) { cp_color_rgb_t c; if (!cp_color_by_name(&c, name)) return -1; return (long)c.r << 16 | (long)c.g << 8 | c.b; }
