#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/stream.h>
#include <hob3l/syn.h>
#include <hob3l/syn-2scad.h>
#include <hob3l/syn-msg.h>
#include <hob3l/gc.h>
#include <hob3l/scad.h>
#include "pshim.h"
static void value(cp_vchar_t *o, cp_syn_value_t *v) {
    if (!v) { cp_vchar_printf(o, "?"); return; }
    switch (v->type) {
    case CP_SYN_VALUE_ID: cp_vchar_printf(o, "I%s", ((cp_syn_value_id_t *)v)->value); return;
    case CP_SYN_VALUE_INT: cp_vchar_printf(o, "N%lld", ((cp_syn_value_int_t *)v)->value); return;
    case CP_SYN_VALUE_FLOAT: cp_vchar_printf(o, "F%.17g", ((cp_syn_value_float_t *)v)->value); return;
    case CP_SYN_VALUE_STRING: cp_vchar_printf(o, "S\"%s\"", ((cp_syn_value_string_t *)v)->value); return;
    case CP_SYN_VALUE_RANGE: { cp_syn_value_range_t *g = (void *)v; cp_vchar_printf(o, "R["); value(o, g->start); cp_vchar_printf(o, ":"); if (g->inc) { value(o, g->inc); cp_vchar_printf(o, ":"); } value(o, g->end); cp_vchar_printf(o, "]"); return; }
    case CP_SYN_VALUE_ARRAY: { cp_syn_value_array_t *g = (void *)v; cp_vchar_printf(o, "A["); for (size_t i = 0; i < g->value.size; i++) { if (i) cp_vchar_printf(o, ","); value(o, g->value.data[i]); } cp_vchar_printf(o, "]"); return; }
    default: cp_vchar_printf(o, "?%d", (int)v->type);
    }
}
static void item(cp_vchar_t *o, cp_syn_stmt_item_t *f) {
    unsigned m = f->modifier;
    if ((m & CP_GC_MOD_HASH) == CP_GC_MOD_HASH) cp_vchar_printf(o, "#");
    if ((m & CP_GC_MOD_PERCENT) == CP_GC_MOD_PERCENT) cp_vchar_printf(o, "%%");
    if ((m & CP_GC_MOD_AST) == CP_GC_MOD_AST) cp_vchar_printf(o, "*");
    if ((m & CP_GC_MOD_EXCLAM) == CP_GC_MOD_EXCLAM) cp_vchar_printf(o, "!");
    cp_vchar_printf(o, "%s(", f->functor);
    for (size_t i = 0; i < f->arg.size; i++) { cp_syn_arg_t *a = f->arg.data[i]; if (i) cp_vchar_printf(o, ","); if (a->key) cp_vchar_printf(o, "%s=", a->key); value(o, a->value); }
    cp_vchar_printf(o, "){");
    for (size_t i = 0; i < f->body.size; i++) item(o, f->body.data[i]);
    cp_vchar_printf(o, "}");
}
int p_parse(const char *text, unsigned long n, char **tree, char **dump, long *loc) {
    cp_syn_input_t in = {0}; cp_err_t err = {0}; cp_syn_tree_t r = {0}; cp_syn_file_t *f = calloc(1, sizeof *f);
    FILE *m = fmemopen((void *)(n ? text : ""), n ? n : 1, "rb"); if (!m) abort();
    if (!n) fgetc(m);
    *dump = NULL; *loc = -1;
    cp_vchar_t o = {0}; (void)cp_vchar_cstr(&o);
    int ok = cp_syn_read(f, &err, &in, NULL, "t", m);
    fclose(m);
    if (ok) ok = cp_syn_parse(&err, &in, &r, f);
    if (!ok) { *tree = strdup(cp_vchar_cstr(&err.msg)); if (err.loc) *loc = f->content.data && err.loc >= f->content.data && err.loc <= f->content.data + n ? (long)(err.loc - f->content.data) : -2; return 0; }
    for (size_t i = 0; i < r.toplevel.size; i++) {
        cp_syn_stmt_t *s = r.toplevel.data[i];
        if (s->type == CP_SYN_STMT_USE) cp_vchar_printf(&o, "use<%s>", ((cp_syn_stmt_use_t *)s)->path); else item(&o, (cp_syn_stmt_item_t *)s);
    }
    char *d = NULL; size_t dn = 0; FILE *df = open_memstream(&d, &dn); if (!df) abort();
    cp_syn_tree_put_scad(CP_STREAM_FROM_FILE(df), &r);
    fclose(df); *dump = d;
    *tree = strdup(cp_vchar_cstr(&o));
    free(o.data);
    return 1;
}
int p_scad(const char *text, unsigned long n, int policy, char **tree, long *loc) {
    cp_syn_input_t in = {0}; cp_err_t err = {0}; cp_syn_tree_t r = {0}; cp_syn_file_t *f = calloc(1, sizeof *f);
    FILE *m = fmemopen((void *)text, n, "rb"); if (!m) abort();
    *loc = -1;
    int ok = cp_syn_read(f, &err, &in, NULL, "t", m);
    fclose(m);
    if (!ok || !cp_syn_parse(&err, &in, &r, f)) abort();
    cp_scad_opt_t o = { .err_unsupported_functor = (unsigned)policy, .err_unknown_functor = (unsigned)policy, .err_unknown_param = (unsigned)policy };
    cp_scad_tree_t t = { .opt = &o };
    if (!cp_scad_from_syn_tree(&t, &in, &err, &r)) { *tree = strdup(cp_vchar_cstr(&err.msg)); if (err.loc) *loc = err.loc >= f->content.data && err.loc <= f->content.data + n ? (long)(err.loc - f->content.data) : -2; return 0; }
    char *d = NULL; size_t dn = 0; FILE *df = open_memstream(&d, &dn); if (!df) abort();
    cp_scad_tree_put_scad(CP_STREAM_FROM_FILE(df), &t);
    fclose(df);
    char *dump; long l2; ok = p_parse(d, dn, tree, &dump, &l2); free(dump);
    if (!ok) { free(*tree); if (asprintf(tree, "the dump is not valid: %s", d) < 0) abort(); }
    free(d);
    return 1;
}
