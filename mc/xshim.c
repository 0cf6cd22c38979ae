#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/pool.h>
#include <hob3l/syn.h>
#include <hob3l/xml-parse.h>
#include "xshim.h"
static char *B; static size_t bn, bc;
static void put(const char *s, size_t n) { if (bn + n + 1 > bc) { bc = (bn + n + 1) * 2; B = realloc(B, bc); if (!B) abort(); } memcpy(B + bn, s, n); bn += n; B[bn] = 0; }
static void puts0(const char *s) { put(s, strlen(s)); }
static void node(cp_xml_t *n) {
    for (; n; n = n->next) {
        switch (n->type) {
        case CP_XML_ATTR: puts0("@{"); puts0(n->ns ? n->ns : ""); puts0("}"); puts0(n->data); if (n->child) { puts0("="); puts0(n->child->data); if (n->child->next || n->child->child) puts0("??"); } puts0("\2"); break;
        case CP_XML_ELEM: puts0("<{"); puts0(n->ns ? n->ns : ""); puts0("}"); puts0(n->data); puts0("\2"); node(n->child); puts0(">"); break;
        case CP_XML_CDATA: puts0("T"); puts0(n->data); puts0("\2"); if (n->child) puts0("??"); break;
        default: puts0("???");
        }
    }
}
static cp_pool_t pool; static int init;
int x_parse(const char *text, unsigned long n, int chomp, const char **out, long *loc) {
    if (!init) { cp_pool_init(&pool); init = 1; }
    cp_err_t err = {0}; cp_syn_file_t f = {0};
    char *c = malloc(n + 1); if (!c) abort(); memcpy(c, text, n); c[n] = 0; f.content.data = c; f.content.size = n; f.content.alloc = n + 1;
    cp_xml_t *r = NULL; bn = 0; put("", 0); *loc = -1;
    int ok = cp_xml_parse(&r, &pool, &err, &f, chomp ? CP_XML_OPT_CHOMP : 0);
    if (ok) node(r->child); else { if (err.loc) *loc = err.loc >= c && err.loc <= c + n ? (long)(err.loc - c) : -2; puts0(cp_vchar_cstr(&err.msg)); }
    free(err.msg.data); free(c); cp_pool_clear(&pool); *out = B; return ok;
}
