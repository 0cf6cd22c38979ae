#include <stdlib.h>
#include <hob3lbase/vec.h>
#include <hob3lop/op-slice.h>
#include "kshim.h"
#include "sshim.h"
int s_slice(int npt, double const *xyz, int nface, int const *flen, int const *fidx, double z, k_line **out) {
    cp_vec3_loc_t *pt = calloc((size_t)npt, sizeof *pt);
    for (int i = 0; i < npt; i++) { pt[i].coord.x = xyz[3*i]; pt[i].coord.y = xyz[3*i+1]; pt[i].coord.z = xyz[3*i+2]; }
    cq_v_line2_t r; CP_ZERO(&r);
    cq_slice_t s;
    cq_slice_init(&s, &r, z);
    int t = 0;
    for (int i = 0; i < nface; i++) {
        cp_vec3_loc_ref_t *f = calloc((size_t)flen[i] + 1, sizeof *f);
        for (int k = 0; k < flen[i]; k++) f[k].ref = &pt[fidx[t++]];
        cp_a_vec3_loc_ref_t a = { .data = f, .size = (size_t)flen[i] };
        cq_slice_add_face(&s, &a);
        free(f);
    }
    cq_slice_fini(&s);
    int n = (int)r.size; *out = malloc(sizeof(k_line) * ((size_t)n + 1));
    for (int i = 0; i < n; i++) (*out)[i] = (k_line){ r.data[i].a.x, r.data[i].a.y, r.data[i].b.x, r.data[i].b.y };
    cp_v_fini(&r); free(pt);
    return n;
}
