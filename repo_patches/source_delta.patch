From 600ef2d3bf246589e499e9f123580e84cc91c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 001/106] fix: allow more than 100 edges to cross at one point

---
 src/hob3lop/op-sweep.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index 6a90ae7..e403c4c 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -651,7 +651,7 @@ static void ev_clear_and_reverse(
     edge_t *t)
 {
     /* reverse order */
-    for (int i CP_UNUSED = 0;;) {
+    for (;;) {
         assert(s != t);
         assert((s->next_xing == NULL) || (s->next_xing == ev));
         assert((t->next_xing == NULL) || (t->next_xing == ev));
@@ -709,8 +709,7 @@ static void ev_cross(
     assert(ev->some_edge != NULL);
     edge_t *u = NULL;
     edge_t *t = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -724,8 +723,7 @@ static void ev_cross(
 
     edge_t *r = NULL;
     edge_t *s = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         r = tree_edge_prev(s);
         if (r == NULL) {
             break;
@@ -1064,8 +1062,7 @@ static inline void sweep_phase2_edge_reverse(
 
     /* find top-most and bottom most edge */
     edge_t *t = s;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -1077,8 +1074,7 @@ static inline void sweep_phase2_edge_reverse(
     }
     assert(t != NULL);
 
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *r = tree_edge_prev(s);
         if (r == NULL) {
             break;
@@ -1094,7 +1090,7 @@ static inline void sweep_phase2_edge_reverse(
     }
 
     /* reverse order */
-    for (int i CP_UNUSED = 0;;) {
+    for (;;) {
         assert(s != t);
 
 #ifndef NDEBUG
-- 
2.43.0


From ba6cee7213a1517af94a9568775d494dc6878a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 002/106] fix: mark outline edges of triangles where several
 paths meet in a point

---
 src/hob3lop/op-trianglify.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/hob3lop/op-trianglify.c b/src/hob3lop/op-trianglify.c
index c51a5cd..fa63f8b 100644
--- a/src/hob3lop/op-trianglify.c
+++ b/src/hob3lop/op-trianglify.c
@@ -65,28 +65,33 @@ static inline edge_t *tri_edge_new(
     return e;
 }
 
-static bool edge_is_outline(
+static bool vertex_has_outline_to(
     vertex_t *p,
     vertex_t *q)
 {
     edge_t *e = edge_of(p);
-    if (e == edge_of(q)) {
-        return !e->inner;
+    return !e->inner && (other_end(p)->point_idx == q->point_idx);
+}
+
+static bool edge_is_outline(
+    vertex_t *p,
+    vertex_t *q)
+{
+    /* The other end is compared by point, not by vertex, because where
+     * several paths meet in one point, the other end of the outline edge
+     * may already be removed from the list. */
+    if (vertex_has_outline_to(p, q) || vertex_has_outline_to(q, p)) {
+        return true;
     }
-    vertex_t *w = vertex_eq_buddy(q);
-    if (w && (e == edge_of(w))) {
-        return !e->inner;
+
+    vertex_t *v = vertex_eq_buddy(p);
+    if (v && vertex_has_outline_to(v, q)) {
+        return true;
     }
 
-    p = vertex_eq_buddy(p);
-    if (p) {
-        e = edge_of(p);
-        if (e == edge_of(q)) {
-            return !e->inner;
-        }
-        if (w && (e == edge_of(w))) {
-            return !e->inner;
-        }
+    v = vertex_eq_buddy(q);
+    if (v && vertex_has_outline_to(v, p)) {
+        return true;
     }
 
     return false;
-- 
2.43.0


From 7b1ef9d71355168b0b9802636525b1f386b91b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 003/106] fix: bounding box of spheres never shrinks the box of
 other bodies

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..4de6ad3 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -474,7 +474,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From a28e317f07b754c1446fb458fc7b755944bb4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 004/106] fix: bounding box of an intersection takes all
 operands into account

---
 src/hob3l/csg3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 4de6ad3..951d744 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2379,12 +2379,13 @@ static void get_bb_cut(
     }
     else {
         cp_vec3_minmax_t bb2 = CP_VEC3_MINMAX_FULL;
-        for (cp_v_each(i, &r->cut, 1)) {
+        for (cp_v_each(i, &r->cut)) {
             cp_vec3_minmax_t bb3 = CP_VEC3_MINMAX_EMPTY;
             get_bb_add(&bb3, cp_v_nth(&r->cut,i), max);
             cp_vec3_minmax_and(&bb2, &bb2, &bb3);
             if (!cp_vec3_minmax_valid(&bb2)) {
-                break;
+                /* empty intersection: does not extend bb */
+                return;
             }
         }
         cp_vec3_minmax_or(bb, bb, &bb2);
-- 
2.43.0


From 2677e81c861fa8b06a09cdeb805854329352994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 005/106] fix: intersection skips ignored children and is empty
 if a child is

---
 src/hob3l/csg3.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 951d744..4d8f3cd 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -240,23 +240,34 @@ static bool csg3_from_intersection(
     cp_v_csg_add_p_t cut = CP_V_INIT;
 
     /* each child is a union */
-    cp_v_obj_p_t add = CP_V_INIT;
+    bool empty = false;
     for (cp_v_each(i, &s->child)) {
-        csg3_cut_push_add(&cut, &add);
-        if (!csg3_from_scad(no, &add, c, m, cp_v_nth(&s->child, i))) {
+        cp_v_obj_p_t add = CP_V_INIT;
+        bool add_no = false;
+        if (!csg3_from_scad(&add_no, &add, c, m, cp_v_nth(&s->child, i))) {
             assert(c->err->msg.size > 0);
             return false;
         }
+        if (add_no) {
+            *no = true;
+            if (add.size == 0) {
+                /* not ignored, but empty */
+                empty = true;
+            }
+        }
+        csg3_cut_push_add(&cut, &add);
     }
 
-    if (cut.size == 0) {
-        cp_v_append(r, &add);
-        cp_v_fini(&add);
+    if (empty || (cut.size == 0)) {
+        cp_v_fini(&cut);
         return true;
     }
 
-    csg3_cut_push_add(&cut, &add);
-    assert(cut.size >= 2);
+    if (cut.size == 1) {
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        cp_v_fini(&cut);
+        return true;
+    }
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
     cp_v_push(r, cp_obj(o));
-- 
2.43.0


From 34529fe079822a0de9f8f18acead32c9218856a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 006/106] fix: hull and projection apply the 2D transformations
 around them

---
 src/hob3l/csg3.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 4d8f3cd..25d602a 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1174,9 +1174,20 @@ static bool csg3_from_projection(
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3_init_tree(csg3, s->loc);
 
-    /* start with fresh matrix in 2D space */
+    /* apply the 2D part of the matrix to the 3D children: this is the
+     * same as transforming the slice */
+    cp_mat3w_t m2 = m->mat->n;
+    m2.b.m[0][2] = m2.b.m[1][2] = 0;
+    m2.b.m[2][0] = m2.b.m[2][1] = 0;
+    m2.b.m[2][2] = 1;
+    m2.w.v[2] = 0;
+
     local_t mn = *m;
-    mn.mat = the_unit(c->tree);
+    cp_mat3wi_t *m1 = mat_new(c->tree);
+    if (!cp_mat3wi_from_mat3w(m1, &m2)) {
+        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+    }
+    mn.mat = m1;
     if (!csg3_from_v_scad(no, &csg3->root->add, &c2, &mn, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
@@ -1813,6 +1824,9 @@ static bool csg3_from_hull(
         cp_v_push(&q->point_idx, i);
     }
 
+    /* in-place xform */
+    xform_2d(m, p);
+
     cp_v_push(r, cp_obj(p));
 
     return true;
-- 
2.43.0


From c5d9241a0490ea3166419e9bc00a56e750274ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 007/106] fix: report use and surface as not implemented
 instead of aborting

---
 src/hob3l/csg3.c | 3 +--
 src/hob3l/scad.c | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 25d602a..c5d93e0 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1010,8 +1010,7 @@ static bool csg3_from_surface(
 
     (void)r;
     (void)m;
-    CP_NYI("surface");
-    return false;
+    return msg(c, CP_ERR_FAIL, s->loc, NULL, "Not yet implemented: 'surface'.");
 }
 
 static bool csg3_from_text(
diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 43078f4..22ed18b 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1594,11 +1594,11 @@ static bool v_scad_from_syn_stmt_item(
 }
 
 static bool v_scad_from_syn_stmt_use(
-    ctxt_t *t CP_UNUSED,
+    ctxt_t *t,
     cp_v_scad_p_t *result CP_UNUSED,
-    cp_syn_stmt_use_t *f CP_UNUSED)
+    cp_syn_stmt_use_t *f)
 {
-    CP_NYI("`use <...>`");
+    return msg_fail(t, f->loc, NULL, "Not yet implemented: 'use'.");
 }
 
 static bool v_scad_from_syn_stmt(
-- 
2.43.0


From dedf50108a293fa3932226fec56421fc50f79e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 008/106] fix: multmatrix accepts rows of two values and
 rejects anything but arrays

---
 src/hob3l/scad.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 22ed18b..6433cca 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -597,8 +597,8 @@ static bool get_mat4(
     /* This also accepts 3x3 matrices and 4x3 matrixes and will
      * add missing columns and rows from the unit matrix */
 
-    cp_syn_value_array_t const *a = cp_syn_cast(*a, v);
-    if ((v->type != CP_SYN_VALUE_ARRAY) ||
+    cp_syn_value_array_t const *a = cp_syn_try_cast(*a, v);
+    if ((a == NULL) ||
         (
             (a->value.size != 2) &&
             (a->value.size != 3) &&
@@ -612,6 +612,12 @@ static bool get_mat4(
     for (cp_size_each(y, a->value.size)) {
         cp_syn_value_t const *l = cp_v_nth(&a->value, y);
         cp_syn_value_array_t const *la = cp_syn_try_cast(*a, l);
+        if ((la != NULL) && (la->value.size == 2)) {
+            if (!get_vec2(&r->row[y].b.b, t, l)) {
+                return false;
+            }
+        }
+        else
         if ((la != NULL) && (la->value.size == 3)) {
             if (!get_vec3(&r->row[y].b, t, l)) {
                 return false;
-- 
2.43.0


From 54b4d7a4e9f016bbc9f5d1e382a54280aa52de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 009/106] fix: after ignoring an unknown parameter, process the
 others

---
 src/hob3l/scad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 6433cca..8fabba0 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -747,8 +747,12 @@ static bool get_arg(
                     goto get;
                 }
             }
-            return msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
-                "Unknown parameter name '%s'.", a->key);
+            if (!msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
+                "Unknown parameter name '%s'.", a->key))
+            {
+                return false;
+            }
+            continue;
         }
 
     get:
-- 
2.43.0


From 87b6f589489397ba1046916b33bd1c60c9cfbb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 010/106] fix: unknown colour names are an error, known ones
 match in any letter case

---
 src/hob3l/gc.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index f2fe110..2cf8fbb 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -80,7 +80,20 @@ extern bool cp_color_by_name(
     }
 
     /* by name */
-    color_value_t const *c = color_find(name, len);
+    char lower[32];
+    if (len >= cp_countof(lower)) {
+        return false;
+    }
+    for (size_t i = 0; i < len; i++) {
+        char c = name[i];
+        lower[i] = ((c >= 'A') && (c <= 'Z')) ? (char)(c - 'A' + 'a') : c;
+    }
+    lower[len] = 0;
+
+    color_value_t const *c = color_find(lower, len);
+    if (c == NULL) {
+        return false;
+    }
     rgb->r = (c->rgb >> 16) & 0xff;
     rgb->g = (c->rgb >> 8)  & 0xff;
     rgb->b = (c->rgb)       & 0xff;
-- 
2.43.0


From a550567e09a1f53b96e32598c9a0bef1a95e8874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 011/106] fix: put the only layer of an empty range at the
 requested height

If the range of heights was empty (--min above the model, or a model
thinner than half a step), the single layer was put at z=0 instead of
at --min or half a step above the model's bottom.
---
 src/hob3l/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 706848f..639be90 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -284,6 +284,9 @@ static bool do_file(
     cp_range_init(&range, z_min, z_max, opt->z_step);
     if (range.cnt == 0) {
         range.cnt = 1;
+        if (cp_isfinite(z_min)) {
+            range.min = z_min;
+        }
     }
 
     if (opt->verbose >= 1) {
-- 
2.43.0


From 0f74109fbf0b213af7dbe0a679b0a4783934030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 012/106] fix: --ps-scale-fit compared the wrong bounds and
 fell back to mm

---
 src/hob3l/ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/ps.c b/src/hob3l/ps.c
index 8a55ab9..5d673aa 100644
--- a/src/hob3l/ps.c
+++ b/src/hob3l/ps.c
@@ -18,7 +18,7 @@ extern void cp_ps_xform_from_minmax(
     cp_dim_t y_max)
 {
     *d = CP_PS_XFORM_MM;
-    if (cp_gt(x_max, x_min) && cp_gt(y_max, x_min)) {
+    if (cp_gt(x_max, x_min) && cp_gt(y_max, y_min)) {
         d->mul_x = cp_min(
             (CP_PS_PAPER_X - CP_PS_PAPER_MARGIN) / (x_max - x_min),
             (CP_PS_PAPER_Y - CP_PS_PAPER_MARGIN) / (y_max - y_min));
-- 
2.43.0


From 80413eefec7d45d3b67ee5ed2c099acee06c8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 013/106] fix: PS output crashed on a model with an empty layer

---
 src/hob3l/csg2-2ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 623fd48..63c3475 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -211,7 +211,7 @@ static void layer_put_ps(
     size_t zi,
     cp_csg2_layer_t *r)
 {
-    if (zi != r->zi) {
+    if ((zi != r->zi) || (cp_csg_add_size(r->root) == 0)) {
         return;
     }
     v_csg2_put_ps(k, t, zi, &r->root->add);
-- 
2.43.0


From 238b3834449837caf5b0dd0dafecacbfa1e74561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 014/106] fix: JS normals of short edges were written as zero
 vectors

---
 src/hob3l/csg2-2js.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index e3e5e02..b07d61a 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -238,7 +238,7 @@ static void poly_put_js_outline_edge(
      * and (pk,z[0])..(pj,z[0])--(pj,z[1])
      */
     cp_vec3_t n;
-    cp_vec3_left_normal3(&n,
+    cp_vec3_left_normal3_x(&n,
         &(cp_vec3_t){{ pk->coord.x, pk->coord.y, z[0] }},
         &(cp_vec3_t){{ pj->coord.x, pj->coord.y, z[1] }},
         &(cp_vec3_t){{ pk->coord.x, pk->coord.y, z[1] }});
-- 
2.43.0


From aff833f60353cc345e2b1ca4b162c4d8eb8cf00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 015/106] fix: inserting part of an array into itself in front
 of that part

---
 src/hob3lbase/vec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index f36a21f..843cb81 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -315,7 +315,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size);
         }
         else
-        if (dst_end <= src_pos) {
+        if (dst_pos <= src_pos) {
             /* completely in last part */
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos+size, size);
         }
-- 
2.43.0


From 3297e6bf0439676d1fc8fd702a590a4a1d4dfb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 016/106] fix: decoding of UTF-8 sequences left the marker bits
 of continuation bytes in the result

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 6eb9603..9bbb3f0 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -53,7 +53,7 @@ static inline bool get_cont(unsigned *result, char const *start, cp_utf8_iter_t
         return false;
     }
     iter_advance(iter);
-    *result = c2;
+    *result = c2 & 0x3f;
     return true;
 }
 
-- 
2.43.0


From 6c1502902ff895249a693551510e74692496e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 017/106] fix: assertion that fails when part of an array is
 inserted into its own middle

---
 src/hob3lbase/vec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 843cb81..c1d8747 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -327,7 +327,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size1);
 
             /* second part behind gap */
-            assert(dst_end < src_end);
+            assert(dst_pos < src_end);
             size_t size2 = size - size1;
             assert(dst_end + size2 == src_end + size);
             cp_v_copy_(m, dst, esz, dst_pos+size1, dst, dst_end, size2);
-- 
2.43.0


From dc48f405e2f66060e4c34798d9a617b556415d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 018/106] fix: making a heap of an array added an element past
 its end

---
 src/hob3lbase/heap.c | 1 +
 src/hob3lbase/vec.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hob3lbase/heap.c b/src/hob3lbase/heap.c
index d89a75d..ff3f094 100644
--- a/src/hob3lbase/heap.c
+++ b/src/hob3lbase/heap.c
@@ -108,6 +108,7 @@ extern void cp_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_heap_up_(vec, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index c1d8747..70bcea9 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -577,6 +577,7 @@ extern void cp_v_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_v_heap_up_(vec, esz, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From 26b5d481f4d0270e1b285c1f8977c5542f5ff522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 019/106] fix: pool allocation with alignment 0 (documented as:
 derive it from the size) failed an assertion

---
 src/hob3lbase/pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/pool.c b/src/hob3lbase/pool.c
index c1c7428..2a2bde3 100644
--- a/src/hob3lbase/pool.c
+++ b/src/hob3lbase/pool.c
@@ -215,6 +215,10 @@ extern void *cp_pool_calloc(
         return NULL;
     }
 
+    if (align == 0) {
+        align = cp_size_align(size1);
+    }
+
     for (size_t try = 0; try < 3; try++) {
         void *r = try_block_calloc(pool->used.head, nmemb, size1, align);
         if (r != NULL) {
-- 
2.43.0


From 94ea56a8a7168466dfc3eeb6952e98d3c6bfd87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 020/106] fix: hexadecimal string escapes were accepted with
 the last digit missing

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 9bbb3f0..2c6e33e 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -187,7 +187,6 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     iter_advance(iter);
 
     while (len > 0) {
-        --len;
         uint8_t cx = iter_get(iter);
         if (cx == 0) {
             break;
@@ -198,6 +197,7 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
         }
         iter_advance(iter);
         code = (code * base) + val;
+        --len;
     }
     if (len > 0) {
         iter_error(iter, start, "premature end of hexadecimal escape");
-- 
2.43.0


From 8a7c101447de5855928b963e024008a2e30b9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 021/106] fix: string escapes for U+0000 and for surrogates
 were not rejected

---
 src/hob3lbase/utf8.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 2c6e33e..3e5643c 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -207,6 +207,10 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
         iter_error(iter, start, "character code is too large for this escape sequence");
         return 0;
     }
+    if (!cp_utf8_ok(code)) {
+        iter_error(iter, start, "character code is not a valid Unicode codepoint");
+        return 0;
+    }
     return code;
 }
 
-- 
2.43.0


From e3982fbd40d5e2be942bb317669c8f4c9050d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 022/106] fix: --dump-syn dropped modifiers and wrote blocks as
 '{(', which cannot be read back

---
 src/hob3l/syn-2scad.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/syn-2scad.c b/src/hob3l/syn-2scad.c
index 6a0fed3..82d2c4b 100644
--- a/src/hob3l/syn-2scad.c
+++ b/src/hob3l/syn-2scad.c
@@ -10,6 +10,7 @@
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 #include <hob3l/syn.h>
+#include <hob3l/gc.h>
 #include "internal.h"
 
 static void cp_syn_stmt_put_scad(
@@ -84,7 +85,9 @@ static void cp_syn_stmt_item_put_scad(
     cp_syn_stmt_item_t *f)
 {
     cp_printf(s, "%*s", d, "");
-    if (f->functor != NULL) {
+    cp_gc_modifier_put_scad(s, f->modifier);
+    bool block = (f->functor != NULL) && strequ(f->functor, "{");
+    if ((f->functor != NULL) && !block) {
         cp_printf(s, "%s(", f->functor);
         for (cp_v_each(i, &f->arg)) {
             cp_syn_arg_t const *a = f->arg.data[i];
@@ -98,11 +101,11 @@ static void cp_syn_stmt_item_put_scad(
         }
         cp_printf(s, ")");
     }
-    if (f->body.size == 0) {
+    if ((f->body.size == 0) && !block) {
         cp_printf(s, ";\n");
         return;
     }
-    cp_printf(s, " {\n");
+    cp_printf(s, "%s{\n", block ? "" : " ");
     for (cp_v_each(i, &f->body)) {
         cp_syn_stmt_item_put_scad(s, d+IND, f->body.data[i]);
     }
-- 
2.43.0


From f40a7d271afa507e6c73a611918e1b5c94ead0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 023/106] fix: --dump-scad wrote import, surface, text,
 rotate_extrude and color so that they could not be read back or lost
 arguments

---
 src/hob3l/scad-2scad.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 4cb6818..5fa9b03 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -82,7 +82,7 @@ static void rotext_put_scad(
     cp_scad_rotext_t const *r)
 {
     cp_printf(s, "rotate_extrude("
-        "angle=%g"
+        "angle="FF
         ", $fn=%u, $fa=%g, $fs=%g"
         "){\n", r->angle,
         r->detail._fn, r->detail._fa, r->detail._fs);
@@ -113,7 +113,7 @@ static void color_put_scad(
             r->rgba.a/255.0);
     }
     else {
-        cp_printf(s, "color(alpha=%.3g){\n",
+        cp_printf(s, "color(c=undef,alpha=%.3g){\n",
             r->rgba.a/255.0);
     }
     v_scad_put_scad(s, d + IND, &r->child);
@@ -124,10 +124,15 @@ static void import_put_scad(
     cp_stream_t *s,
     cp_scad_import_t const *r)
 {
-    cp_printf(s, "import(s=\"%s\""
-        ", $fn=%u, $fa=%g, $fs=%g"
-        ");\n",
-        r->file_tok,
+    cp_printf(s, "import(file=\"%s\"", r->file_tok);
+    if (r->layer != NULL) {
+        cp_printf(s, ", layer=\"%s\"", r->layer);
+    }
+    if (r->id_tok != NULL) {
+        cp_printf(s, ", id=\"%s\"", r->id_tok);
+    }
+    cp_printf(s, ", center=%s, dpi="FF", $fn=%u, $fa=%g, $fs=%g);\n",
+        r->center ? "true" : "false", r->dpi,
         r->detail._fn, r->detail._fa, r->detail._fs);
 }
 
@@ -135,7 +140,7 @@ static void surface_put_scad(
     cp_stream_t *s,
     cp_scad_surface_t const *r)
 {
-    cp_printf(s, "surface(s=\"%s\",center=%s);\n",
+    cp_printf(s, "surface(file=\"%s\",center=%s);\n",
         r->file_tok, r->center?"true":"false");
 }
 
@@ -144,13 +149,11 @@ static void text_put_scad(
     cp_scad_text_t const *r)
 {
     cp_printf(s,
-        "text(text=\"%s\",size=%g,font=\"%s\",halign=\"%s\",valign=\"%s\","
-        "spacing=%g,direction=\"%s\",language=\"%s\",script=\"%s\""
-        ",$fn=%u,$fa=%g,$fs=%g"
+        "text(text=\"%s\",size="FF",font=\"%s\",halign=\"%s\",valign=\"%s\","
+        "spacing="FF",tracking="FF",direction=\"%s\",language=\"%s\",script=\"%s\""
         ");\n",
         r->text, r->size, r->font, r->halign, r->valign,
-        r->spacing, r->direction, r->language, r->script,
-        r->detail._fn, r->detail._fa, r->detail._fs);
+        r->spacing, r->tracking, r->direction, r->language, r->script);
 }
 
 static void projection_put_scad(
-- 
2.43.0


From 142c7900a90a914bb7cb231e5c6a78146e4dc8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 024/106] fix: a NUL byte was taken for the end of the SCAD
 file, silently dropping the rest

---
 src/hob3l/syn.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 3ba8d31..f75b4d7 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -115,6 +115,11 @@ static bool have_err_msg(parse_t *p)
     return p->err->msg.size > 0;
 }
 
+static bool lex_eof(parse_t *p)
+{
+    return p->c.lex.string >= p->c.lex.end;
+}
+
 static void lex_next(parse_t *p)
 {
     /* EOF? */
@@ -265,7 +270,7 @@ static void tok_next_aux2(parse_t *p)
     /* line comment */
     if ((p->c.lex.cur == '/') && (p->c.lex.string[1] == '/')) {
         p->c.tok.type = T_LCOM;
-        while ((p->c.lex.cur != '\n') && (p->c.lex.cur != '\0')) {
+        while ((p->c.lex.cur != '\n') && !lex_eof(p)) {
             lex_next(p);
         }
         /* do not eat '\n', it will be consumed as white space anyway. */
@@ -279,7 +284,7 @@ static void tok_next_aux2(parse_t *p)
         lex_next(p);
         char prev = 0;
         while ((prev != '*') || (p->c.lex.cur != '/')) {
-            if (p->c.lex.cur == '\0') {
+            if (lex_eof(p)) {
                 if (!have_err_msg(p)) {
                     cp_vchar_printf(&p->err->msg, "File ends inside comment.\n");
                 }
@@ -303,6 +308,13 @@ static void tok_next_aux2(parse_t *p)
         p->c.tok.type = T_ERROR;
         return;
     }
+    if ((p->c.lex.cur == '\0') && !lex_eof(p)) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg, "NUL bytes are not supported as symbols.\n");
+        }
+        p->c.tok.type = T_ERROR;
+        return;
+    }
     p->c.tok.type = p->c.lex.cur & 127;
     lex_next(p);
 }
-- 
2.43.0


From a3a0ff4c9bd47c4dc5bd91cca19a0fc657d1036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 025/106] fix: the stream into a vchar used the variadic printf
 function where a va_list is passed

---
 include/hob3lbase/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hob3lbase/stream.h b/include/hob3lbase/stream.h
index 80f5f41..be587b5 100644
--- a/include/hob3lbase/stream.h
+++ b/include/hob3lbase/stream.h
@@ -25,7 +25,7 @@
 #define CP_STREAM_FROM_VCHAR(vchar) \
     (&(cp_stream_t){ \
         .data = (vchar), \
-        .vprintf = (cp_stream_vprintf_t)cp_vchar_printf, \
+        .vprintf = (cp_stream_vprintf_t)cp_vchar_vprintf, \
         .write = (cp_stream_write_t)cp_vchar_append_arr, \
     })
 
-- 
2.43.0


From 10c92f54b1cd80ceea2d6655e18c446aa9f3f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 026/106] fix: rotate around a vector of length zero was
 accepted

---
 src/hob3l/csg3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index c5d93e0..bb15a72 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -398,6 +398,9 @@ static bool csg3_from_rotate(
 {
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (s->around_n) {
+        if (cp_vec3_has_len0(&s->n)) {
+            return msg(c, CP_ERR_FAIL, s->loc, NULL, "Rotation axis vector has length zero.\n");
+        }
         cp_mat3wi_rot_v(m1, &s->n, &CP_SINCOS_DEG(s->a));
     }
     else {
-- 
2.43.0


From 8fd00b17c54de07b58ac659cf16c85d6c7266216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 027/106] fix: negative radii of circles and of one end of
 cylinders were accepted

---
 src/hob3l/csg3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index bb15a72..1029bdd 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1360,7 +1360,7 @@ static bool csg3_from_circle(
     *no = true;
 
     /* size 0 in any direction is an error */
-    if (cp_eq(s->r, 0)) {
+    if (cp_le(s->r, 0)) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty circle, but r="FF".\n",
             s->r);
@@ -1533,7 +1533,7 @@ static bool csg3_from_cylinder(
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty cylinder, but h="FF".\n", s->h);
     }
-    if (cp_le(r1, 0) && cp_le(r2, 0)) {
+    if (cp_lt(r1, 0) || cp_lt(r2, 0) || (cp_le(r1, 0) && cp_le(r2, 0))) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty cylinder, but r1="FF", r2="FF".\n",
             r1, r2);
-- 
2.43.0


From 4f43fed11107086303ed3aff190465ab88e54930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 028/106] fix: problems in the subtracted part of a difference
 were not reported if the first child is empty

---
 src/hob3l/csg3.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 1029bdd..491086f 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -159,11 +159,6 @@ static bool csg3_from_difference(
         *no = true;
     }
 
-    if (f.size == 0) {
-        /* empty, ignore */
-        return true;
-    }
-
     if ((f.size == 1) && (cp_v_nth(&f, 0)->type == CP_CSG_SUB)) {
         cp_v_push(r, cp_v_nth(&f, 0));
 
@@ -196,6 +191,12 @@ static bool csg3_from_difference(
         }
     }
 
+    if (f.size == 0) {
+        /* empty, ignore (but only after checking all children) */
+        cp_v_fini(&g);
+        return true;
+    }
+
     if (g.size == 0) {
         /* no more children => nothing to subtract => push f to output */
         cp_v_append(r, &f);
-- 
2.43.0


From 9cbcce10d11e4df3fea79908b5e5b2d953c31624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 029/106] fix: with --collapse=warn/ignore, a collapsed
 transformation was skipped as a child instead of being empty

---
 src/hob3l/csg3.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 491086f..a82eb99 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -337,6 +337,22 @@ static bool good_scale2(
         !cp_eq(v->y, 0);
 }
 
+/**
+ * The children of a transformation that collapses everything: nothing
+ * is rendered, but the children decide whether this is ignored.
+ */
+static bool csg3_from_collapsed(
+    bool *no,
+    ctxt_t *c,
+    local_t const *mo,
+    cp_v_scad_p_t const *s)
+{
+    cp_v_obj_p_t r = CP_V_INIT;
+    bool ok = csg3_from_v_scad(no, &r, c, mo, s);
+    cp_v_fini(&r);
+    return ok;
+}
+
 static bool csg3_from_scale(
     bool *no,
     cp_v_obj_p_t *r,
@@ -345,8 +361,10 @@ static bool csg3_from_scale(
     cp_scad_scale_t const *s)
 {
     if (!good_scale(&s->v)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL,
-           "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v));
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL,
+                "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v)) &&
+            csg3_from_collapsed(no, c, mo, &s->child);
     }
     cp_mat3wi_t *m1 = mat_new(c->tree);
     cp_mat3wi_scale_v(m1, &s->v);
@@ -366,7 +384,9 @@ static bool csg3_from_multmatrix(
 {
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (!cp_mat3wi_from_mat3w(m1, &s->m)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n") &&
+            csg3_from_collapsed(no, c, mo, &s->child);
     }
     cp_mat3wi_mul(m1, mo->mat, m1);
 
-- 
2.43.0


From ffcdc536635cfd5c1787d1972411aa7e2b351393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 030/106] fix: with --outside-2d=warn/ignore, 2D objects in 3D
 context were skipped as children instead of being empty

---
 src/hob3l/csg3.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index a82eb99..45b7e83 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1044,11 +1044,12 @@ static bool csg3_from_text(
     local_t const *mo CP_UNUSED,
     cp_scad_text_t const *s)
 {
+    /* even if in wrong context, this counts as a child */
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL,
             "'text' found outside 2D context.");
     }
-    *no = true;
 
 #ifdef WITH_FONT
     cp_font_gc_t gc = {0};
@@ -1252,10 +1253,11 @@ static bool csg3_from_polygon(
     local_t const *m,
     cp_scad_polygon_t const *s)
 {
+    /* even if in wrong context, this counts as a child */
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'polygon' found outside 2D context.");
     }
-    *no = true;
 
     if (s->points.size < 3) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
@@ -1375,10 +1377,11 @@ static bool csg3_from_circle(
     local_t const *mo,
     cp_scad_circle_t const *s)
 {
+    /* even if in wrong context, this counts as a child */
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'circle' found outside 2D context.");
     }
-    *no = true;
 
     /* size 0 in any direction is an error */
     if (cp_le(s->r, 0)) {
@@ -1435,10 +1438,11 @@ static bool csg3_from_square(
     local_t const *mo,
     cp_scad_square_t const *s)
 {
+    /* even if in wrong context, this counts as a child */
+    *no = true;
     if (c->context != IN2D) {
         return msg(c, c->opt->err_outside_2d, s->loc, NULL, "'square' found outside 2D context.");
     }
-    *no = true;
 
     /* size 0 in any direction is an error */
     if (!good_scale2(&s->size)) {
-- 
2.43.0


From 5b64bb1539ea2a4e07fd4bef0f8c5b4477968a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 031/106] fix: an ignored projection made an intersection empty

---
 src/hob3l/csg3.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 45b7e83..83c5562 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1212,10 +1212,14 @@ static bool csg3_from_projection(
         return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
     }
     mn.mat = m1;
-    if (!csg3_from_v_scad(no, &csg3->root->add, &c2, &mn, &s->child)) {
+    bool child_no = false;
+    if (!csg3_from_v_scad(&child_no, &csg3->root->add, &c2, &mn, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
     }
+    if (child_no) {
+        *no = true;
+    }
 
     /* check whether we can do it */
     if (!s->cut) {
@@ -1223,6 +1227,13 @@ static bool csg3_from_projection(
             "'projection(cut=false)' is not implemented, only cut=true.");
     }
 
+    if (!child_no) {
+        /* ignored: this must not be empty, but nothing */
+        CP_DELETE(csg3->root);
+        CP_DELETE(csg3);
+        return true;
+    }
+
     /* cut out the slice */
     cp_range_t range;
     cp_range_init(&range, 0, 0, 0.1);
-- 
2.43.0


From ff900d08ef9f14786970b524164e15dd5a244d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 032/106] fix: --unknown-functor had no effect: unknown
 functors were treated as unsupported ones

---
 src/hob3l/scad.c | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 8fabba0..6b036ff 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1581,6 +1581,39 @@ static bool projection_from_item(
 
 #include "scad-cmd.inc"
 
+/**
+ * Whether this is a functor of SCAD that is not supported. */
+static bool is_unsupported_functor(
+    char const *name)
+{
+    static char const *const unsupported[] = {
+        "assert",
+        "assign",
+        "child",
+        "children",
+        "dxf_linear_extrude",
+        "dxf_rotate_extrude",
+        "echo",
+        "fill",
+        "for",
+        "if",
+        "import_dxf",
+        "import_off",
+        "intersection_for",
+        "let",
+        "minkowski",
+        "offset",
+        "resize",
+        "roof",
+    };
+    for (size_t i = 0; i < cp_countof(unsupported); i++) {
+        if (strequ(name, unsupported[i])) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static bool v_scad_from_syn_stmt_item(
     ctxt_t *t,
     cp_v_scad_p_t *result,
@@ -1588,8 +1621,12 @@ static bool v_scad_from_syn_stmt_item(
 {
     cmd_value_t const *c = cmd_find(f->functor, strlen(f->functor));
     if (c == NULL) {
-        return msg(t, t->opt->err_unsupported_functor, f->loc, NULL,
-            "Unsupported functor '%s'.", f->functor);
+        if (is_unsupported_functor(f->functor)) {
+            return msg(t, t->opt->err_unsupported_functor, f->loc, NULL,
+                "Unsupported functor '%s'.", f->functor);
+        }
+        return msg(t, t->opt->err_unknown_functor, f->loc, NULL,
+            "Unknown functor '%s'.", f->functor);
     }
     assert(c->type != 0);
 
-- 
2.43.0


From a12773b3115f5d9584291e08b801b9644fffeabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 033/106] fix: with --opt-no-skip-empty, an empty intermediate
 result was combined with a stale truth table

---
 src/hob3l/csg2-bool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3l/csg2-bool.c b/src/hob3l/csg2-bool.c
index 1887fe4..a0289c9 100644
--- a/src/hob3l/csg2-bool.c
+++ b/src/hob3l/csg2-bool.c
@@ -136,6 +136,7 @@ static void flatten_eager(
     if (cq_sweep_empty(sweep)) {
         cq_sweep_delete(sweep);
         r->size = 0;
+        r->comb.b[0] = 0;
         return;
     }
 
-- 
2.43.0


From fd556482370d301dc00fa2f337486b279160dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 034/106] fix: with --grid=0, all 2D objects (and thus all
 extrusions) vanished

---
 src/hob3l/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 639be90..4a2a908 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -226,6 +226,13 @@ static bool do_file(
     cp_pool_t pool;
     cp_pool_init(&pool);
 
+    /* With --grid=0, the grid is only known after stage 3, but 2D operations
+     * inside the 3D model already need one. */
+    double dim_scale = cq_dim_scale;
+    if (cp_eq(dim_scale, 0)) {
+        cq_dim_scale = CP_DIM_SCALE_DEFAULT;
+    }
+
     /* stage 3: 3D CSG */
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3->opt = &opt->csg;
@@ -266,9 +273,13 @@ static bool do_file(
     /* Auto-scale so that 23 bits are used in integer arith, so that no
      * rounding error occurs when converting to `float` (for binary STL).
      */
+    cq_dim_scale = dim_scale;
     if (cp_vec3_minmax_valid(&bb)) {
         auto_dim_scale(opt, &bb);
     }
+    if (cp_eq(cq_dim_scale, 0)) {
+        cq_dim_scale = CP_DIM_SCALE_DEFAULT;
+    }
 
     /* stage 4: 2D CSG */
     cp_dim_t z_min = bb.min.z + opt->z_step/2;
-- 
2.43.0


From cfbc56266fd37aedde429013291a772ff54ed633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 035/106] fix: with --opt-no-skip-empty, a single polygon's
 truth table was ignored, e.g. when intersected with nothing

---
 src/hob3l/csg2-bool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-bool.c b/src/hob3l/csg2-bool.c
index a0289c9..c1a5268 100644
--- a/src/hob3l/csg2-bool.c
+++ b/src/hob3l/csg2-bool.c
@@ -86,7 +86,9 @@ static void flatten_eager(
     if (r->size == 0) {
         return;
     }
-    if (r->size == 1) {
+    /* A single polygon needs no work unless combining it with empty operands
+     * changed its truth table (without CP_CSG2_OPT_SKIP_EMPTY). */
+    if ((r->size == 1) && ((r->comb.b[0] & 3) == 2)) {
         assert(r->data[0] != NULL);
         if (r->data[0]->type == CP_CSG2_SWEEP) {
             return;
-- 
2.43.0


From 4ccde9a47c0035727694e97581a73cd7c4302077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 036/106] fix: STL import skipped the line after 'solid' or
 'endsolid' if no name follows

---
 src/hob3l/stl-parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dae61d1..7687e29 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -180,7 +180,10 @@ static void tok_next_line(parse_t *p)
     if (p->tok_type == T_ERROR) {
         return;
     }
-    lex_next(p);
+    /* the rest of the line may be empty */
+    if (p->lex_cur != '\n') {
+        lex_next(p);
+    }
 
     /* Note that p->tok_string might point to '\0'.  It is needed for a
      * location pointer nevertheless. */
-- 
2.43.0


From 4448013a6875307d83af62f5f7b75aa326cc3102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 037/106] fix: STL import accepted malformed and infinite
 numbers

---
 src/hob3l/stl-parse.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 7687e29..9463aeb 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -336,7 +336,15 @@ static bool parse_float(
     parse_t *p,
     cp_f_t *v)
 {
-    *v = strtod(p->tok_string, NULL);
+    if (p->tok_type == T_FLOAT) {
+        char *end = NULL;
+        *v = strtod(p->tok_string, &end);
+        if ((end == p->tok_string) || (*end != '\0') || !cp_isfinite(*v)) {
+            cp_vchar_printf(&p->err->msg, "Malformed number '%s'.\n", p->tok_string);
+            p->err->loc = p->tok_loc;
+            return false;
+        }
+    }
     return expect_err(p, T_FLOAT);
 }
 
@@ -547,6 +555,11 @@ static bool bin_f(parse_t *p, cp_f_t *x)
     if (!bin_f32(p, &v)) {
         return false;
     }
+    if (!cp_isfinite(v)) {
+        p->err->loc = p->lex_string;
+        cp_vchar_printf(&p->err->msg, "STL binary file contains a non-finite number.\n");
+        return false;
+    }
     *x = v;
     return true;
 }
-- 
2.43.0


From 13834abedb5ebfc7718a99540e0bb7161bd8a147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 038/106] fix: STL import ignored the normals, so facets with
 contradicting vertex order were not corrected

---
 src/hob3l/stl-parse.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 9463aeb..22f76ff 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -379,13 +379,23 @@ static bool parse_vertex(
 static bool make_facet(
     parse_t *p,
     cp_loc_t loc,
-    cp_vec3_t *normal CP_UNUSED,
+    cp_vec3_t const *normal,
     cp_vec3_dict_node_t *v[],
     cp_loc_t vloc[])
 {
     cp_csg3_face_t *face = cp_v_push0(&p->poly->face);
     face->loc = loc;
     cp_v_init0(&face->point, 3);
+
+    /* the normal tells the orientation: if it contradicts the order of the
+     * vertices, they are reversed. */
+    cp_vec3_t n;
+    cp_vec3_right_cross3(&n, &v[1]->coord, &v[0]->coord, &v[2]->coord);
+    if (cp_vec3_dot(&n, normal) < 0) {
+        CP_SWAP(&v[0], &v[2]);
+        CP_SWAP(&vloc[0], &vloc[2]);
+    }
+
     for (cp_size_each(i, 3)) {
         cp_vec3_loc_ref_t *q = &cp_v_nth(&face->point, 2 - i);
         q->ref = (void*)v[i]->idx;
-- 
2.43.0


From 41e6c2a6d072c3ae15a558405f9de553bf21ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 039/106] fix: STL import scanned the name after 'endsolid' as
 tokens, continuing on the next line

---
 src/hob3l/stl-parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 22f76ff..6e3b4ba 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -463,8 +463,8 @@ static bool parse_solid(
             return false;
         }
     }
-    if (!expect_err(p, K_ENDSOLID)) {
-        return false;
+    if (p->tok_type != K_ENDSOLID) {
+        return expect_err(p, K_ENDSOLID);
     }
     tok_next_line(p);
     tok_next(p);
-- 
2.43.0


From e2750173ca02a4b3f0d4384da33c41f18cca1b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 040/106] fix: 'include' was rejected at top level

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index f75b4d7..136f446 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -930,7 +930,7 @@ static bool parse_stmt_list(
             }
             break;}
         default:
-            if (p->c.tok.type & _T_KEY) {
+            if ((p->c.tok.type & _T_KEY) && (p->c.tok.type != K_INCLUDE)) {
                 return true;
             }
             if (!parse_item_push_stmt(p, r)) {
-- 
2.43.0


From 3dea3523bbb48d34331ce9e46a590ba6d62912d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 041/106] fix: 'include' without a path tried to open the next
 token as a file

---
 src/hob3l/syn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 136f446..fec87ec 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -884,6 +884,9 @@ static bool parse_item_push_stmt_item(
     sieve(p);
     if (expect(p, K_INCLUDE)) {
         tok_path(p);
+        if (p->c.tok.type != T_PATH) {
+            return expect_err(p, T_PATH);
+        }
         return parse_include_push_stmt_item(p, r, p->c.tok.string);
     }
     cp_syn_stmt_item_t *f = cp_syn_new(*f, p->c.tok.string);
-- 
2.43.0


From e41194bb751bdc09f17d4a76110fef7e953cc334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 042/106] fix: input files were never closed, so a program
 could not include or import many files

---
 src/hob3l/syn.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index fec87ec..8d6db96 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -32,6 +32,9 @@
 #define K_MODULE    (_T_KEY + 3) /* 'module' */
 #define K_FUNCTION  (_T_KEY + 4) /* 'function' */
 
+/* Maximum nesting of include files (files may include themselves). */
+#define MAX_INCLUDE_DEPTH 1000
+
 typedef struct {
     char cur;
     char *string;
@@ -55,6 +58,7 @@ typedef struct {
     cp_err_t *err;
     cp_syn_input_t *input;
     parse_ctxt_t c;
+    size_t include_depth;
 } parse_t;
 
 static void tok_next(parse_t *p);
@@ -851,6 +855,13 @@ static bool parse_include_push_stmt_item(
     cp_v_syn_stmt_item_p_t *r,
     char const *fn)
 {
+    if (p->include_depth >= MAX_INCLUDE_DEPTH) {
+        cp_vchar_printf(&p->err->msg, "Include files are nested too deeply.\n");
+        p->err->loc = p->c.tok.loc;
+        return false;
+    }
+    p->include_depth++;
+
     cp_syn_file_t *file = CP_NEW(*file);
     if (!cp_syn_read(file, p->err, p->input, p->c.tok.loc, fn, NULL)) {
         assert(p->err->msg.size > 0);
@@ -871,6 +882,7 @@ static bool parse_include_push_stmt_item(
     }
 
     end_file(p, &prev);
+    p->include_depth--;
     return true;
 }
 
@@ -1000,7 +1012,8 @@ static bool read_file(
     }
 
     cp_vchar_printf(&f->filename, "%s%s", cp_vchar_cstr(&dir), filename);
-    if (file == NULL) {
+    bool opened = (file == NULL);
+    if (opened) {
         (void)cp_vchar_cstr(&f->filename);
         file = fopen(f->filename.data, "rb");
         if (file == NULL) {
@@ -1028,10 +1041,18 @@ static bool read_file(
             cp_vchar_printf(&err->msg, "File read error: %s.\n",
                 strerror(ferror(f->file)));
             err->loc = include_loc;
+            if (opened) {
+                (void)fclose(file);
+                f->file = NULL;
+            }
             return false;
         }
         cp_vchar_append_arr(&f->content, buff, cnt);
     }
+    if (opened) {
+        (void)fclose(file);
+        f->file = NULL;
+    }
     size_t z = f->content.size;
     cp_vchar_push(&f->content, '\0');
     f->content.size = z;
-- 
2.43.0


From 1fb01ff58a4bc60ca487614abde51411e93964e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 043/106] fix: a read error of an input file was reported with
 the text of a different error

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 8d6db96..4b4cf0b 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1039,7 +1039,7 @@ static bool read_file(
                 break;
             }
             cp_vchar_printf(&err->msg, "File read error: %s.\n",
-                strerror(ferror(f->file)));
+                strerror(errno));
             err->loc = include_loc;
             if (opened) {
                 (void)fclose(file);
-- 
2.43.0


From 6cf655280036d55194618870b33354465c794660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 044/106] fix: XML reader ran forever at the end of file in a
 tag and accepted empty names

---
 src/hob3l/xml-parse.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9a60ef5..44f4ecb 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -14,8 +14,6 @@ typedef struct {
     char *loc;
     char *str_next;
     char *str_end;
-
-    char *tok_start;
 } parse_t;
 
 typedef struct ctxt ctxt_t;
@@ -177,7 +175,7 @@ static bool maybe_tag_begin(unsigned c)
 
 static bool is_tag_char(unsigned c)
 {
-    if (cp_xml_is_space(c)) {
+    if ((c == 0) || cp_xml_is_space(c)) {
         return false;
     }
     if (c > 0x7f) {
@@ -203,8 +201,8 @@ static char *parse_tag(
             TRY(lex_next(p));
         }
     }
-    if (p->tok_start == p->loc) {
-        ERR(p, p->tok_start, "Expected a tag name.\n");
+    if (tok == p->loc) {
+        ERR(p, tok, "Expected a tag name.\n");
     }
 
     /* NUL terminate */
-- 
2.43.0


From e7085b36f6996e8f5f497a30ba08860923a67184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 045/106] fix: XML reader ran forever if a comment was not
 terminated

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 44f4ecb..4fb2278 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -441,6 +441,9 @@ static bool skip_comment(
             TRY(expect(p, "-->"));
             return true;
         }
+        if (p->cur == 0) {
+            ERR(p, p->loc, "Unexpected end of file in comment");
+        }
         TRY(lex_next(p));
     }
 }
-- 
2.43.0


From 6cc0634f083fefc913c017fff5269822ffb97f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 046/106] fix: XML reader crashed if a namespace declaration
 had no value

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 4fb2278..8a90708 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -419,6 +419,12 @@ static bool parse_attr_list(
         }
         assert(attr->next == NULL);
 
+        if ((attr->child == NULL) &&
+            strequ(attr->ns_prefix ? attr->ns_prefix : attr->data, "xmlns"))
+        {
+            ERR(p, attr->loc, "Expected a value for '%s'.\n", attr->data);
+        }
+
         if ((attr->ns_prefix != NULL) && strequ(attr->ns_prefix, "xmlns")) {
             attr->next = c->ns_map;
             c->ns_map = attr;
-- 
2.43.0


From fd6d088ad10b3e3f8d52211c2ce7f3bc602ef050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 047/106] fix: XML reader rejected attributes like 'xml:space',
 whose prefix is predefined

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 8a90708..ab7497c 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -543,6 +543,12 @@ static bool find_ns(
         }
     }
 
+    /* this prefix is always defined */
+    if (strequ(ns_prefix, "xml")) {
+        *nsp = "http://www.w3.org/XML/1998/namespace";
+        return true;
+    }
+
     ERR(p, ns_prefix, "Namespace prefix '%s' not found.\n", ns_prefix);
     return true;
 }
-- 
2.43.0


From de1a1dd1bbe8e061c5ffc53197719361241dfdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 048/106] fix: XML reader could not match the end tag of an
 element with a non-ASCII name

---
 src/hob3l/xml-parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index ab7497c..815776a 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -226,8 +226,8 @@ static bool expect(
 {
     cp_loc_t loc = p->loc;
     char const *s_orig = s;
-    for (; *s; s++) {
-        if (p->cur != (unsigned char)*s) {
+    while (*s) {
+        if (p->cur != cp_utf8_take(&s)) {
             ERR(p, loc, "Expected '%s'", s_orig);
         }
         TRY(lex_next(p));
-- 
2.43.0


From ab42c0342876669f59ecdf221560e8d63741c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 049/106] fix: XML reader accepted character references out of
 range if they wrapped around

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 815776a..31b9f78 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -252,6 +252,9 @@ static bool read_num(unsigned *np, parse_t *p, unsigned base)
             break;
         }
         n = (n * base) + val;
+        if (n > 0x10ffff) {
+            n = 0x110000; /* out of range, avoid overflow */
+        }
         TRY(lex_next(p));
     }
     *np = n;
-- 
2.43.0


From beee72cd208254385e84098e4ad192fa667da360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 050/106] fix: XML reader rejected white space around the '='
 of an attribute

---
 src/hob3l/xml-parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 31b9f78..a37a141 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -386,10 +386,11 @@ static bool parse_attr(
     r->ns_prefix = nsp;
 
     /* if no = follows, then we assume x="x" */
+    TRY(skip_space(p));
     if (p->cur != '=') {
         return true;
     }
-    TRY(lex_next(p));
+    TRY(lex_next(p) && skip_space(p));
 
     /* expect " or ' */
     unsigned delim = p->cur;
-- 
2.43.0


From afec5cb68e2fa5b3b0f1b75b912b37990c0180ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 051/106] fix: XML reader rejected a document type after a
 comment

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index a37a141..73e8196 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -632,6 +632,9 @@ static bool parse_doc(
         TRY(expect(p, "?>"));
     }
     TRY(skip_space(p));
+    while ((p->cur == '<') && strpref(p->str_next, "!--")) {
+        TRY(expect(p, "<!--") && skip_comment(p) && skip_space(p));
+    }
 
     /* parse <!DOCTYPE ...>; allow and ignore this */
     if ((p->cur == '<') && strpref(p->str_next, "!DOCTYPE")) {
-- 
2.43.0


From 48b399ec74405d39d8ee4ccd12a3deb04f2874b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 052/106] fix: XML reader ignored everything after a NUL
 character

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 73e8196..6098a93 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -126,6 +126,9 @@ static bool lex_next(
     if (iter.error_msg != NULL) {
         ERR(p, p->loc, "UTF-8 decoding error: %s\n", iter.error_msg);
     }
+    if ((p->cur == 0) && (iter.size > 0)) {
+        ERR(p, p->loc, "Unexpected NUL character.\n");
+    }
     p->str_next += iter.data - p->str_next;
     return true;
 }
-- 
2.43.0


From 939c0d1701a78b820ebc9f6cfc851474ca94f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 053/106] fix: XML reader rejected a comment in front of an end
 tag

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 6098a93..783e482 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -509,6 +509,12 @@ static bool parse_content_list(
     char const *tag)
 {
     for (;;) {
+        /* comment: may be followed by an end tag */
+        if ((p->cur == '<') && strpref(p->str_next, "!--")) {
+            TRY(expect(p, "<!--") && skip_comment(p));
+            continue;
+        }
+
         /* end tag */
         if ((tag != NULL) && (p->cur == '<') && (*p->str_next == '/')) {
             TRY(lex_next(p) && lex_next(p));
-- 
2.43.0


From 3f54a759aea4b80bd36d73bb43dec275a4dbe9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 054/106] fix: SVG import aborted if a path draws nothing

---
 src/hob3l/svg-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c968d0a..95cd0c0 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -346,6 +346,9 @@ static void path_fini(
     cp_loc_t loc)
 {
     path_end(p, loc);
+    if (p->poly == NULL) {
+        return; /* nothing was drawn */
+    }
     path_uniquify(p);
 
     if (p->poly->point.size < 3) {
-- 
2.43.0


From 34f1d8b2e4405ae8748ac75dd7361a999e021212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 055/106] fix: SVG import continued at the wrong point after
 'Z' directly after 'M'

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 95cd0c0..32515d7 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -464,6 +464,8 @@ static void path_move(
     }
     path_end(p, loc);
     path_cur(p, loc, x, y, 0,0,0);
+    p->init_x = x;
+    p->init_y = y;
 }
 
 static inline void path_quad_abs(
-- 
2.43.0


From d61c5860ce0b1d50ec2cc4171805583ed4483ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 056/106] fix: SVG import reflected the control point of a
 curve before an empty line or arc

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 32515d7..01d146c 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -406,6 +406,7 @@ static inline void path_line_abs(
     double y)
 {
     if (cp_eq(p->cur_x, x) && cp_eq(p->cur_y, y)) {
+        p->prev_cmd = 0;
         return;
     }
     path_start(p, loc);
@@ -669,6 +670,7 @@ static inline void path_arc_abs(
 
     /* 9.5.1 */
     if (cp_eq(p->cur_x, x2) && cp_eq(p->cur_y, y2)) {
+        p->prev_cmd = 0;
         return;
     }
 
-- 
2.43.0


From 1a59a37750e217bfbbe931f522ab3b284268c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 057/106] fix: SVG import accepted arcs with flags other than 0
 and 1

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 01d146c..1591c17 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -969,7 +969,7 @@ static bool s_bool(
         *rp = true;
         return true;
     }
-    return true;
+    return false;
 }
 
 static inline bool s_coord(
-- 
2.43.0


From d6c298b7049a340170ae73187b78f3e5a3d4396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 058/106] fix: SVG import rejected numbers with a signed
 exponent

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 1591c17..351aaac 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -924,7 +924,7 @@ static char const *s_str_float(
     if ((*s == 'e') || (*s == 'E')) {
         char const *t = s;
         t++;
-        (void)(s_expect_raw(&s, "-") || s_expect_raw(&s, "+"));
+        (void)(s_expect_raw(&t, "-") || s_expect_raw(&t, "+"));
         bool have_exp = false;
         while ((*t >= '0') && (*t <= '9')) {
             have_exp = true;
-- 
2.43.0


From 29807f07d0a5a985dcf6a7dcdce40da44d5d4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 059/106] fix: SVG import crashed on circles and ellipses
 without any attributes

---
 src/hob3l/svg-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 351aaac..bc4bb20 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1795,6 +1795,9 @@ static bool csg2_from_obj(
     callback_t callback)
 {
     cp_xml_t *x = parent->child;
+    if (x == NULL) {
+        return true; /* no attributes => nothing to draw */
+    }
     local_t c1;
     process_std_attr(&c, &c1, p, x);
 
-- 
2.43.0


From 08893e59715e5239f2b2780ec2f95c53208bd486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 060/106] fix: SVG import accepted prefixes of the names of
 transform functions

---
 src/hob3l/svg-parse.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index bc4bb20..30b7196 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1327,6 +1327,14 @@ static void xform_apply(
     cp_mat2wi_mul(&n->mat, &n->mat, m1);
 }
 
+static bool is_cmd(
+    char const *cmd,
+    size_t cmd_len,
+    char const *name)
+{
+    return (cmd_len == strlen(name)) && strnequ(cmd, name, cmd_len);
+}
+
 static bool xform_cmd(
     local_t const **c,
     local_t *n,
@@ -1358,7 +1366,7 @@ static bool xform_cmd(
     cp_mat2wi_t m1;
     switch (*cmd) {
     case 't':
-        if (strnequ(cmd, "translate", cmd_len)) {
+        if (is_cmd(cmd, cmd_len, "translate")) {
             if (val_n > 2) {
                 WARN(p, cmd, "Too many arguments for 'translate': %zu.", val_n);
                 return false;
@@ -1370,7 +1378,7 @@ static bool xform_cmd(
         break;
 
     case 's':
-        if (strnequ(cmd, "scale", cmd_len)) {
+        if (is_cmd(cmd, cmd_len, "scale")) {
             if (val_n > 2) {
                 WARN(p, cmd, "Too many arguments for 'scale': %zu.", val_n);
                 return false;
@@ -1382,7 +1390,7 @@ static bool xform_cmd(
             xform_apply(c, n, &m1);
             return true;
         }
-        if (strnequ(cmd, "skewX", cmd_len)) {
+        if (is_cmd(cmd, cmd_len, "skewX")) {
             if (val_n > 1) {
                 WARN(p, cmd, "Too many arguments for 'skewX': %zu.", val_n);
                 return false;
@@ -1394,7 +1402,7 @@ static bool xform_cmd(
             xform_apply(c, n, &m1);
             return true;
         }
-        if (strnequ(cmd, "skewY", cmd_len)) {
+        if (is_cmd(cmd, cmd_len, "skewY")) {
             if (val_n > 1) {
                 WARN(p, cmd, "Too many arguments for 'skewY': %zu.", val_n);
                 return false;
@@ -1409,7 +1417,7 @@ static bool xform_cmd(
         break;
 
     case 'r':
-        if (strnequ(cmd, "rotate", cmd_len)) {
+        if (is_cmd(cmd, cmd_len, "rotate")) {
             if (val_n > 3) {
                 WARN(p, cmd, "Too many arguments for 'rotate': %zu.", val_n);
                 return false;
@@ -1429,7 +1437,7 @@ static bool xform_cmd(
         break;
 
     case 'm':
-        if (strnequ(cmd, "matrix", cmd_len)) {
+        if (is_cmd(cmd, cmd_len, "matrix")) {
             if (val_n > 6) {
                 WARN(p, cmd, "Too many arguments for 'matrix': %zu.", val_n);
                 return false;
-- 
2.43.0


From c3a63ed83381ed6b966d84c7b5163a94532b8fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 061/106] fix: SVG import ignored y, cy or height if x, cx or
 width was not given

---
 src/hob3l/svg-parse.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 30b7196..0455d00 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1112,9 +1112,9 @@ static bool s_attr_coord(
 {
     *xp = 0.0;
     *yp = 0.0;
-    return
-        s_attr_dim(xp, xml, namex, c->width,  1) &&
-        s_attr_dim(yp, xml, namey, c->height, 1);
+    bool have_x = s_attr_dim(xp, xml, namex, c->width,  1);
+    bool have_y = s_attr_dim(yp, xml, namey, c->height, 1);
+    return have_x && have_y;
 }
 
 static bool s_attr_size(
-- 
2.43.0


From 1861f0ede65f42de2fd200d9d0f796ded0b2044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 062/106] fix: SVG import found layers only at elements with a
 transform attribute

---
 src/hob3l/svg-parse.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 0455d00..74c928b 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1467,15 +1467,14 @@ static void process_std_attr(
 {
     /* process transform commands */
     char const *s = s_attr_str(xml, "transform");
-    if (s == NULL) {
-        return;
-    }
-    s_sep(&s, SPACE);
-    while (*s != 0) {
-        if (!xform_cmd(c, n, p, &s)) {
-            return;
+    if (s != NULL) {
+        s_sep(&s, SPACE);
+        while (*s != 0) {
+            if (!xform_cmd(c, n, p, &s)) {
+                break;
+            }
+            s_sep(&s, COMMA);
         }
-        s_sep(&s, COMMA);
     }
 
     /* compare layer with `id` attribute in SVG, like InkScape stores it. */
-- 
2.43.0


From 1657359e8a17fbae3ad54a3fac6a07c4d4e86fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 063/106] fix: SVG import aligned the viewBox wrongly unless
 preserveAspectRatio was 'none'

---
 src/hob3l/svg-parse.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 74c928b..73ef0c9 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1030,10 +1030,12 @@ static void svg_xform(
 
     s_expect(&pas, "defer");
 
-    /* 0 = min, 0.5 = mid, 1 = max, <0 = none */
+    /* 0 = min, 0.5 = mid, 1 = max, <0 = not given */
     double align_x = match_align(pas, "xMin", "xMid", "xMax");
     double align_y = match_align(pas, "YMin", "YMid", "YMax");
-    bool do_align = (align_x < 0) && (align_y < 0);
+    bool do_align = (strstr(pas, "none") == NULL);
+    if (align_x < 0) { align_x = 0.5; } /* default is xMidYMid */
+    if (align_y < 0) { align_y = 0.5; }
     bool slice = (strstr(pas, "slice") != NULL);
 
     double scale_x = cp_div0(ew, vw);
-- 
2.43.0


From 467efefc94205b55779bba3dcb43982c8207114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 064/106] fix: SVG import dropped polygons and polylines with
 an error in the list of points

---
 src/hob3l/svg-parse.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 73ef0c9..ca3185d 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1751,8 +1751,7 @@ static bool csg2_from_polyline(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    (void)str_path_coord1(&q, &s, ABS, path_move, path_line);
     path_fini(&q, s);
     return true;
 }
@@ -1765,8 +1764,7 @@ static bool csg2_from_polygon(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    (void)str_path_coord1(&q, &s, ABS, path_move, path_line);
     path_close(&q, s);
     path_fini(&q, s);
     return true;
-- 
2.43.0


From d4059bf11074f9de0cffc1ac6a955dc0d53c4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 065/106] fix: SVG import centered only with a size and used an
 uninitialised size without viewBox, and shifted by the viewBox instead of the
 viewport

---
 src/hob3l/svg-parse.c | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index ca3185d..0e041ae 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1574,6 +1574,17 @@ static bool csg2_from_svg(
             &CP_MAT2WI_SCALE1(have_size ? U_PX_MM : U_DPI_MM(c0->dpi)));
     }
 
+    /* At top level, have a coordinate shift to put the viewport in positive
+     * coordinates, and apply centering, if requested (we're not clipping). */
+    if (have_viewBox && c0->toplevel) {
+        double pw = have_size ? ew : vw;
+        double ph = have_size ? eh : vh;
+        xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -ph));
+        if (c0->center) {
+            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-pw/2, +ph/2));
+        }
+    }
+
     /* scale only if we have all params: we have no external size limit */
     if (have_size && have_viewBox) {
         c1.width = vw;
@@ -1585,25 +1596,6 @@ static bool csg2_from_svg(
         xform_apply(&c, &c1, &m1);
     }
 
-    /* apply centering, if requested and possible (we're not clipping, so we
-     * can do it late (i.e., only now)*/
-    if (c0->center) {
-        if (have_ew) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-vw/2, 0));
-        }
-        if (have_eh) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, +vh/2));
-        }
-    }
-
-    /* At top level, have a coordinate shift to put the SVG in
-     * positive coordinates */
-    if (c0->toplevel) {
-        if (have_viewBox) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -vh));
-        }
-    }
-
     /* recurse */
     return callback(r, p, c, x);
 }
-- 
2.43.0


From f191378b36f913a7bfee402b728816ce98ae0a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 066/106] fix: SVG import did not relate percentages to the
 viewBox if there was no size, nor to a nested viewport without viewBox

---
 src/hob3l/svg-parse.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 0e041ae..1715604 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1574,6 +1574,17 @@ static bool csg2_from_svg(
             &CP_MAT2WI_SCALE1(have_size ? U_PX_MM : U_DPI_MM(c0->dpi)));
     }
 
+    /* set the reference for percentages */
+    if (have_viewBox) {
+        c1.width = vw;
+        c1.height = vh;
+    }
+    else if (have_size && !c0->toplevel) {
+        c1.width = ew;
+        c1.height = eh;
+    }
+    c1.dim = sqrt((c1.width*c1.width + c1.height*c1.height) / 2);
+
     /* At top level, have a coordinate shift to put the viewport in positive
      * coordinates, and apply centering, if requested (we're not clipping). */
     if (have_viewBox && c0->toplevel) {
@@ -1587,10 +1598,6 @@ static bool csg2_from_svg(
 
     /* scale only if we have all params: we have no external size limit */
     if (have_size && have_viewBox) {
-        c1.width = vw;
-        c1.height = vh;
-        c1.dim = sqrt((vw*vw + vh*vh) / 2);
-
         cp_mat2wi_t m1;
         svg_xform(&m1, vx, vy, vw, vh, 0, 0, ew, eh, pas);
         xform_apply(&c, &c1, &m1);
-- 
2.43.0


From d4a81c096233b1d14ddea95bdf4fc27fcc75443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 067/106] fix: detect partial writes of binary output and
 report the right reason of a failed write

---
 src/hob3lbase/stream.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hob3lbase/stream.c b/src/hob3lbase/stream.c
index f4fbc38..cc15ece 100644
--- a/src/hob3lbase/stream.c
+++ b/src/hob3lbase/stream.c
@@ -1,6 +1,7 @@
 /* -*- Mode: C -*- */
 /* Copyright (C) 2018-2024 by Henrik Theiling, License: GPLv3, see LICENSE file */
 
+#include <errno.h>
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 
@@ -29,7 +30,7 @@ extern void cp_stream_vfprintf(
     int i = vfprintf(f, form, va);
     if (i < 0) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
 
@@ -42,8 +43,8 @@ extern void cp_stream_fwrite(
     size_t size)
 {
     size_t i = fwrite(buff, 1, size, f);
-    if (i == 0) {
+    if (i < size) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
-- 
2.43.0


From e2477aca135add3890dee51287504693aa710b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 068/106] fix: report the right reason if closing the output
 file fails

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 4a2a908..f0678a7 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -799,7 +799,7 @@ int main(int argc, char **argv)
     if (fout != NULL) {
         if (fclose(fout) != 0) {
             cp_panic(CP_FILE, CP_LINE, "Unable to close output file '%s': %s\n",
-                opt.out_file_name, strerror(ferror(fout)));
+                opt.out_file_name, strerror(errno));
         }
     }
 
-- 
2.43.0


From 6ee769cabe6d524f72a080ddbcdc95f3f7d44be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 069/106] fix: report failures of writing to standard output

---
 src/hob3l/main.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index f0678a7..ec3f0b5 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -410,6 +410,18 @@ static char const *cp_prog_name(void)
 
 static char const *opt_help;
 
+/**
+ * Make sure that what was printed has really been written.
+ */
+static void flush_stdout(void)
+{
+    if ((fflush(stdout) != 0) || ferror(stdout)) {
+        fprintf(stderr, "Error: Unable to write standard output: %s\n",
+            strerror(errno));
+        exit(EXIT_FAILURE);
+    }
+}
+
 CP_NORETURN
 static void help(void)
 {
@@ -424,6 +436,7 @@ static void help(void)
     PRI("Options:\n");
     PRI("%s", opt_help);
 #undef PRI
+    flush_stdout();
     exit(0);
 }
 
@@ -818,5 +831,6 @@ int main(int argc, char **argv)
         exit(EXIT_FAILURE);
     }
 
+    flush_stdout();
     exit(EXIT_SUCCESS);
 }
-- 
2.43.0


From d544c2668d7b122549ff1255de3cb2846e35a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 070/106] fix: reject SCAD files that are nested too deeply
 instead of overflowing the stack

---
 src/hob3l/syn.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 4b4cf0b..d0f7f03 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -35,6 +35,9 @@
 /* Maximum nesting of include files (files may include themselves). */
 #define MAX_INCLUDE_DEPTH 1000
 
+/* Maximum nesting of statements and of arrays (all later passes, too, recurse). */
+#define MAX_NEST_DEPTH 2000
+
 typedef struct {
     char cur;
     char *string;
@@ -59,6 +62,7 @@ typedef struct {
     cp_syn_input_t *input;
     parse_ctxt_t c;
     size_t include_depth;
+    size_t nest_depth;
 } parse_t;
 
 static void tok_next(parse_t *p);
@@ -586,6 +590,25 @@ static bool parse_new_string(
     return parse_string(p, v);
 }
 
+static bool nest_begin(
+    parse_t *p)
+{
+    if (p->nest_depth >= MAX_NEST_DEPTH) {
+        cp_vchar_printf(&p->err->msg, "Nesting is too deep.\n");
+        p->err->loc = p->c.tok.loc;
+        return false;
+    }
+    p->nest_depth++;
+    return true;
+}
+
+static bool nest_end(
+    parse_t *p)
+{
+    p->nest_depth--;
+    return true;
+}
+
 /**
  * Either a range ([a:b] or [a:b:c]) or an array ([], [a], [a,b], [a,b,c,...])
  *
@@ -684,7 +707,7 @@ static bool parse_value(
         return parse_new_id(p, r);
 
     case '[':
-        return parse_new_range_or_array(p, r);
+        return nest_begin(p) && parse_new_range_or_array(p, r) && nest_end(p);
 
     default:
         if (!have_err_msg(p)) {
@@ -903,7 +926,7 @@ static bool parse_item_push_stmt_item(
     }
     cp_syn_stmt_item_t *f = cp_syn_new(*f, p->c.tok.string);
     cp_v_push(r, f);
-    return parse_stmt_item(p, f);
+    return nest_begin(p) && parse_stmt_item(p, f) && nest_end(p);
 }
 
 static bool parse_item_push_stmt(
-- 
2.43.0


From 88a864b01d09c209fb5a1d3825f84aae891a8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 071/106] fix: reject XML that is nested too deeply instead of
 overflowing the stack

---
 src/hob3l/xml-parse.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 783e482..7e669bc 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -28,8 +28,12 @@ struct ctxt {
 
     /** default namespace */
     char const *ns_default;
+    size_t depth;
 };
 
+/* Maximum nesting of elements (this parser and its clients recurse). */
+#define MAX_NEST_DEPTH 5000
+
 char const cp_xml_any_[] = "--match anything--";
 
 /* ********************************************************************** */
@@ -598,8 +602,12 @@ static bool parse_elem(
     r->ns_prefix = nsp;
     r->data = tag;
 
+    if (co->depth >= MAX_NEST_DEPTH) {
+        ERR(p, loc, "Nesting is too deep");
+    }
     ctxt_t *c = &(ctxt_t){
         .prev = co,
+        .depth = co->depth + 1,
         .bottom = &r->child,
         .ns_default = co->ns_default,
         .ns_map = co->ns_map,
-- 
2.43.0


From 658f61ea556b05b8e5245e4b82775ea72dece31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 072/106] fix: reject numbers in SCAD files that are too large,
 infinity caused assertion failures

---
 src/hob3l/syn.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index d0f7f03..519ccfd 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -536,6 +536,11 @@ static bool parse_float(
 {
     assert(r->type == CP_SYN_VALUE_FLOAT);
     r->value = strtod(p->c.tok.string, NULL);
+    if (!cp_isfinite(r->value)) {
+        cp_vchar_printf(&p->err->msg, "Number is too large.\n");
+        p->err->loc = p->c.tok.loc;
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From e3053adc43bfe71e86f903fd2453f91b45071ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 073/106] fix: reject --max-fn below 3 instead of failing an
 assertion

---
 src/hob3l/opt.switch | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 34454fa..16791a7 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -78,6 +78,13 @@ case "max-fn": uint32 &opt->csg.max_fn {
     "and not converted to polyhedra.";
     "Currently, because no output format has circular arc structures, no attempt";
     "was made to produce read arcs.  So circles are still approximated by polygons.";
+    "(minimum: 3)";
+
+    if (opt->csg.max_fn < 3) {
+        fprintf(stderr, "Error: --max-fn=N: N must be >=3, found %u.\n",
+            opt->csg.max_fn);
+        exit(EXIT_FAILURE);
+    }
 }
 
 case "opt-no-skip-empty": bool neg_bool &a {
-- 
2.43.0


From ea29534ebbeb78652e20fb5a05fe1dd284684fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 074/106] fix: reject --no-csg with STL, JS and SCAD output
 instead of failing an assertion

---
 src/hob3l/main.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index ec3f0b5..19f5565 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -802,6 +802,20 @@ int main(int argc, char **argv)
         }
     }
 
+    if (opt.no_csg) {
+        switch (opt.dump) {
+        case DUMP_STL:
+        case DUMP_STLA:
+        case DUMP_STLB:
+        case DUMP_JS:
+        case DUMP_CSG2:
+            fprintf(stderr, "Error: STL, JS, and SCAD output are not possible with --no-csg\n");
+            exit(EXIT_FAILURE);
+        default:
+            break;
+        }
+    }
+
     /* process files */
     cp_err_t *err = CP_NEW(*err);
     cp_syn_input_t *input = CP_NEW(*input);
-- 
2.43.0


From 54b8db0dcda4ef8dc2c91597109bc303b0583f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 075/106] fix: reject numbers in SVG files that are too large,
 infinity caused assertion failures

---
 src/hob3l/svg-parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 1715604..0a9257e 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -948,6 +948,7 @@ static bool s_double(
     char *ep = NULL;
     double r = strtod(*sp, &ep);
     TRY(ep == se);
+    TRY(cp_isfinite(r));
     *rp = r;
     *sp = se;
     return true;
-- 
2.43.0


From ed166c2991ff5e433f36617260d178355b35d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 076/106] fix: integers in SCAD files that do not fit 64 bits
 silently became the largest one

---
 src/hob3l/syn.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 519ccfd..6850019 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -3,6 +3,7 @@
 
 /* SCAD parser */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -521,15 +522,6 @@ static bool parse_id(
     return expect_err(p, T_ID);
 }
 
-static bool parse_int(
-    parse_t *p,
-    cp_syn_value_int_t *r)
-{
-    assert(r->type == CP_SYN_VALUE_INT);
-    r->value = strtoll(p->c.tok.string, NULL, 10);
-    return expect_err(p, T_INT);
-}
-
 static bool parse_float(
     parse_t *p,
     cp_syn_value_float_t *r)
@@ -568,22 +560,31 @@ static bool parse_new_id(
     return expect_err(p, T_ID);
 }
 
-static bool parse_new_int(
+static bool parse_new_float(
     parse_t *p,
     cp_syn_value_t **rp)
 {
-    cp_syn_value_int_t *v = cp_syn_new(*v, p->c.tok.loc);
+    cp_syn_value_float_t *v = cp_syn_new(*v, p->c.tok.loc);
     *rp = cp_syn_cast(**rp, v);
-    return parse_int(p, v);
+    return parse_float(p, v);
 }
 
-static bool parse_new_float(
+static bool parse_new_int(
     parse_t *p,
     cp_syn_value_t **rp)
 {
-    cp_syn_value_float_t *v = cp_syn_new(*v, p->c.tok.loc);
+    errno = 0;
+    long long value = strtoll(p->c.tok.string, NULL, 10);
+    if (errno == ERANGE) {
+        /* too large for an integer */
+        p->c.tok.type = T_FLOAT;
+        return parse_new_float(p, rp);
+    }
+
+    cp_syn_value_int_t *v = cp_syn_new(*v, p->c.tok.loc);
     *rp = cp_syn_cast(**rp, v);
-    return parse_float(p, v);
+    v->value = value;
+    return expect_err(p, T_INT);
 }
 
 static bool parse_new_string(
-- 
2.43.0


From 92659fd1a297259861a5345ec192d5eff59d1721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 077/106] fix: reject a --step that is not positive, it
 silently gave a single layer

---
 src/hob3l/main.c     | 14 ++++++++++++++
 src/hob3l/opt.switch |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 19f5565..4f6b732 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -543,6 +543,20 @@ static void get_arg_dim(
     *v = v1;
 }
 
+static void get_arg_dim_pos(
+    cp_dim_t *v,
+    char const *arg,
+    char const *str)
+{
+    cp_dim_t x = 0;
+    get_arg_dim(&x, arg, str);
+    if (!(x > 0)) {
+        fprintf(stderr, "Error: %s: number must be positive: '%s'\n", arg, str);
+        exit(EXIT_FAILURE);
+    }
+    *v = x;
+}
+
 static void get_arg_size(
     size_t *v,
     char const *arg,
diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 16791a7..44c143d 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -61,7 +61,7 @@ case "max": dim &opt->z_max {
     opt->have_z_max = true;
 }
 
-case "step": dim &opt->z_step {
+case "step": dim_pos &opt->z_step {
     "thickness of slice [mm] (default: 0.2)";
 }
 
-- 
2.43.0


From 6bce29b12477f19009ed764cc6ebf56715e7d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 078/106] fix: reject a number of layers that is too large, a
 number above 2^63 silently gave a single layer

---
 src/hob3l/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 4f6b732..3139b69 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -19,6 +19,11 @@
 #define CP_PROG_NAME "hob3l"
 #endif
 
+/**
+ * Maximum number of layers, to reject step sizes that cannot work
+ */
+#define MAX_LAYER_CNT 1e9
+
 typedef enum {
     DUMP_NONE,
     DUMP_SYN,
@@ -291,6 +296,12 @@ static bool do_file(
         z_max = opt->z_max;
     }
 
+    if (((z_max - z_min) / opt->z_step) > MAX_LAYER_CNT) {
+        cp_vchar_printf(&err->msg, "Too many layers: min=%g, step=%g, max=%g.\n",
+            z_min, opt->z_step, z_max);
+        return false;
+    }
+
     cp_range_t range;
     cp_range_init(&range, z_min, z_max, opt->z_step);
     if (range.cnt == 0) {
-- 
2.43.0


From a73bf593ce2092632e10194124e5d79311716d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 079/106] fix: reject negative --grid, --gran, --eps and --eps2

---
 src/hob3l/main.c     | 14 ++++++++++++++
 src/hob3l/opt.switch |  8 ++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 3139b69..651ff26 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -568,6 +568,20 @@ static void get_arg_dim_pos(
     *v = x;
 }
 
+static void get_arg_dim_pos0(
+    cp_dim_t *v,
+    char const *arg,
+    char const *str)
+{
+    cp_dim_t x = 0;
+    get_arg_dim(&x, arg, str);
+    if (!(x >= 0)) {
+        fprintf(stderr, "Error: %s: number must not be negative: '%s'\n", arg, str);
+        exit(EXIT_FAILURE);
+    }
+    *v = x;
+}
+
 static void get_arg_size(
     size_t *v,
     char const *arg,
diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 44c143d..a1f2870 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -110,7 +110,7 @@ case "max-simultaneous": size &opt->csg.max_simultaneous {
         exit(EXIT_FAILURE);
     }
 }
-case "grid": dim &cq_dim_scale {
+case "grid": dim_pos0 &cq_dim_scale {
     "maximum rasterization granularity, i.e., the grid of integer coordinates [1/mm] (default: "CP_STRINGIFY(CP_DIM_SCALE_DEFAULT)").";
     "This should be a power of two to minimze rounding errors.";
     "This allows number formats like '2^13' to ease setting a sensible value.\n";
@@ -138,7 +138,7 @@ case "auto-grid-max": {
     "To also scale up automatically, set --grid=0\n";
     opt->auto_scale = AUTO_SCALE_INT;
 }
-case "gran": dim &opt->cq_dim_scale_recip {
+case "gran": dim_pos &opt->cq_dim_scale_recip {
     "rasterization granularity for point coordinates [mm] (default: 0x1p-13).";
     "Use a reciprocal of a power of two here to minimze rounding errors.";
     "This is the reciprocal value of the --grid option, i.e., --gran 0x1p-13 is";
@@ -146,12 +146,12 @@ case "gran": dim &opt->cq_dim_scale_recip {
     "This allows number formats like '1/8192' or '2^-20'to ease setting a sensible value.\n";
     "This is deprecated, use the --grid option instead.";
 }
-case "eps": dim &cp_eq_epsilon {
+case "eps": dim_pos0 &cp_eq_epsilon {
     "general comparison epsilon (default: 0x1p-15)";
     "This should be largely of any consequence these days, as the core algorithms";
     "now use exact integer math.";
 }
-case "eps2": dim &cp_sqr_epsilon {
+case "eps2": dim_pos0 &cp_sqr_epsilon {
     "comparison epsilon for squared dimensions (default: 0x1p-30)";
     "This should be largely of any consequence these days, as the core algorithms";
     "now use exact integer math.";
-- 
2.43.0


From fba3fee096a5073346b429c4acd4916a71911aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 080/106] fix: --gran was ignored below --eps, and the last of
 --gran and --grid did not win

---
 src/hob3l/main.c     | 4 ----
 src/hob3l/opt.switch | 3 ++-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 651ff26..ef7ecc2 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -62,7 +62,6 @@ typedef struct {
     cp_scad_opt_t scad;
     bool prefer_stl_bin;
     unsigned auto_scale;
-    double cq_dim_scale_recip;
 } cp_opt_t;
 
 static bool next_i(
@@ -772,9 +771,6 @@ int main(int argc, char **argv)
     }
 
     /* post-process options */
-    if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
-        cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
-    }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
         cp_sqr_epsilon = cp_eq_epsilon;
     }
diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index a1f2870..4b94bb6 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -138,13 +138,14 @@ case "auto-grid-max": {
     "To also scale up automatically, set --grid=0\n";
     opt->auto_scale = AUTO_SCALE_INT;
 }
-case "gran": dim_pos &opt->cq_dim_scale_recip {
+case "gran": cp_dim_t dim_pos &a {
     "rasterization granularity for point coordinates [mm] (default: 0x1p-13).";
     "Use a reciprocal of a power of two here to minimze rounding errors.";
     "This is the reciprocal value of the --grid option, i.e., --gran 0x1p-13 is";
     "equivalent to --grid 8192.";
     "This allows number formats like '1/8192' or '2^-20'to ease setting a sensible value.\n";
     "This is deprecated, use the --grid option instead.";
+    cq_dim_scale = 1.0 / a;
 }
 case "eps": dim_pos0 &cp_eq_epsilon {
     "general comparison epsilon (default: 0x1p-15)";
-- 
2.43.0


From 158f855c368cf7ba2e7060d742218e65229719e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 081/106] fix: reject negative and too large integers and
 colors in options instead of truncating them

---
 src/hob3l/main.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index ef7ecc2..e841144 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -587,12 +587,15 @@ static void get_arg_size(
     char const *str)
 {
     char *r = NULL;
+    errno = 0;
     unsigned long long val = strtoull(str, &r, 10);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (errno == ERANGE) ||
+        (strchr(str, '-') != NULL) || (val > CP_MAX_OF(*v)))
+    {
         fprintf(stderr, "Error: %s: invalid number: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
-    *v = val & CP_MAX_OF(*v);
+    *v = (size_t)val;
 }
 
 static void get_arg_uint32(
@@ -630,7 +633,7 @@ static void get_arg_rgb(
 {
     char *r = NULL;
     unsigned long w = strtoul(str, &r, 16);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (w > 0xffffff) || (strchr(str, '-') != NULL)) {
         fprintf(stderr, "Error: %s: invalid rgb color: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From ac4b73906c17ba526d96e87c7ace109c79aa60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 082/106] fix: report a missing input file instead of failing
 to open "(null)"

---
 src/hob3l/main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index e841144..479f0e1 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -606,7 +606,7 @@ static void get_arg_uint32(
     size_t v2;
     get_arg_size(&v2, arg, str);
     if (v2 != (size_t)(unsigned)v2) {
-        fprintf(stderr, "Error %s: invalid uint32: %s\n", arg, str);
+        fprintf(stderr, "Error: %s: invalid uint32: %s\n", arg, str);
         exit(EXIT_FAILURE);
     }
     *v = v2 & 0xffffffff;
@@ -620,7 +620,7 @@ static void get_arg_uint8(
     size_t v2;
     get_arg_size(&v2, arg, str);
     if (v2 > 255) {
-        fprintf(stderr, "Error %s: invalid color value: %s expected 0..255\n", arg, str);
+        fprintf(stderr, "Error: %s: invalid color value: %s expected 0..255\n", arg, str);
         exit(EXIT_FAILURE);
     }
     *v = v2 & 0xff;
@@ -773,6 +773,11 @@ int main(int argc, char **argv)
         }
     }
 
+    if (in_file_name == NULL) {
+        fprintf(stderr, "Error: Missing input file.  Use --help for help.\n");
+        exit(EXIT_FAILURE);
+    }
+
     /* post-process options */
     if (cp_sqr_epsilon > cp_eq_epsilon) {
         cp_sqr_epsilon = cp_eq_epsilon;
-- 
2.43.0


From 24f5eb84dddfb0bade17e5ea0479fea9e93a9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 083/106] fix: reject arguments of options that have none,
 --stl-bin=false selected binary STL

---
 src/hob3l/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 479f0e1..5e578e0 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -719,6 +719,12 @@ static void parse_opt(
         }
     }
 
+    else
+    if (key.s[key.n] == '=') {
+        fprintf(stderr, "Error: Unexpected argument in '%s'\n", argvi);
+        exit(EXIT_FAILURE);
+    }
+
     g->func(opt, argvi, arg);
 }
 
-- 
2.43.0


From cc16ce34f3419fc6628b4216d595b71a4f75f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 084/106] fix: --help printed a wrong default of --max-fn

---
 src/hob3l/opt.switch | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 4b94bb6..085b706 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -73,7 +73,7 @@ case "z": dim &opt->z_min {
 }
 
 case "max-fn": uint32 &opt->csg.max_fn {
-    "maximum value of $fn for treating round objects as polyhedra (default: 50).";
+    "maximum value of $fn for treating round objects as polyhedra (default: 100).";
     "At $fn values larger than this, spheres will be sliced into circles";
     "and not converted to polyhedra.";
     "Currently, because no output format has circular arc structures, no attempt";
-- 
2.43.0


From 3a5e4af9ccbf11448db6a9ad00e0fae7b1fda945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 085/106] fix: do not overwrite the output file if its ending
 is not recognised

---
 src/hob3l/main.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 5e578e0..ca4ed66 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -809,18 +809,8 @@ int main(int argc, char **argv)
     cp_debug_ps_xform.add_y += (cp_debug_ps_xlat_y * cp_debug_ps_xform.mul_y);
 #endif
 
-    /* output file: */
-    cp_stream_t *sout = CP_STREAM_FROM_FILE(stdout);
-    FILE *fout = NULL;
+    /* output format: */
     if (opt.out_file_name) {
-        fout = fopen(opt.out_file_name, "wt");
-        if (fout == NULL) {
-            fprintf(stderr, "Error: Unable to open '%s' for writing: %s\n",
-                opt.out_file_name, strerror(errno));
-            exit(EXIT_FAILURE);
-        }
-        sout = CP_STREAM_FROM_FILE(fout);
-
         if (opt.dump == DUMP_NONE) {
             if (has_suffix(opt.out_file_name, ".stl")) {
                 opt.dump = DUMP_STL;
@@ -865,6 +855,18 @@ int main(int argc, char **argv)
         }
     }
 
+    /* output file: */
+    FILE *fout = NULL;
+    if (opt.out_file_name) {
+        fout = fopen(opt.out_file_name, "wt");
+        if (fout == NULL) {
+            fprintf(stderr, "Error: Unable to open '%s' for writing: %s\n",
+                opt.out_file_name, strerror(errno));
+            exit(EXIT_FAILURE);
+        }
+    }
+    cp_stream_t *sout = CP_STREAM_FROM_FILE((fout != NULL) ? fout : stdout);
+
     /* process files */
     cp_err_t *err = CP_NEW(*err);
     cp_syn_input_t *input = CP_NEW(*input);
-- 
2.43.0


From a69a5151e62c0dd97fd5e338cd3ab79198b90d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 086/106] fix: quotes and backslashes in --js-group made the
 JavaScript output invalid

---
 src/hob3l/csg2-2js.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index b07d61a..5678cf3 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -87,12 +87,11 @@ static void scene_flush(
                 if (!*g) {
                     break;
                 }
-                char const *e = g;
-                while (*e && !is_sep(*e)) {
-                    e++;
+                cp_printf(s, "'");
+                for (; *g && !is_sep(*g); g++) {
+                    cp_printf(s, "%s%c", ((*g == '\'') || (*g == '\\')) ? "\\" : "", *g);
                 }
-                cp_printf(s, "'%.*s':true,", (int)(e - g), g);
-                g = e;
+                cp_printf(s, "':true,");
             }
         }
         cp_printf(s, "},\n");
-- 
2.43.0


From 7f7bba76245dcf9a70eb00f652c0ecec7c1b9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 087/106] fix: reject --eps and --eps2 below the precision of
 double instead of failing an assertion

---
 src/hob3l/main.c     | 16 ++++++++++++++++
 src/hob3l/opt.switch |  8 ++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index ca4ed66..020e6c2 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -581,6 +581,22 @@ static void get_arg_dim_pos0(
     *v = x;
 }
 
+static void get_arg_eps(
+    cp_dim_t *v,
+    char const *arg,
+    char const *str)
+{
+    /* This must exceed the rounding errors of 'double', e.g., of the length
+     * of unit vectors. */
+    cp_dim_t x = 0;
+    get_arg_dim(&x, arg, str);
+    if (!(x >= 0x1p-48)) {
+        fprintf(stderr, "Error: %s: number must be at least 0x1p-48: '%s'\n", arg, str);
+        exit(EXIT_FAILURE);
+    }
+    *v = x;
+}
+
 static void get_arg_size(
     size_t *v,
     char const *arg,
diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 085b706..f67d062 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -147,13 +147,13 @@ case "gran": cp_dim_t dim_pos &a {
     "This is deprecated, use the --grid option instead.";
     cq_dim_scale = 1.0 / a;
 }
-case "eps": dim_pos0 &cp_eq_epsilon {
-    "general comparison epsilon (default: 0x1p-15)";
+case "eps": eps &cp_eq_epsilon {
+    "general comparison epsilon (minimum: 0x1p-48, default: 0x1p-15)";
     "This should be largely of any consequence these days, as the core algorithms";
     "now use exact integer math.";
 }
-case "eps2": dim_pos0 &cp_sqr_epsilon {
-    "comparison epsilon for squared dimensions (default: 0x1p-30)";
+case "eps2": eps &cp_sqr_epsilon {
+    "comparison epsilon for squared dimensions (minimum: 0x1p-48, default: 0x1p-30)";
     "This should be largely of any consequence these days, as the core algorithms";
     "now use exact integer math.";
 }
-- 
2.43.0


From 4116725c412830bd4ba238a6c9dab45064c13608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 088/106] fix: --opt-skip-empty and --opt-drop-collinear had no
 effect

---
 script/mkswitch | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/mkswitch b/script/mkswitch
index 8257e0d..d914fab 100755
--- a/script/mkswitch
+++ b/script/mkswitch
@@ -50,6 +50,7 @@ sub learn_case($$$$$)
             # prepare negative case:
             $neg_case->{arg}{name} = $case->{arg}{name};
             $neg_case->{arg}{type} = $case->{arg}{type};
+            $neg_case->{action} = $case->{action};
             if ($case->{arg}{conv} eq 'bool') {
                 $neg_case->{arg}{conv} = 'neg_bool';
             }
-- 
2.43.0


From dbba0a30dcfe34fce4f065979af72235a1236eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 089/106] fix: --auto-grid did not avoid overflow by the height
 of layers and by subtracted objects

---
 src/hob3l/main.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 020e6c2..ed8df81 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -157,7 +157,8 @@ static bool process_stack_diff(
  */
 static void auto_dim_scale(
     cp_opt_t *opt,
-    cp_vec3_minmax_t *bb)
+    cp_vec3_minmax_t *bb,
+    cp_vec3_minmax_t *full_bb)
 {
     if (opt->auto_scale == AUTO_SCALE_NONE) {
         return;
@@ -183,6 +184,19 @@ static void auto_dim_scale(
     }
 
     int best_shift = have_dig - absmax_dig;
+
+    /* In any case, avoid overflow in the integer algorithms: the heights of
+     * layers and subtracted objects need to be in range, too. */
+    double absmaxf = cp_max(
+        cp_max(fabs(full_bb->min.x), fabs(full_bb->max.x)),
+        cp_max(fabs(full_bb->min.y), fabs(full_bb->max.y)));
+    absmaxf = cp_max(absmaxf, cp_max(fabs(bb->min.z), fabs(bb->max.z)));
+    int absmaxf_dig = 0;
+    (void)frexp(absmaxf, &absmaxf_dig);
+    if (best_shift > (CQ_INT_DIG - absmaxf_dig)) {
+        best_shift = CQ_INT_DIG - absmaxf_dig;
+    }
+
     if (cp_eq(cq_dim_scale,0) || (default_shift > best_shift)) {
         cq_dim_scale = pow(2, best_shift);
     }
@@ -279,7 +293,7 @@ static bool do_file(
      */
     cq_dim_scale = dim_scale;
     if (cp_vec3_minmax_valid(&bb)) {
-        auto_dim_scale(opt, &bb);
+        auto_dim_scale(opt, &bb, &full_minmax);
     }
     if (cp_eq(cq_dim_scale, 0)) {
         cq_dim_scale = CP_DIM_SCALE_DEFAULT;
-- 
2.43.0


From 61297b5d7414d19da057c2d200569fa5758b551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 090/106] fix: messages about the first column of a line often
 named the previous line

---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..5a1aaf5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
-- 
2.43.0


From 8b41a742577559ec28a07be310c8b7aa0f23b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 091/106] fix: errors at the end of a file named a line that
 does not exist, and no column

---
 src/hob3l/syn-msg.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index 5a1aaf5..6ac5654 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -42,10 +42,14 @@ static bool format_source_line(
     size_t old = out->size;
     bool need_cr = true;
     size_t x = 0;
-    for (char const *i = src, *e = i + len; i != e; i++) {
+    for (char const *i = src, *e = i + len;; i++) {
+        /* this may be at the end, too, for errors at the end of the file */
         if (i == loc) {
             *pos = x;
         }
+        if (i == e) {
+            break;
+        }
         if (*i == '\t') {
             size_t new_x = (x + 4) & -4U;
             while (x < new_x) {
@@ -69,7 +73,7 @@ static bool format_source_line(
     }
 
     if (old == out->size) {
-        out->size = old;
+        (void)cp_vchar_pop(out);
         return false;
     }
 
@@ -160,6 +164,14 @@ extern bool cp_syn_get_loc(
             assert(loc->line != CP_SIZE_MAX);
             assert(loc->line < f->line.size);
 
+            /* the end of file is on the last line if that has no line end */
+            if ((loc->line > 0) &&
+                (token == f->content.data + f->content.size) &&
+                (f->content_orig.data[f->content.size - 1] != '\n'))
+            {
+                loc->line--;
+            }
+
             /* compute line ranges for convenience */
             loc->copy = cp_v_nth(&f->line, loc->line);
             loc->copy_end = loc->copy;
-- 
2.43.0


From 781fc72ec613dd57afd82b90cf7aa269b8187e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 092/106] fix: SVG files beginning with white space or with a
 prefixed root element were taken for STL

---
 src/hob3l/csg3.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 83c5562..f98599d 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -927,6 +927,23 @@ static bool csg3_from_polyhedron(
     return true;
 }
 
+/**
+ * Whether the file contents look like XML (as opposed to STL): the root
+ * element may have a name space prefix and may be preceded by white space. */
+static bool looks_like_xml(
+    char const *s)
+{
+    s += strspn(s, " \t\r\n");
+    if (strpref(s, "<?") || strpref(s, "<!") || strpref(s, "<svg")) {
+        return true;
+    }
+    if (*s != '<') {
+        return false;
+    }
+    size_t n = strcspn(s, " \t\r\n/>");
+    return (n > 5) && (strncmp(s + n - 4, ":svg", 4) == 0);
+}
+
 static bool csg3_from_import(
     bool *no,
     cp_v_obj_p_t *r,
@@ -946,7 +963,7 @@ static bool csg3_from_import(
     /* is it some XML format? */
     char const *cd = file->content.data;
     cd += strpref(cd, CP_UTF8_BOM);
-    if (strpref(cd, "<?") || strpref(cd, "<!") || strpref(cd, "<svg")) {
+    if (looks_like_xml(cd)) {
         cp_xml_t *xml = NULL;
         if (!cp_xml_parse(&xml, c->tmp, c->err, file, CP_XML_OPT_CHOMP)) {
             assert(c->err->msg.size > 0);
-- 
2.43.0


From de02c346a76333e698f1e414847ad182e352965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 093/106] fix: crash instead of a message when memory ran out
 in a string or a copy of a polygon

---
 src/hob3lbase/vchar.c  | 7 ++++++-
 src/hob3lop/op-sweep.c | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/vchar.c b/src/hob3lbase/vchar.c
index 4cd3448..7292a1c 100644
--- a/src/hob3lbase/vchar.c
+++ b/src/hob3lbase/vchar.c
@@ -3,6 +3,7 @@
 
 #include <stdio.h>
 #include <hob3lbase/vchar.h>
+#include <hob3lbase/panic.h>
 
 /**
  * Finalise/discard a vector.
@@ -34,7 +35,11 @@ static void v_grow(
         assert(new_alloc > vec->alloc);
     }
 
-    vec->data = realloc(vec->data, sizeof(vec->data[0]) * new_alloc);
+    char *data = realloc(vec->data, sizeof(vec->data[0]) * new_alloc);
+    if (data == NULL) {
+        cp_panic(NULL, 0, "Out of memory in v_grow()\n");
+    }
+    vec->data = data;
     vec->alloc = new_alloc;
 }
 
diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index e403c4c..5b471b2 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -1417,7 +1417,7 @@ extern cq_v_line2_t *cq_sweep_copy(
     cq_v_line2_t const *gon)
 {
     size_t size_cnt = gon->size;
-    cq_v_line2_t *r = NEW(*r);
+    cq_v_line2_t *r = CP_NEW(*r);
 
     if (size_cnt >= 3) {
         cq_sweep_t *s = cq_sweep_new(tmp, NULL, size_cnt);
-- 
2.43.0


From 79af850f36c1dc0d782d0696193c38412b96e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 094/106] fix: rotating the vector [0,0,-1] into the Z axis was
 a mirroring, not a rotation

---
 src/hob3lmat/algo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..b56ae81 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -154,7 +154,7 @@ extern void cp_dim3_rot_unit_into_z(
     double z = u->z;
     if (cp_eq(x,0) && cp_eq(y,0)) {
         *r0 = CP_VEC3(1, 0, 0);
-        *r1 = CP_VEC3(0, 1, 0);
+        *r1 = CP_VEC3(0, z < 0 ? -1 : +1, 0);
         *r2 = CP_VEC3(0, 0, z);
         return;
     }
-- 
2.43.0


From 1229a63ff27349a9cffc11cf0d97649797419e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 095/106] fix: inverse was not set when a matrix with inverse
 was reduced with loss

---
 src/hob3lmat/algo.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index b56ae81..492791f 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -749,9 +749,9 @@ extern bool cp_mat3wi_from_mat4i(
     cp_mat3wi_t *r,
     cp_mat4i_t const *q)
 {
-    bool ok =
-        cp_mat3w_from_mat4(&r->n, &q->n) &&
-        cp_mat3w_from_mat4(&r->i, &q->i);
+    bool ok_n = cp_mat3w_from_mat4(&r->n, &q->n);
+    bool ok_i = cp_mat3w_from_mat4(&r->i, &q->i);
+    bool ok = ok_n && ok_i;
     r->d = cp_mat3_det(&r->n.b);
     return ok;
 }
@@ -781,9 +781,9 @@ extern bool cp_mat2wi_from_mat3i(
     cp_mat2wi_t *r,
     cp_mat3i_t const *q)
 {
-    bool ok =
-        cp_mat2w_from_mat3(&r->n, &q->n) &&
-        cp_mat2w_from_mat3(&r->i, &q->i);
+    bool ok_n = cp_mat2w_from_mat3(&r->n, &q->n);
+    bool ok_i = cp_mat2w_from_mat3(&r->i, &q->i);
+    bool ok = ok_n && ok_i;
     r->d = cp_mat2_det(&r->n.b);
     return ok;
 }
@@ -808,9 +808,9 @@ extern bool cp_mat2wi_from_mat3wi(
     cp_mat2wi_t *r,
     cp_mat3wi_t const *q)
 {
-    bool ok =
-        cp_mat2w_from_mat3w(&r->n, &q->n) &&
-        cp_mat2w_from_mat3w(&r->i, &q->i);
+    bool ok_n = cp_mat2w_from_mat3w(&r->n, &q->n);
+    bool ok_i = cp_mat2w_from_mat3w(&r->i, &q->i);
+    bool ok = ok_n && ok_i;
     r->d = cp_mat2_det(&r->n.b);
     return ok;
 }
-- 
2.43.0


From a642907410b7ac7960c6da6bed1dd2df5d945c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 096/106] fix: large rotated exact spheres were sliced with a
 wrong plane normal

---
 src/hob3lmat/algo.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index 492791f..7a08ce3 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -214,9 +214,10 @@ extern bool cp_vec3_normal(
     cp_vec3_t const *a,
     cp_vec3_t const *b)
 {
-    cp_vec3_cross(r, a, b);
-    if (cp_vec3_unit(r,r)) {
-        return true;
+    cp_vec3_t n;
+    cp_vec3_cross(&n, a, b);
+    if (!cp_eq(cp_vec3_len(&n), 0)) {
+        return cp_vec3_unit(r, &n);
     }
 
     /* Hmm, maybe the vectors where just too short: roughly normalise the input
-- 
2.43.0


From e098e853a80c1aadc5e5982dbc168b8fe9af3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 097/106] fix: negative scale of linear_extrude with
 --empty=ignore gave a malformed solid if sliced

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index f98599d..3bc58df 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1783,7 +1783,7 @@ static bool csg3_from_linext(
             cp_mat2w_t mk = {0};
             cp_mat2w_rot(&mk, &CP_SINCOS_DEG(z * -twist));
             cp_mat2w_t mks = {0};
-            cp_mat2w_scale(&mks, cp_lerp(1, s->scale.x, z), cp_lerp(1, s->scale.y, z));
+            cp_mat2w_scale(&mks, cp_lerp(1, scale.x, z), cp_lerp(1, scale.y, z));
             cp_mat2w_mul(&mk, &mks, &mk);
             for (cp_v_each(j, &q->point_idx)) {
                  size_t const jo = cp_v_nth(&q->point_idx, j);
-- 
2.43.0


From d0c2e80c50d264ca02708593159de63a7f2934d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:05 +0000
Subject: [PATCH 098/106] fix: exact spheres with a radius of more than 2^15
 were lost

---
 src/hob3lmat/algo.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index 7a08ce3..adfc2c4 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -208,6 +208,17 @@ extern void cp_vec3_right_cross3(
     *r = *q;
 }
 
+/** Divide by largest absolute coordinate, however small that is */
+static void vec3_rough_unit(
+    cp_vec3_t *r,
+    cp_vec3_t const *a)
+{
+    double m = cp_vec3_max_abs_coord(a);
+    for (cp_arr_each(i, r->v)) {
+        r->v[i] = (m > 0) ? (a->v[i] / m) : 0;
+    }
+}
+
 /** unit(cross(a,b)), returns success (i.e., whether vector is not len0) */
 extern bool cp_vec3_normal(
     cp_vec3_t *r,
@@ -223,9 +234,9 @@ extern bool cp_vec3_normal(
     /* Hmm, maybe the vectors where just too short: roughly normalise the input
      * vectors first (roughly means: divide by the largest absolute value) */
     cp_vec3_t ra;
-    cp_vec3_div(&ra, a, cp_vec3_max_abs_coord(a));
+    vec3_rough_unit(&ra, a);
     cp_vec3_t rb;
-    cp_vec3_div(&rb, b, cp_vec3_max_abs_coord(b));
+    vec3_rough_unit(&rb, b);
     cp_vec3_cross(r, &ra, &rb);
     return cp_vec3_unit(r,r);
 }
-- 
2.43.0


From 5a6b69d0212fd33bedfe047d1f4ab43ff7aafbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:05 +0000
Subject: [PATCH 099/106] fix: caps of large exact spheres were cut off: 1/128
 of the radius was taken for 0

---
 src/hob3l/csg2-layer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-layer.c b/src/hob3l/csg2-layer.c
index 93b906e..20b9d23 100644
--- a/src/hob3l/csg2-layer.c
+++ b/src/hob3l/csg2-layer.c
@@ -102,7 +102,7 @@ static void csg2_add_layer_sphere(
 
     /* step 4: distance and radius of circle cutting the plane */
     cp_dim_t dist = fabs(sq.z);
-    if (cp_ge(dist, 1)) {
+    if (cp_sqr_ge(dist * dist, 1)) {
         /* plane does not cut unit sphere */
         return;
     }
-- 
2.43.0


From 127499c68df8a8e73440cba11f1d0d028efa1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 100/106] fix: decode escapes in the layer name of import

---
 include/hob3l/scad_tam.h | 3 ++-
 src/hob3l/csg3.c         | 3 ++-
 src/hob3l/scad-2scad.c   | 4 ++--
 src/hob3l/scad.c         | 8 +++++++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/hob3l/scad_tam.h b/include/hob3l/scad_tam.h
index d485cc6..bc733d0 100644
--- a/include/hob3l/scad_tam.h
+++ b/include/hob3l/scad_tam.h
@@ -101,7 +101,8 @@ typedef struct {
     bool center;
     char const *id_tok;
     cp_vchar_t id;
-    char const *layer;
+    char const *layer_tok;
+    cp_vchar_t layer;
     cp_detail_t detail;
     double dpi;
 } cp_scad_import_t;
diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 3bc58df..1671116 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -988,7 +988,8 @@ static bool csg3_from_import(
                 return msg(c, c->opt->err_outside_2d, s->loc, NULL,
                     "'import' SVG found outside 2D context.");
             }
-            if (!cp_svg_parse(r, c, m, &s->detail, s->layer, s->dpi, s->center, top)) {
+            char const *layer = (s->layer_tok != NULL) ? s->layer.data : NULL;
+            if (!cp_svg_parse(r, c, m, &s->detail, layer, s->dpi, s->center, top)) {
                 assert(c->err->msg.size > 0);
                 return false;
             }
diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 5fa9b03..e11ac55 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -125,8 +125,8 @@ static void import_put_scad(
     cp_scad_import_t const *r)
 {
     cp_printf(s, "import(file=\"%s\"", r->file_tok);
-    if (r->layer != NULL) {
-        cp_printf(s, ", layer=\"%s\"", r->layer);
+    if (r->layer_tok != NULL) {
+        cp_printf(s, ", layer=\"%s\"", r->layer_tok);
     }
     if (r->id_tok != NULL) {
         cp_printf(s, ", id=\"%s\"", r->id_tok);
diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 6b036ff..4a0d456 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1461,7 +1461,7 @@ static bool import_from_item(
     if (!GET_ARG(t, f->loc, &f->arg,
         (
             PARAM_STR   ("file",      &q->file_tok, MANDATORY),
-            PARAM_STR   ("layer",     &q->layer,    OPTIONAL),
+            PARAM_STR   ("layer",     &q->layer_tok, OPTIONAL),
             PARAM_UINT32("convexity", &_convexity,  OPTIONAL),
         ),
         (
@@ -1485,6 +1485,12 @@ static bool import_from_item(
         }
     }
 
+    if (q->layer_tok != NULL) {
+        if (!string_unquote(t, &q->layer, q->layer_tok)) {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 288bcf9f3789017480de494626ec1794b058bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:59 +0000
Subject: [PATCH 101/106] fix: --auto-grid did not avoid overflow by the height
 of subtracted objects and of requested layers

---
 src/hob3l/main.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index ed8df81..1fe7fd1 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -158,7 +158,8 @@ static bool process_stack_diff(
 static void auto_dim_scale(
     cp_opt_t *opt,
     cp_vec3_minmax_t *bb,
-    cp_vec3_minmax_t *full_bb)
+    cp_vec3_minmax_t *full_bb,
+    cp_range_t const *range)
 {
     if (opt->auto_scale == AUTO_SCALE_NONE) {
         return;
@@ -190,7 +191,10 @@ static void auto_dim_scale(
     double absmaxf = cp_max(
         cp_max(fabs(full_bb->min.x), fabs(full_bb->max.x)),
         cp_max(fabs(full_bb->min.y), fabs(full_bb->max.y)));
-    absmaxf = cp_max(absmaxf, cp_max(fabs(bb->min.z), fabs(bb->max.z)));
+    absmaxf = cp_max(absmaxf, cp_max(fabs(full_bb->min.z), fabs(full_bb->max.z)));
+    absmaxf = cp_max(absmaxf, cp_max(
+        fabs(range->min),
+        fabs(range->min + (range->step * cp_f(range->cnt - 1)))));
     int absmaxf_dig = 0;
     (void)frexp(absmaxf, &absmaxf_dig);
     if (best_shift > (CQ_INT_DIG - absmaxf_dig)) {
@@ -288,17 +292,6 @@ static bool do_file(
     cp_vec3_minmax_t bb = CP_VEC3_MINMAX_EMPTY;
     cp_csg3_tree_minmax(&bb, csg3, false);
 
-    /* Auto-scale so that 23 bits are used in integer arith, so that no
-     * rounding error occurs when converting to `float` (for binary STL).
-     */
-    cq_dim_scale = dim_scale;
-    if (cp_vec3_minmax_valid(&bb)) {
-        auto_dim_scale(opt, &bb, &full_minmax);
-    }
-    if (cp_eq(cq_dim_scale, 0)) {
-        cq_dim_scale = CP_DIM_SCALE_DEFAULT;
-    }
-
     /* stage 4: 2D CSG */
     cp_dim_t z_min = bb.min.z + opt->z_step/2;
     cp_dim_t z_max = bb.max.z;
@@ -324,6 +317,17 @@ static bool do_file(
         }
     }
 
+    /* Auto-scale so that 23 bits are used in integer arith, so that no
+     * rounding error occurs when converting to `float` (for binary STL).
+     */
+    cq_dim_scale = dim_scale;
+    if (cp_vec3_minmax_valid(&bb)) {
+        auto_dim_scale(opt, &bb, &full_minmax, &range);
+    }
+    if (cp_eq(cq_dim_scale, 0)) {
+        cq_dim_scale = CP_DIM_SCALE_DEFAULT;
+    }
+
     if (opt->verbose >= 1) {
         fprintf(stderr, "Info: Z: min=%g, step=%g, layer_cnt=%"CP_Z"u, max=%g, grid=%s\n",
             range.min, range.step, range.cnt,
-- 
2.43.0


From 747b370063e67d816275ecee9c7a7ff527fcb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:45 +0000
Subject: [PATCH 102/106] fix: cq_has_intersect missed T-junctions and reported
 partial overlap and the intersection point wrongly

---
 src/hob3lop/op-sweep.c | 87 ++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 50 deletions(-)

diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index 5b471b2..206552f 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -1453,6 +1453,20 @@ extern void cq_sweep_minmax(
 /* ********************************************************************** */
 /* cq_has_intersect */
 
+/**
+ * Whether p is strictly between a and b, all being collinear.
+ */
+static bool strictly_between(
+    cq_vec2_t const *p,
+    cq_vec2_t const *a,
+    cq_vec2_t const *b)
+{
+    if (a->x == b->x) {
+        return (a->y < b->y) ? ((a->y < p->y) && (p->y < b->y)) : ((b->y < p->y) && (p->y < a->y));
+    }
+    return (a->x < b->x) ? ((a->x < p->x) && (p->x < b->x)) : ((b->x < p->x) && (p->x < a->x));
+}
+
 extern int cq_has_intersect(
     cq_vec2if_t *ip,
     cq_line2_t const **ap,
@@ -1462,62 +1476,35 @@ extern int cq_has_intersect(
     for (cp_v_eachp(a, gon)) {
         for (cp_v_eachp(b, gon)) {
             cq_vec2if_t i;
-            switch (cq_line2if_intersect(&i, a, b)) {
-            default:
-                break;
-
-            case 1:
-                goto has;
-
-            case -1:
-                /* parallel or collinear? */
-                if (cq_vec2_right_cross3_z(&a->b, &a->a, &b->b) == 0) {
-                    /* collinear */
-
-                    /* squares of distances */
-                    cq_dim_t a1, a2, b1, b2;
-                    if (a->a.x == a->b.x) { /* vertical */
-                        a1 = a->a.y;
-                        a2 = a->b.y;
-                        b1 = b->a.y;
-                        b2 = b->b.y;
-                    }
-                    else {
-                        a1 = a->a.x;
-                        a2 = a->b.x;
-                        b1 = b->a.x;
-                        b2 = b->b.x;
-                    }
-                    if (a1 > a2) { CP_SWAP(&a1, &a2); }
-                    if (b1 > b2) { CP_SWAP(&b1, &b2); }
-                    assert(a1 != a2);
-                    assert(b1 != b2);
-
-                    if ((b1 < a1) && (a1 < b2)) {
-                        i = CQ_VEC2IFI(a->a.x, a->a.y);
-                        goto has;
-                    }
-                    if ((b1 < a2) && (a2 < b2)) {
-                        i = CQ_VEC2IFI(a->b.x, a->b.y);
-                        goto has;
-                    }
-                    if ((a1 < b1) && (b1 < a2)) {
-                        i = CQ_VEC2IFI(b->a.x, b->a.y);
-                        goto has;
-                    }
-                    if ((a1 < b2) && (b2 < a2)) {
-                        i = CQ_VEC2IFI(b->b.x, b->b.y);
-                        goto has;
-                    }
+            int res = cq_line2if_intersect(&i, a, b);
+            if (res > 0) {
+                if ((res & 0x06) && (res & 0x18)) {
+                    /* equal end points */
+                    continue;
                 }
+                res = 1;
+            }
+            else
+            if ((res < 0) && (cq_vec2_right_cross3_z(&a->b, &a->a, &b->b) == 0)) {
+                /* collinear */
+                cq_vec2_t const *p =
+                    strictly_between(&a->a, &b->a, &b->b) ? &a->a :
+                    strictly_between(&a->b, &b->a, &b->b) ? &a->b :
+                    strictly_between(&b->a, &a->a, &a->b) ? &b->a :
+                    strictly_between(&b->b, &a->a, &a->b) ? &b->b : NULL;
+                if (p == NULL) {
+                    continue;
+                }
+                i = CQ_VEC2IFI(p->x, p->y);
+            }
+            else {
+                continue;
             }
-            continue;
 
-        has:
             if (ip) { *ip = i; }
             if (ap) { *ap = a; }
             if (bp) { *bp = b; }
-            return 1;
+            return res;
         }
     }
     return 0;
-- 
2.43.0


From 61f897c01f269ac9d4cf5a2bf09d0aaf4023fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:05 +0000
Subject: [PATCH 103/106] fix: viewer forgot the shift key when one of two
 mouse buttons was released

---
 share/js-hob3l.local.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/js-hob3l.local.html b/share/js-hob3l.local.html
index 6a38b13..87bd626 100644
--- a/share/js-hob3l.local.html
+++ b/share/js-hob3l.local.html
@@ -1065,7 +1065,7 @@
     {
         if (!clickDown) {
             clickDown = ev.buttons;
-            clickShift = ev.shiftkey;
+            clickShift = ev.shiftKey;
         }
         if (!clickDown) {
             return;
-- 
2.43.0


From db8a74dca832280afd8e50637403a42bf54c97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:05 +0000
Subject: [PATCH 104/106] fix: viewer could not store views where the browser
 accepts no cookies

---
 share/js-hob3l.local.html | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/share/js-hob3l.local.html b/share/js-hob3l.local.html
index 87bd626..af49a7e 100644
--- a/share/js-hob3l.local.html
+++ b/share/js-hob3l.local.html
@@ -1523,6 +1523,18 @@
         return name;
     }
 
+    // store in HTML5 localStorage (there may be no cookies, e.g. for local files):
+    function storeAllPos()
+    {
+        if (haveLocalStorage()) {
+            var cs = [];
+            for (var key in allPos) {
+                cs.push("pos_"+key+"="+allPos[key]);
+            }
+            localStorage.setItem("pos", cs.join("; "));
+        }
+    }
+
     function savePos()
     {
         var name = getPosName();
@@ -1536,12 +1548,10 @@
         var cookie = "pos_"+name+"="+posToString()+"; expires="+d.toUTCString();
         document.cookie = cookie;
 
-        makePosButtons();
+        allPos[name] = posToString();
+        storeAllPos();
 
-        // store in HTML5 localStorage:
-        if (haveLocalStorage()) {
-            localStorage.setItem("pos", document.cookie);
-        }
+        makePosButtons();
     }
 
     function addPos()
@@ -1610,11 +1620,8 @@
         var cookie = "pos_"+name+"=; expires="+d.toUTCString();
         document.cookie = cookie;
 
-        if (haveLocalStorage()) {
-            localStorage.setItem("pos", document.cookie);
-        }
-
         delete allPos[name];
+        storeAllPos();
 
         makePosButtons();
     }
-- 
2.43.0


From 2044ead545a386c4d6ab93747fcf498fc46a03d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:48 +0000
Subject: [PATCH 105/106] fix: hob3l-js-copy-aux wrote pages that load nothing
 for file names with special characters

---
 script/hob3l-js-copy-aux.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/script/hob3l-js-copy-aux.in b/script/hob3l-js-copy-aux.in
index dd34264..094965c 100644
--- a/script/hob3l-js-copy-aux.in
+++ b/script/hob3l-js-copy-aux.in
@@ -30,6 +30,10 @@ fi
 DIR=$(dirname "$FILE")
 NAME=$(basename "$FILE" .js)
 
+# The name as a URL: without characters special in URLs, HTML or sed
+URL=$(printf '%s\n' "$NAME" | \
+    sed 's/%/%25/g; s/ /%20/g; s/"/%22/g; s/#/%23/g; s/&/%26/g; s/:/%3A/g; s/?/%3F/g; s/@/%40/g; s/\\/%5C/g')
+
 rm -f "$FILE.gz"
 gzip -c "$FILE" > "$FILE.gz"
 
@@ -41,12 +45,12 @@ cp "$pkgdatadir/gl-matrix/vec3.js"   "$DIR/gl-matrix"
 
 rm -f "$DIR/$NAME.local.html"
 cat "$pkgdatadir/js-hob3l.local.html" \
-    | sed "s@js-hob3l@$NAME@" \
+    | sed "s@js-hob3l@$URL@" \
     > "$DIR/$NAME.local.html"
 
 rm -f "$DIR/$NAME.html"
 cat "$pkgdatadir/js-hob3l.local.html" \
-    | sed "s@js-hob3l@$NAME@" \
     | sed 's@LOCAL.*@-->@' \
     | sed 's@REMOTE --- \(.*\)-->@-->\1@' \
+    | sed "s@js-hob3l@$URL@" \
     > "$DIR/$NAME.html"
-- 
2.43.0


From 289825b035c04bc3fd0bee17902b5a7b7e64438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:53 +0000
Subject: [PATCH 106/106] fix: PostScript bounding box was wrong for layers far
 away from the page

---
 src/hob3l/csg2-2ps.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 63c3475..f318dc7 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -305,10 +305,10 @@ extern void cp_csg2_tree_put_ps(
         CP_ZERO(&k);
         k.s = s;
         k.opt = opt;
-        k.bb.min.x = +99999;
-        k.bb.min.y = +99999;
-        k.bb.max.x = -99999;
-        k.bb.max.y = -99999;
+        k.bb.min.x = +HUGE_VAL;
+        k.bb.min.y = +HUGE_VAL;
+        k.bb.max.x = -HUGE_VAL;
+        k.bb.max.y = -HUGE_VAL;
 
         size_t page_cnt = 0;
         cp_ps_doc_begin(s, opt, CP_SIZE_MAX, 0, 0, -1, -1);
-- 
2.43.0

