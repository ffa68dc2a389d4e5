From fcc7d130fd249679e0c0faf8a709f0477d809dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 01/86] fix: triangulation: find outline edges from the result
 instead of the vertex list

Where several edges meet in one vertex, the vertex list may have lost the
edge that a triangle's side is part of, so the side was not flagged as
an outline and its wall was missing in STL/JS output.
---
 src/hob3lop/op-trianglify.c | 149 +++++++++++++++---------------------
 1 file changed, 63 insertions(+), 86 deletions(-)

diff --git a/src/hob3lop/op-trianglify.c b/src/hob3lop/op-trianglify.c
index c51a5cd..14904a9 100644
--- a/src/hob3lop/op-trianglify.c
+++ b/src/hob3lop/op-trianglify.c
@@ -10,8 +10,19 @@
  */
 
 #include <hob3lop/op-trianglify.h>
+#include <hob3lbase/arith.h>
 #include "op-sweep-internal.h"
 
+/**
+ * An outline edge, identified by its point indices, lo < hi.
+ */
+typedef struct {
+    size_t lo;
+    size_t hi;
+} outline_t;
+
+typedef CP_VEC_T(outline_t) v_outline_t;
+
 /**
  * Removes/disables a vertex.  If both ends of an edge end up disabled,
  * then remove the edge from the list.
@@ -65,85 +76,67 @@ static inline edge_t *tri_edge_new(
     return e;
 }
 
-static bool edge_is_outline(
-    vertex_t *p,
-    vertex_t *q)
+/**
+ * Compares two edges given as sorted pairs of point indices.
+ */
+static int cmp_outline(
+    void const *a_,
+    void const *b_)
 {
-    edge_t *e = edge_of(p);
-    if (e == edge_of(q)) {
-        return !e->inner;
-    }
-    vertex_t *w = vertex_eq_buddy(q);
-    if (w && (e == edge_of(w))) {
-        return !e->inner;
-    }
-
-    p = vertex_eq_buddy(p);
-    if (p) {
-        e = edge_of(p);
-        if (e == edge_of(q)) {
-            return !e->inner;
-        }
-        if (w && (e == edge_of(w))) {
-            return !e->inner;
-        }
+    outline_t const *a = a_;
+    outline_t const *b = b_;
+    int i = CP_CMP(a->lo, b->lo);
+    if (i != 0) {
+        return i;
     }
+    return CP_CMP(a->hi, b->hi);
+}
 
-    return false;
-
-#if 0
-    /* this does not work because the 'LEFT' and 'RIGT' stuff does not reflect
-     * how the edges are oriented in the list */
+static bool edge_is_outline(
+    v_outline_t *outline,
+    size_t p,
+    size_t q)
+{
+    outline_t key = { .lo = cp_min(p, q), .hi = cp_max(p, q) };
+    return bsearch(&key, outline->data, outline->size, sizeof(key), cmp_outline) != NULL;
+}
 
-    /* try via p */
-    if (p->side == LEFT) {
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == LEFT) {
-            w = vertex_eq_buddy(w);
-        }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
+/**
+ * Sets the outline flags of all triangles.
+ *
+ * The edges in \p data->result do not overlap, so a side of a triangle is
+ * an outline iff there is an edge that connects the same points.
+ *
+ * This needs the point_idx of all vertices to be set up.
+ */
+static void set_outline_flags(
+    data_t *data,
+    cq_csg2_poly_t *r)
+{
+    v_outline_t outline = CP_V_INIT;
+    for (cp_dict_each(o, data->result)) {
+        vertex_t *v = agenda_get_vertex(o);
+        if (v->side == LEFT) {
+            size_t p = v->point_idx;
+            size_t q = other_end(v)->point_idx;
+            cp_v_push(&outline, ((outline_t){ .lo = cp_min(p, q), .hi = cp_max(p, q) }));
         }
     }
-    else {
-        cq_assert(p->side == RIGT);
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == RIGT) {
-            w = vertex_eq_buddy(q);
-        }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
-        }
+    if (outline.size > 0) {
+        qsort(outline.data, outline.size, sizeof(outline.data[0]), cmp_outline);
     }
-
-    /* try via q */
-    CP_SWAP(&p, &q);
-    if (p->side == LEFT) {
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == LEFT) {
-            w = vertex_eq_buddy(q);
+    for (cp_v_eachp(tri, &r->tri)) {
+        if (edge_is_outline(&outline, tri->p[0], tri->p[1])) {
+            tri->flags |= CP_CSG2_TRI_OUTLINE_01;
         }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
+        if (edge_is_outline(&outline, tri->p[1], tri->p[2])) {
+            tri->flags |= CP_CSG2_TRI_OUTLINE_12;
         }
-    }
-    else {
-        cq_assert(p->side == RIGT);
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == RIGT) {
-            w = vertex_eq_buddy(q);
-        }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
+        if (edge_is_outline(&outline, tri->p[2], tri->p[0])) {
+            tri->flags |= CP_CSG2_TRI_OUTLINE_20;
         }
     }
-
-    return false;
-#endif
+    cp_v_fini(&outline);
 }
 
 static inline void flush_triangle_(
@@ -206,29 +199,11 @@ start_again:;
                 tri.p[0] = q->point_idx;
                 tri.p[1] = p->point_idx;
                 tri.p[2] = w->point_idx;
-                if (edge_is_outline(q, p)) {
-                    tri.flags |= CP_CSG2_TRI_OUTLINE_01;
-                }
-                if (edge_is_outline(p, w)) {
-                    tri.flags |= CP_CSG2_TRI_OUTLINE_12;
-                }
-                if (edge_is_outline(w, q)) {
-                    tri.flags |= CP_CSG2_TRI_OUTLINE_20;
-                }
             }
             else {
                 tri.p[0] = p->point_idx;
                 tri.p[1] = q->point_idx;
                 tri.p[2] = w->point_idx;
-                if (edge_is_outline(p, q)) {
-                    tri.flags |= CP_CSG2_TRI_OUTLINE_01;
-                }
-                if (edge_is_outline(q, w)) {
-                    tri.flags |= CP_CSG2_TRI_OUTLINE_12;
-                }
-                if (edge_is_outline(w, p)) {
-                    tri.flags |= CP_CSG2_TRI_OUTLINE_20;
-                }
             }
             cp_v_push(&r->tri, tri);
         }
@@ -510,6 +485,8 @@ extern bool cq_sweep_trianglify(
 
     assert(data->agenda_vertex == NULL);
 
+    set_outline_flags(data, r);
+
     /* reverse the polygon paths so they are roughly subtractive */
     cp_v_reverse(&r->path, 0, -1UL);
 
-- 
2.43.0


From c9b29db0764cb43d4e9ae09d59b261241d05d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 02/86] fix: --unknown-functor decides about unknown functors
 (was: --unsupported-functor)

---
 src/hob3l/scad.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 43078f4..ac2de4e 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1578,8 +1578,8 @@ static bool v_scad_from_syn_stmt_item(
 {
     cmd_value_t const *c = cmd_find(f->functor, strlen(f->functor));
     if (c == NULL) {
-        return msg(t, t->opt->err_unsupported_functor, f->loc, NULL,
-            "Unsupported functor '%s'.", f->functor);
+        return msg(t, t->opt->err_unknown_functor, f->loc, NULL,
+            "Unknown functor '%s'.", f->functor);
     }
     assert(c->type != 0);
 
-- 
2.43.0


From c148a85e7500298f20f592f1086e9beaf0cc2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 03/86] fix: multmatrix: accept rows of two entries, reject
 non-arrays with an error instead of an assertion

---
 src/hob3l/scad.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index ac2de4e..7635641 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -597,8 +597,8 @@ static bool get_mat4(
     /* This also accepts 3x3 matrices and 4x3 matrixes and will
      * add missing columns and rows from the unit matrix */
 
-    cp_syn_value_array_t const *a = cp_syn_cast(*a, v);
-    if ((v->type != CP_SYN_VALUE_ARRAY) ||
+    cp_syn_value_array_t const *a = cp_syn_try_cast(*a, v);
+    if ((a == NULL) ||
         (
             (a->value.size != 2) &&
             (a->value.size != 3) &&
@@ -612,6 +612,12 @@ static bool get_mat4(
     for (cp_size_each(y, a->value.size)) {
         cp_syn_value_t const *l = cp_v_nth(&a->value, y);
         cp_syn_value_array_t const *la = cp_syn_try_cast(*a, l);
+        if ((la != NULL) && (la->value.size == 2)) {
+            if (!get_vec2(&r->row[y].b.b, t, l)) {
+                return false;
+            }
+        }
+        else
         if ((la != NULL) && (la->value.size == 3)) {
             if (!get_vec3(&r->row[y].b, t, l)) {
                 return false;
-- 
2.43.0


From 7af4e9a8eb574c81464625ebd6d096a4ad1022d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 04/86] fix: unknown parameter in tolerant mode ignored all
 following parameters, too

---
 src/hob3l/scad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 7635641..3c2c05b 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -747,8 +747,12 @@ static bool get_arg(
                     goto get;
                 }
             }
-            return msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
-                "Unknown parameter name '%s'.", a->key);
+            if (!msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
+                "Unknown parameter name '%s'.", a->key))
+            {
+                return false;
+            }
+            continue;
         }
 
     get:
-- 
2.43.0


From 91014d22e97dddb61c1e4aee058c569f5a735230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 05/86] fix: sine and cosine of large angles: reduce to one
 turn first (assertion failed for large angles)

---
 src/hob3lmat/algo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..03c1e10 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -1266,7 +1266,7 @@ extern cp_f_t cp_sin_deg(cp_f_t a)
             return *r;
         }
     }
-    return sin(cp_deg(a));
+    return sin(cp_deg(fmod(a, 360)));
 }
 
 /**
@@ -1283,7 +1283,7 @@ extern cp_f_t cp_cos_deg(cp_f_t a)
             return *r;
         }
     }
-    return cos(cp_deg(a));
+    return cos(cp_deg(fmod(a, 360)));
 }
 
 /**
-- 
2.43.0


From 808e3dfd8e9ca4e0cd088976e73b55793e5e28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 06/86] fix: hull: apply the transformations around hull()

---
 src/hob3l/csg3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..f303b9c 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1794,6 +1794,9 @@ static bool csg3_from_hull(
 
     cp_csg2_hull(&p->point);
 
+    /* the children were flattened with a fresh matrix: transform now */
+    xform_2d(m, p);
+
     /* set up trivial path */
     p->path.size = 1;
     cp_csg2_path_t *q = &cp_v_nth(&p->path, 0);
-- 
2.43.0


From 15dad329dc90ae500f4d3ccd4ad4ca083c5a1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 07/86] fix: projection: apply the transformations around
 projection()

---
 src/hob3l/csg3.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index f303b9c..c37cabe 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1163,9 +1163,22 @@ static bool csg3_from_projection(
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3_init_tree(csg3, s->loc);
 
-    /* start with fresh matrix in 2D space */
+    /* start with the XY part of the current 2D matrix, so that the
+     * transformations around the projection are applied to the slice at z=0 */
+    cp_mat3w_t m2;
+    cp_mat3w_unit(&m2);
+    for (cp_size_each(i, 2)) {
+        for (cp_size_each(j, 2)) {
+            m2.b.m[i][j] = m->mat->n.b.m[i][j];
+        }
+        m2.w.v[i] = m->mat->n.w.v[i];
+    }
+    cp_mat3wi_t *m1 = mat_new(c->tree);
+    if (!cp_mat3wi_from_mat3w(m1, &m2)) {
+        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+    }
     local_t mn = *m;
-    mn.mat = the_unit(c->tree);
+    mn.mat = m1;
     if (!csg3_from_v_scad(no, &csg3->root->add, &c2, &mn, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
-- 
2.43.0


From 13137b807cd97b35961952545e53250c3800ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 08/86] fix: intersection: an empty child makes the result
 empty (was: dropped, or failed assertion)

---
 src/hob3l/csg3.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index c37cabe..fa55be5 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -240,23 +240,32 @@ static bool csg3_from_intersection(
     cp_v_csg_add_p_t cut = CP_V_INIT;
 
     /* each child is a union */
-    cp_v_obj_p_t add = CP_V_INIT;
+    bool empty = false;
     for (cp_v_each(i, &s->child)) {
-        csg3_cut_push_add(&cut, &add);
-        if (!csg3_from_scad(no, &add, c, m, cp_v_nth(&s->child, i))) {
+        bool add_no = false;
+        cp_v_obj_p_t add = CP_V_INIT;
+        if (!csg3_from_scad(&add_no, &add, c, m, cp_v_nth(&s->child, i))) {
             assert(c->err->msg.size > 0);
             return false;
         }
+        if (add_no) {
+            *no = true;
+            /* a non-ignored child without any output makes everything empty */
+            if (add.size == 0) {
+                empty = true;
+            }
+        }
+        csg3_cut_push_add(&cut, &add);
     }
 
-    if (cut.size == 0) {
-        cp_v_append(r, &add);
-        cp_v_fini(&add);
+    if (empty || (cut.size == 0)) {
         return true;
     }
 
-    csg3_cut_push_add(&cut, &add);
-    assert(cut.size >= 2);
+    if (cut.size == 1) {
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        return true;
+    }
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
     cp_v_push(r, cp_obj(o));
-- 
2.43.0


From da38e676251ae55eeae9d957d10da02929db9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:52 +0000
Subject: [PATCH 09/86] fix: bounding box of several spheres: do not lower the
 maximum again

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index fa55be5..d543b18 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -483,7 +483,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From 3980f528decd69b3ba5aa88aa82073b47d49703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 10/86] fix: STL text import: a bare 'solid' line swallowed the
 following line

---
 src/hob3l/stl-parse.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dae61d1..4732ea5 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -180,7 +180,12 @@ static void tok_next_line(parse_t *p)
     if (p->tok_type == T_ERROR) {
         return;
     }
-    lex_next(p);
+
+    /* Advance beyond the '\0' written at the end of the previous token,
+     * unless it replaced the newline: then the rest of the line is empty. */
+    if (p->lex_cur != '\n') {
+        lex_next(p);
+    }
 
     /* Note that p->tok_string might point to '\0'.  It is needed for a
      * location pointer nevertheless. */
-- 
2.43.0


From cf2be1edc82abecf2e8e65f1ccf17fffa7001401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 11/86] fix: STL text import: the token after 'endsolid' was
 scanned before skipping the name

---
 src/hob3l/stl-parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 4732ea5..99ebd13 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -447,8 +447,9 @@ static bool parse_solid(
             return false;
         }
     }
-    if (!expect_err(p, K_ENDSOLID)) {
-        return false;
+    /* do not scan a token after 'endsolid': the rest of the line is a name */
+    if (p->tok_type != K_ENDSOLID) {
+        return expect_err(p, K_ENDSOLID);
     }
     tok_next_line(p);
     tok_next(p);
-- 
2.43.0


From 0e1a7d464da03b09acac2c0100dfd68e955a79f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 12/86] fix: projection: it is ignored if all its children are
 ignored

---
 src/hob3l/csg3.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index d543b18..1876acd 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1188,7 +1188,8 @@ static bool csg3_from_projection(
     }
     local_t mn = *m;
     mn.mat = m1;
-    if (!csg3_from_v_scad(no, &csg3->root->add, &c2, &mn, &s->child)) {
+    bool pno = false;
+    if (!csg3_from_v_scad(&pno, &csg3->root->add, &c2, &mn, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
     }
@@ -1199,6 +1200,14 @@ static bool csg3_from_projection(
             "'projection(cut=false)' is not implemented, only cut=true.");
     }
 
+    /* ignored iff all the children are ignored */
+    if (!pno) {
+        CP_DELETE(csg3->root);
+        CP_DELETE(csg3);
+        return true;
+    }
+    *no = true;
+
     /* cut out the slice */
     cp_range_t range;
     cp_range_init(&range, 0, 0, 0.1);
-- 
2.43.0


From 64b6be29850bf37941a903d7d13851a8c91d73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 13/86] fix: bounding box of an intersection: consider the
 first child, ignore empty intersections

---
 src/hob3l/csg3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 1876acd..5ec5610 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2413,12 +2413,13 @@ static void get_bb_cut(
     }
     else {
         cp_vec3_minmax_t bb2 = CP_VEC3_MINMAX_FULL;
-        for (cp_v_each(i, &r->cut, 1)) {
+        for (cp_v_each(i, &r->cut)) {
             cp_vec3_minmax_t bb3 = CP_VEC3_MINMAX_EMPTY;
             get_bb_add(&bb3, cp_v_nth(&r->cut,i), max);
             cp_vec3_minmax_and(&bb2, &bb2, &bb3);
             if (!cp_vec3_minmax_valid(&bb2)) {
-                break;
+                /* the intersection is empty */
+                return;
             }
         }
         cp_vec3_minmax_or(bb, bb, &bb2);
-- 
2.43.0


From ebd6f55cdaaa2c5e82e6d746add85a7dfe47bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 14/86] fix: JS output: print scaleV and xform with full
 precision, round normals after scaling

---
 src/hob3l/csg2-2js.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index e3e5e02..e73944c 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -96,15 +96,15 @@ static void scene_flush(
             }
         }
         cp_printf(s, "},\n");
-        cp_printf(s, "   'scaleV':%16g,\n", 1000.0 * PT_GRAN);
+        cp_printf(s, "   'scaleV':%.16g,\n", 1000.0 * PT_GRAN);
         cp_printf(s, "   'scaleC':255,\n");
         cp_printf(s, "   'shiftI':%u,\n", SHIFT_I);
 
         if (c->tree->root_xform != NULL) {
             cp_mat3w_t const *n = &c->tree->root_xform->n;
             cp_printf(s,
-                "   'xform':[%16g,%16g,%16g,0, %16g,%16g,%16g,0, "
-                "%16g,%16g,%16g,0, %16g,%16g,%16g,1],\n",
+                "   'xform':[%.16g,%.16g,%.16g,0, %.16g,%.16g,%.16g,0, "
+                "%.16g,%.16g,%.16g,0, %.16g,%.16g,%.16g,1],\n",
                 n->b.m[0][0], n->b.m[1][0], n->b.m[2][0],
                 n->b.m[0][1], n->b.m[1][1], n->b.m[2][1],
                 n->b.m[0][2], n->b.m[1][2], n->b.m[2][2],
@@ -168,9 +168,9 @@ static void store_vertex(
     v->p.x = js_coord(xy->coord.x);
     v->p.y = js_coord(xy->coord.y);
     v->p.z = js_coord(z);
-    v->n.x = js_coord(xn)*1000;
-    v->n.y = js_coord(yn)*1000;
-    v->n.z = js_coord(zn)*1000;
+    v->n.x = js_coord(xn*1000);
+    v->n.y = js_coord(yn*1000);
+    v->n.z = js_coord(zn*1000);
 
     v->c.r = 0xc0;
     v->c.g = 0xc0;
-- 
2.43.0


From 2f512aaded4235a82805cb72cee625c059a818d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 15/86] fix: --ps-scale-fit/-max: scale models whose maximal y
 is below the minimal x, too

---
 src/hob3l/ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/ps.c b/src/hob3l/ps.c
index 8a55ab9..5d673aa 100644
--- a/src/hob3l/ps.c
+++ b/src/hob3l/ps.c
@@ -18,7 +18,7 @@ extern void cp_ps_xform_from_minmax(
     cp_dim_t y_max)
 {
     *d = CP_PS_XFORM_MM;
-    if (cp_gt(x_max, x_min) && cp_gt(y_max, x_min)) {
+    if (cp_gt(x_max, x_min) && cp_gt(y_max, y_min)) {
         d->mul_x = cp_min(
             (CP_PS_PAPER_X - CP_PS_PAPER_MARGIN) / (x_max - x_min),
             (CP_PS_PAPER_Y - CP_PS_PAPER_MARGIN) / (y_max - y_min));
-- 
2.43.0


From 31acf38ea07a4cbc8aa774a88bd1e86ae4166cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 16/86] fix: JS output: normals of short outline edges were
 printed as zero

---
 src/hob3l/csg2-2js.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index e73944c..d56aafc 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -238,7 +238,7 @@ static void poly_put_js_outline_edge(
      * and (pk,z[0])..(pj,z[0])--(pj,z[1])
      */
     cp_vec3_t n;
-    cp_vec3_left_normal3(&n,
+    cp_vec3_left_normal3_x(&n,
         &(cp_vec3_t){{ pk->coord.x, pk->coord.y, z[0] }},
         &(cp_vec3_t){{ pj->coord.x, pj->coord.y, z[1] }},
         &(cp_vec3_t){{ pk->coord.x, pk->coord.y, z[1] }});
-- 
2.43.0


From f9481677facf4e10d0be446884fa06c6aec79942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 17/86] fix: PS output: crash when a layer is empty and the
 first one is not

---
 src/hob3l/csg2-2ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 623fd48..63c3475 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -211,7 +211,7 @@ static void layer_put_ps(
     size_t zi,
     cp_csg2_layer_t *r)
 {
-    if (zi != r->zi) {
+    if ((zi != r->zi) || (cp_csg_add_size(r->root) == 0)) {
         return;
     }
     v_csg2_put_ps(k, t, zi, &r->root->add);
-- 
2.43.0


From 62d03cd91893807f8052652dae05e928cc88dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 18/86] fix: reject unknown colour names instead of
 dereferencing NULL

---
 src/hob3l/gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index f2fe110..cc777a7 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -81,6 +81,9 @@ extern bool cp_color_by_name(
 
     /* by name */
     color_value_t const *c = color_find(name, len);
+    if (c == NULL) {
+        return false;
+    }
     rgb->r = (c->rgb >> 16) & 0xff;
     rgb->g = (c->rgb >> 8)  & 0xff;
     rgb->b = (c->rgb)       & 0xff;
-- 
2.43.0


From aef2259775c0e7556900a7f35c99eb1605f77785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 19/86] fix: look up colour names case-insensitively as
 documented

---
 src/hob3l/gc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index cc777a7..44df9c1 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -79,8 +79,16 @@ extern bool cp_color_by_name(
         return true;
     }
 
-    /* by name */
-    color_value_t const *c = color_find(name, len);
+    /* by name (case-insensitively) */
+    char lower[sizeof(((color_value_t*)0)->name)];
+    if (len >= sizeof(lower)) {
+        return false;
+    }
+    for (size_t i = 0; i <= len; i++) {
+        char ch = name[i];
+        lower[i] = (char)(((ch >= 'A') && (ch <= 'Z')) ? (ch - 'A' + 'a') : ch);
+    }
+    color_value_t const *c = color_find(lower, len);
     if (c == NULL) {
         return false;
     }
-- 
2.43.0


From 0e8c8376ebbbc91c6ae45826c3664b1f741b6894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 20/86] fix: report 'surface' and 'use' by
 --unsupported-functor instead of aborting

---
 src/hob3l/csg3.c | 11 ++---------
 src/hob3l/scad.c | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 5ec5610..5aa508c 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -999,17 +999,10 @@ static bool csg3_from_surface(
     }
     *no = true;
 
-    /* read file */
-    cp_syn_file_t *file = CP_NEW(*file);
-    if (!cp_syn_read(file, c->err, c->syn, s->file_tok, s->file.data, NULL)) {
-        assert(c->err->msg.size > 0);
-        return false;
-    }
-
+    /* not supported: the SCAD stage already reported this */
     (void)r;
     (void)m;
-    CP_NYI("surface");
-    return false;
+    return true;
 }
 
 static bool csg3_from_text(
diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 3c2c05b..bdd1747 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -107,6 +107,15 @@ static bool func_new_(
     return true;
 }
 
+static bool msg_unsupported(
+    ctxt_t *t,
+    cp_loc_t loc,
+    char const *what)
+{
+    return msg(t, t->opt->err_unsupported_functor, loc, NULL,
+        "'%s' is not supported yet.", what);
+}
+
 static bool union_from_item(
     ctxt_t *t,
     cp_syn_stmt_item_t *f,
@@ -1515,7 +1524,7 @@ static bool surface_from_item(
         return false;
     }
 
-    return true;
+    return msg_unsupported(t, f->loc, "surface");
 }
 
 static bool text_from_item(
@@ -1604,11 +1613,11 @@ static bool v_scad_from_syn_stmt_item(
 }
 
 static bool v_scad_from_syn_stmt_use(
-    ctxt_t *t CP_UNUSED,
+    ctxt_t *t,
     cp_v_scad_p_t *result CP_UNUSED,
-    cp_syn_stmt_use_t *f CP_UNUSED)
+    cp_syn_stmt_use_t *f)
 {
-    CP_NYI("`use <...>`");
+    return msg_unsupported(t, f->loc, "use");
 }
 
 static bool v_scad_from_syn_stmt(
-- 
2.43.0


From f2d786c454b7c58447e3ea17f6a2bedd39125b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 21/86] fix: report 'text' by --unsupported-functor when built
 without a font

---
 src/hob3l/scad.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index bdd1747..abf8150 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1563,7 +1563,11 @@ static bool text_from_item(
         return false;
     }
 
+#ifndef WITH_FONT
+    return msg_unsupported(t, f->loc, "text");
+#else
     return true;
+#endif
 }
 
 static bool projection_from_item(
-- 
2.43.0


From e04ea21b50be4c75b1d22f6dcf0032ffa884d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 22/86] fix: use the clamped scale for all slices of
 linear_extrude

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 5aa508c..3ae9955 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1730,7 +1730,7 @@ static bool csg3_from_linext(
             cp_mat2w_t mk = {0};
             cp_mat2w_rot(&mk, &CP_SINCOS_DEG(z * -twist));
             cp_mat2w_t mks = {0};
-            cp_mat2w_scale(&mks, cp_lerp(1, s->scale.x, z), cp_lerp(1, s->scale.y, z));
+            cp_mat2w_scale(&mks, cp_lerp(1, scale.x, z), cp_lerp(1, scale.y, z));
             cp_mat2w_mul(&mk, &mks, &mk);
             for (cp_v_each(j, &q->point_idx)) {
                  size_t const jo = cp_v_nth(&q->point_idx, j);
-- 
2.43.0


From 146fdaa700df3bb53cee8aa50631f7a265a1ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 23/86] fix: inserting part of a vector into itself failed
 unless it lay well before or after

---
 src/hob3lbase/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index f36a21f..57de5ec 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -315,7 +315,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size);
         }
         else
-        if (dst_end <= src_pos) {
+        if (dst_pos <= src_pos) {
             /* completely in last part */
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos+size, size);
         }
@@ -327,7 +327,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size1);
 
             /* second part behind gap */
-            assert(dst_end < src_end);
+            assert(dst_end > src_end);
             size_t size2 = size - size1;
             assert(dst_end + size2 == src_end + size);
             cp_v_copy_(m, dst, esz, dst_pos+size1, dst, dst_end, size2);
-- 
2.43.0


From 4cbe39e98c6022f9b20e85728afe929801ac3465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 24/86] fix: making a heap left the vector one element too long

---
 src/hob3lbase/heap.c | 1 +
 src/hob3lbase/vec.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hob3lbase/heap.c b/src/hob3lbase/heap.c
index d89a75d..ff3f094 100644
--- a/src/hob3lbase/heap.c
+++ b/src/hob3lbase/heap.c
@@ -108,6 +108,7 @@ extern void cp_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_heap_up_(vec, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 57de5ec..3252b23 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -577,6 +577,7 @@ extern void cp_v_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_v_heap_up_(vec, esz, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From db1b619595ec76d6f14c9454556a06a1cf1dd876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 25/86] fix: data stored right behind a vector was taken for
 part of it

---
 src/hob3lbase/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 3252b23..821082f 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -214,7 +214,7 @@ extern void cp_v_copy_arr_(
         /* recompute index pointer if it pointed into the dst vector*/
         if (old_data &&
             (data >= old_data) &&
-            (data <= cp_v_nth_elem_(old_data, old_size, esz)))
+            (data < cp_v_nth_elem_(old_data, old_size, esz)))
         {
             assert(
                 cp_v_nth_elem_(data, size, esz) <=
@@ -303,7 +303,7 @@ extern void *cp_v_insert_arr_(
      * originally contiguous data by the inflation. */
     if ((dst->data != NULL) &&
         (data >= dst->data) &&
-        (data <= cp_v_nth_elem_(dst->data, dst->size, esz)))
+        (data < cp_v_nth_elem_(dst->data, dst->size, esz)))
     {
         assert(cp_v_nth_elem_(data, size, esz) <= cp_v_nth_elem_(dst->data, dst->size, esz));
         size_t src_pos = cp_v_monus_(esz, data, dst->data);
-- 
2.43.0


From 376ee70294710164a2db07e100e90be7e06924df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 26/86] fix: printing to a vchar through a stream took the
 va_list for the arguments

---
 include/hob3lbase/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hob3lbase/stream.h b/include/hob3lbase/stream.h
index 80f5f41..be587b5 100644
--- a/include/hob3lbase/stream.h
+++ b/include/hob3lbase/stream.h
@@ -25,7 +25,7 @@
 #define CP_STREAM_FROM_VCHAR(vchar) \
     (&(cp_stream_t){ \
         .data = (vchar), \
-        .vprintf = (cp_stream_vprintf_t)cp_vchar_printf, \
+        .vprintf = (cp_stream_vprintf_t)cp_vchar_vprintf, \
         .write = (cp_stream_write_t)cp_vchar_append_arr, \
     })
 
-- 
2.43.0


From abe80af865be4e588cd9eac4631b32a4643311eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 27/86] fix: cp_pool_calloc: alignment 0 means the one derived
 from the size, as documented

---
 src/hob3lbase/pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/pool.c b/src/hob3lbase/pool.c
index c1c7428..2a2bde3 100644
--- a/src/hob3lbase/pool.c
+++ b/src/hob3lbase/pool.c
@@ -215,6 +215,10 @@ extern void *cp_pool_calloc(
         return NULL;
     }
 
+    if (align == 0) {
+        align = cp_size_align(size1);
+    }
+
     for (size_t try = 0; try < 3; try++) {
         void *r = try_block_calloc(pool->used.head, nmemb, size1, align);
         if (r != NULL) {
-- 
2.43.0


From f049e5b0f9be3f287549984bdea72b40a9fc123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 28/86] fix: UTF-8 decoder: use only the payload bits of
 continuation bytes

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 6eb9603..9bbb3f0 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -53,7 +53,7 @@ static inline bool get_cont(unsigned *result, char const *start, cp_utf8_iter_t
         return false;
     }
     iter_advance(iter);
-    *result = c2;
+    *result = c2 & 0x3f;
     return true;
 }
 
-- 
2.43.0


From 2259a14efde1414375ab4450924cbc647604f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 29/86] fix: hexadecimal string escape: report a missing last
 digit, too

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 9bbb3f0..2c6e33e 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -187,7 +187,6 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     iter_advance(iter);
 
     while (len > 0) {
-        --len;
         uint8_t cx = iter_get(iter);
         if (cx == 0) {
             break;
@@ -198,6 +197,7 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
         }
         iter_advance(iter);
         code = (code * base) + val;
+        --len;
     }
     if (len > 0) {
         iter_error(iter, start, "premature end of hexadecimal escape");
-- 
2.43.0


From 3ae5ef6e134deeb04338fbdea1f0ae08369be502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 30/86] fix: cp_min and cp_max compared int arguments as
 unsigned numbers

---
 include/hob3lbase/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hob3lbase/arith.h b/include/hob3lbase/arith.h
index e95d43b..7a602d0 100644
--- a/include/hob3lbase/arith.h
+++ b/include/hob3lbase/arith.h
@@ -47,7 +47,7 @@ static inline int cp_min_i(int a, int b)
 #define cp_min(a,b) \
     (_Generic(a, \
         size_t:  cp_min_z_, \
-        int:     cp_min_z_, \
+        int:     cp_min_i,  \
         default: cp_min_f_)(a,b))
 
 #define cp_min_update(a,...) \
@@ -75,7 +75,7 @@ static inline int cp_max_i(int a, int b)
 #define cp_max(a,b) \
     (_Generic(a, \
         size_t:  cp_max_z_, \
-        int:     cp_max_z_, \
+        int:     cp_max_i,  \
         default: cp_max_f_)(a,b))
 
 #define cp_max_update(a,...) \
-- 
2.43.0


From 0fa3cb7f602c1a58ed459bc72cfbd370248d5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 31/86] fix: cq_divmodx failed for dividends that do not fit
 the narrow type

---
 src/hob3lop/matq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lop/matq.c b/src/hob3lop/matq.c
index 079f774..ff42479 100644
--- a/src/hob3lop/matq.c
+++ b/src/hob3lop/matq.c
@@ -103,7 +103,7 @@ extern cq_divmod_t cq_divmodx(
         .div = (cq_dim_t)(x / d),
         .mod = (cq_dim_t)(x % d)
     };
-    if ((v.mod + (v.div * d)) != x) {
+    if ((v.mod + (v.div * (cq_dimw_t)d)) != x) {
         cq_fail("overflow in divide");
     }
     if (v.mod >= 0) {
-- 
2.43.0


From c3eb4ede98e04b304a94e263659a27128468c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 32/86] fix: cp_vecN_unit: return false when the result is the
 zero vector

---
 script/mkmat               | 2 +-
 src/hob3lmat/mat_gen_ext.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 610e5cb..8bcf8e5 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -475,7 +475,7 @@ sub gen_unit_vec($$$)
     my $s = '';
     $s .= "    $tdim l = ${name}_len(a);\n";
     $s .= "    ${name}_div(r, a, l);\n";
-    $s .= "    return !X_sqr_eq(l,0);\n";
+    $s .= "    return !X_eq(l,0);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index 012f1d9..d0261f8 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -339,7 +339,7 @@ extern bool cp_vec2_unit(
 {
     double l = cp_vec2_len(a);
     cp_vec2_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec3_unit(
@@ -348,7 +348,7 @@ extern bool cp_vec3_unit(
 {
     double l = cp_vec3_len(a);
     cp_vec3_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec4_unit(
@@ -357,7 +357,7 @@ extern bool cp_vec4_unit(
 {
     double l = cp_vec4_len(a);
     cp_vec4_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern void cp_vec2_lerp(
-- 
2.43.0


From ef91f89c835f7cbba669fa843c4773afbce526d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 33/86] fix: cp_matNi_inv: compute the determinant from the
 operand

---
 script/mkmat               |  2 +-
 src/hob3lmat/mat_gen_ext.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 8bcf8e5..acc585a 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -1443,7 +1443,7 @@ sub gen_inv_mati($$$)
     $s.= "        r->n = a->i;\n";
     $s.= "        r->i = a->n;\n";
     $s.= "    }\n";
-    $s.= "    r->d = X_div0(1, r->d);\n";
+    $s.= "    r->d = X_div0(1, a->d);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index d0261f8..ea1aef6 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -1142,7 +1142,7 @@ extern void cp_mat2i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat2wi_inv(
@@ -1155,7 +1155,7 @@ extern void cp_mat2wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3i_inv(
@@ -1168,7 +1168,7 @@ extern void cp_mat3i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3wi_inv(
@@ -1181,7 +1181,7 @@ extern void cp_mat3wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat4i_inv(
@@ -1194,5 +1194,5 @@ extern void cp_mat4i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
-- 
2.43.0


From 6f5c20cac93d1b07f1822523d3441a4f78ceea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 34/86] fix: cp_mat3_is_rect_rot: look at the right elements

---
 script/mkrotmat           |  4 ++--
 src/hob3lmat/mat_is_rot.c | 50 +++++++++++++++++++--------------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/script/mkrotmat b/script/mkrotmat
index 5de6793..c704282 100755
--- a/script/mkrotmat
+++ b/script/mkrotmat
@@ -9,7 +9,7 @@ sub all_0($$@)
 {
     my ($x,$y,@a) = @_;
     for my $a (@a) {
-        if ($a->[$x][$y]) {
+        if ($a->[$y][$x]) {
             return 0;
         }
     }
@@ -107,7 +107,7 @@ sub write_test($$@)
     die unless (scalar(@$cs2) + 1) == scalar(@$cs);
 
     my ($x,$y) = @$cb;
-    print ind($i)."if (!".is0($x,$y).") {\n";
+    print ind($i)."if (".is0($x,$y).") {\n";
     write_test($i+1, $cs2, @$b0);
     print ind($i)."}\n";
     write_test($i, $cs2, @$b1);
diff --git a/src/hob3lmat/mat_is_rot.c b/src/hob3lmat/mat_is_rot.c
index e473dcc..6563568 100644
--- a/src/hob3lmat/mat_is_rot.c
+++ b/src/hob3lmat/mat_is_rot.c
@@ -10,48 +10,48 @@ extern bool cp_mat3_is_rect_rot(
     /*   ? 0 0   ? 0 0   0 ? 0   0 ? 0   0 0 ?   0 0 ?
      *   0 ? 0   0 0 ?   ? 0 0   0 0 ?   ? 0 0   0 ? 0
      *   0 0 ?   0 ? 0   0 0 ?   ? 0 0   0 ? 0   ? 0 0  */
-    if (!cp_eq(m->m[0][0], 0)) {
+    if (cp_eq(m->m[0][0], 0)) {
         /*   O ? 0   O ? 0   O 0 ?   O 0 ?
          *   ? 0 0   0 0 ?   ? 0 0   0 ? 0
          *   0 0 ?   ? 0 0   0 ? 0   ? 0 0  */
-        if (!cp_eq(m->m[1][0], 0)) {
+        if (cp_eq(m->m[1][0], 0)) {
             /*   O ? 0   O 0 ?
              *   O 0 ?   O ? 0
              *   ? 0 0   ? 0 0  */
-            if (!cp_eq(m->m[0][1], 0)) { return false; }
-            if (!cp_eq(m->m[1][2], 0)) { return false; }
+            if (!cp_eq(m->m[2][1], 0)) { return false; }
             if (!cp_eq(m->m[2][2], 0)) { return false; }
-            if (!cp_eq(m->m[1][1], 0)) {
-                /*   O X 0
-                 *   O O X
-                 *   ? 0 O  */
-                if (!cp_eq(m->m[2][0], 0)) { return false; }
+            if (cp_eq(m->m[0][1], 0)) {
+                /*   O O ?
+                 *   O ? 0
+                 *   ? O O  */
+                if (!cp_eq(m->m[1][2], 0)) { return false; }
                 return true;
             }
-            /*   O O ?
-             *   O X O
-             *   ? 0 O  */
-            if (!cp_eq(m->m[2][1], 0)) { return false; }
+            /*   O X 0
+             *   O 0 ?
+             *   ? O O  */
+            if (!cp_eq(m->m[1][1], 0)) { return false; }
+            if (!cp_eq(m->m[0][2], 0)) { return false; }
             return true;
         }
         /*   O ? 0   O 0 ?
          *   X 0 0   X 0 0
          *   0 0 ?   0 ? 0  */
+        if (!cp_eq(m->m[2][0], 0)) { return false; }
         if (!cp_eq(m->m[1][1], 0)) { return false; }
-        if (!cp_eq(m->m[2][1], 0)) { return false; }
-        if (!cp_eq(m->m[0][2], 0)) { return false; }
-        if (!cp_eq(m->m[0][1], 0)) {
-            /*   O O X
-             *   X O 0
-             *   0 X 0  */
+        if (!cp_eq(m->m[1][2], 0)) { return false; }
+        if (cp_eq(m->m[0][1], 0)) {
+            /*   O O ?
+             *   X O O
+             *   O ? 0  */
             if (!cp_eq(m->m[2][2], 0)) { return false; }
             return true;
         }
-        /*   O X O
-         *   X O 0
-         *   0 O ?  */
-        if (!cp_eq(m->m[2][0], 0)) { return false; }
-        if (!cp_eq(m->m[1][2], 0)) { return false; }
+        /*   O X 0
+         *   X O O
+         *   O 0 ?  */
+        if (!cp_eq(m->m[2][1], 0)) { return false; }
+        if (!cp_eq(m->m[0][2], 0)) { return false; }
         return true;
     }
     /*   X 0 0   X 0 0
@@ -61,7 +61,7 @@ extern bool cp_mat3_is_rect_rot(
     if (!cp_eq(m->m[2][0], 0)) { return false; }
     if (!cp_eq(m->m[0][1], 0)) { return false; }
     if (!cp_eq(m->m[0][2], 0)) { return false; }
-    if (!cp_eq(m->m[1][1], 0)) {
+    if (cp_eq(m->m[1][1], 0)) {
         /*   X O O
          *   O O ?
          *   O ? 0  */
-- 
2.43.0


From ded7bbe84ced651cc86106f0d3e807ec58ac4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 35/86] fix: cp_dim3_rot_unit_into_z: no mirroring for (0,0,-1)

---
 src/hob3lmat/algo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index 03c1e10..f763976 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -154,7 +154,7 @@ extern void cp_dim3_rot_unit_into_z(
     double z = u->z;
     if (cp_eq(x,0) && cp_eq(y,0)) {
         *r0 = CP_VEC3(1, 0, 0);
-        *r1 = CP_VEC3(0, 1, 0);
+        *r1 = CP_VEC3(0, z, 0);
         *r2 = CP_VEC3(0, 0, z);
         return;
     }
-- 
2.43.0


From 21adea604c8f712341dfd24900d8a6176f48c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 36/86] fix: cp_vec3_normal: allow the result to be an operand

---
 src/hob3lmat/algo.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index f763976..7c3852d 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -214,8 +214,10 @@ extern bool cp_vec3_normal(
     cp_vec3_t const *a,
     cp_vec3_t const *b)
 {
-    cp_vec3_cross(r, a, b);
-    if (cp_vec3_unit(r,r)) {
+    cp_vec3_t c;
+    cp_vec3_cross(&c, a, b);
+    if (cp_vec3_unit(&c, &c)) {
+        *r = c;
         return true;
     }
 
-- 
2.43.0


From 82d640f5c535980f5f2fe4d7e05bdcf777e04ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 37/86] fix: rotate: reject an axis vector of length zero

---
 src/hob3l/csg3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 3ae9955..a448b31 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -394,6 +394,10 @@ static bool csg3_from_rotate(
     local_t const *mo,
     cp_scad_rotate_t const *s)
 {
+    if (s->around_n && cp_vec3_has_len0(&s->n)) {
+        return msg(c, CP_ERR_FAIL, s->loc, NULL, "Rotation axis vector has length zero.\n");
+    }
+
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (s->around_n) {
         cp_mat3wi_rot_v(m1, &s->n, &CP_SINCOS_DEG(s->a));
-- 
2.43.0


From 0bff5d319e47bbbb5362123b1247f049ac398aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 38/86] fix: SCAD dump: print the angle of rotate_extrude with
 full precision

---
 src/hob3l/scad-2scad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 4cb6818..293af30 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -82,7 +82,7 @@ static void rotext_put_scad(
     cp_scad_rotext_t const *r)
 {
     cp_printf(s, "rotate_extrude("
-        "angle=%g"
+        "angle="FF
         ", $fn=%u, $fa=%g, $fs=%g"
         "){\n", r->angle,
         r->detail._fn, r->detail._fa, r->detail._fs);
-- 
2.43.0


From 2757ecb945d4f2deff771d9e2e929cb90aaad809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 39/86] fix: SCAD dump: print the mandatory parameter of color
 without colour

---
 src/hob3l/scad-2scad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 293af30..62ca630 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -113,7 +113,7 @@ static void color_put_scad(
             r->rgba.a/255.0);
     }
     else {
-        cp_printf(s, "color(alpha=%.3g){\n",
+        cp_printf(s, "color(c=undef, alpha=%.3g){\n",
             r->rgba.a/255.0);
     }
     v_scad_put_scad(s, d + IND, &r->child);
-- 
2.43.0


From ce0fc8b7609f0affe1b6f7cd75d114ec590f8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 40/86] fix: SCAD dump: print import parameters so that they
 can be read back

---
 src/hob3l/scad-2scad.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 62ca630..13b2964 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -124,10 +124,18 @@ static void import_put_scad(
     cp_stream_t *s,
     cp_scad_import_t const *r)
 {
-    cp_printf(s, "import(s=\"%s\""
+    cp_printf(s, "import(file=\"%s\"", r->file_tok);
+    if (r->layer != NULL) {
+        cp_printf(s, ", layer=\"%s\"", r->layer);
+    }
+    if (r->id_tok != NULL) {
+        cp_printf(s, ", id=\"%s\"", r->id_tok);
+    }
+    cp_printf(s, ", center=%s, dpi="FF
         ", $fn=%u, $fa=%g, $fs=%g"
         ");\n",
-        r->file_tok,
+        r->center ? "true" : "false",
+        r->dpi,
         r->detail._fn, r->detail._fa, r->detail._fs);
 }
 
@@ -135,7 +143,7 @@ static void surface_put_scad(
     cp_stream_t *s,
     cp_scad_surface_t const *r)
 {
-    cp_printf(s, "surface(s=\"%s\",center=%s);\n",
+    cp_printf(s, "surface(file=\"%s\",center=%s);\n",
         r->file_tok, r->center?"true":"false");
 }
 
-- 
2.43.0


From 3e5b020f0ce2debb82a3ec13c428b39dc9e8e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 41/86] fix: CSG3 dump: do not print '!', which is accepted
 only once

---
 src/hob3l/csg3-2scad.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3-2scad.c b/src/hob3l/csg3-2scad.c
index d944c2f..159900e 100644
--- a/src/hob3l/csg3-2scad.c
+++ b/src/hob3l/csg3-2scad.c
@@ -14,6 +14,18 @@ static void v_csg3_put_scad(
     int d,
     cp_v_obj_p_t *r);
 
+/**
+ * Print the modifiers, without '!': the tree consists only of what that
+ * modifier selected, and it may have more than one object, while '!' is
+ * accepted only once.
+ */
+static void modifier_put_scad(
+    cp_stream_t *s,
+    unsigned modifier)
+{
+    cp_gc_modifier_put_scad(s, modifier & ~(unsigned)CP_GC_MOD_ROOT);
+}
+
 static void mat3wi_put_scad(
     cp_stream_t *s,
     cp_mat3wi_t const *m)
@@ -36,7 +48,7 @@ static void sphere_put_scad(
     cp_csg3_sphere_t *r)
 {
     cp_printf(s, "%*s", d,"");
-    cp_gc_modifier_put_scad(s, r->gc.modifier);
+    modifier_put_scad(s, r->gc.modifier);
     mat3wi_put_scad(s, r->mat);
     cp_printf(s, " sphere(r=1,center=true,$fn=%"CP_Z"u);\n",
         r->_fn);
@@ -99,7 +111,7 @@ static void poly_put_scad(
     cp_csg3_poly_t *r)
 {
     cp_printf(s, "%*s", d,"");
-    cp_gc_modifier_put_scad(s, r->gc.modifier);
+    modifier_put_scad(s, r->gc.modifier);
     cp_printf(s, "polyhedron(");
     cp_printf(s, "points=[");
     for (cp_v_each(i, &r->point)) {
-- 
2.43.0


From bdf3eb2d0688ab1fd5e87948b31751bb566e8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 42/86] fix: syntax dump: print modifiers, and blocks as blocks

---
 src/hob3l/syn-2scad.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/syn-2scad.c b/src/hob3l/syn-2scad.c
index 6a0fed3..993310c 100644
--- a/src/hob3l/syn-2scad.c
+++ b/src/hob3l/syn-2scad.c
@@ -10,6 +10,7 @@
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 #include <hob3l/syn.h>
+#include <hob3l/gc.h>
 #include "internal.h"
 
 static void cp_syn_stmt_put_scad(
@@ -84,7 +85,8 @@ static void cp_syn_stmt_item_put_scad(
     cp_syn_stmt_item_t *f)
 {
     cp_printf(s, "%*s", d, "");
-    if (f->functor != NULL) {
+    cp_gc_modifier_put_scad(s, f->modifier);
+    if ((f->functor != NULL) && !strequ(f->functor, "{")) {
         cp_printf(s, "%s(", f->functor);
         for (cp_v_each(i, &f->arg)) {
             cp_syn_arg_t const *a = f->arg.data[i];
-- 
2.43.0


From 98a5d2bdcaa6590e240e71e0de4ad64a8a76b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 43/86] fix: messages: a token in column 1 belongs to its own
 line

---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..5a1aaf5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
-- 
2.43.0


From 5daafa5e2a5854acb6fddba5bac476f66b1aad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 44/86] fix: messages: the end of a file without final newline
 is on its last line

---
 src/hob3l/syn-msg.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index 5a1aaf5..d95f9f0 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -160,6 +160,14 @@ extern bool cp_syn_get_loc(
             assert(loc->line != CP_SIZE_MAX);
             assert(loc->line < f->line.size);
 
+            /* without a final newline, the end of file is on the last line */
+            size_t off = CP_MONUS(token, f->content.data);
+            if ((loc->line > 0) && (off == f->content.size) &&
+                (cp_v_nth(&f->content_orig, off - 1) != '\n'))
+            {
+                loc->line--;
+            }
+
             /* compute line ranges for convenience */
             loc->copy = cp_v_nth(&f->line, loc->line);
             loc->copy_end = loc->copy;
-- 
2.43.0


From ad30ffee369abc064ea4d9e10a8fb8abc0804a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 45/86] fix: accept include at top level

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 3ba8d31..a1f2145 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -918,7 +918,7 @@ static bool parse_stmt_list(
             }
             break;}
         default:
-            if (p->c.tok.type & _T_KEY) {
+            if ((p->c.tok.type & _T_KEY) && (p->c.tok.type != K_INCLUDE)) {
                 return true;
             }
             if (!parse_item_push_stmt(p, r)) {
-- 
2.43.0


From 7f2c7d01995aab5b497e905e88aa9adc66450cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 46/86] fix: close included and imported files after reading
 them, limit include depth

---
 include/hob3l/syn_tam.h |  6 ++++++
 src/hob3l/syn.c         | 29 ++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/hob3l/syn_tam.h b/include/hob3l/syn_tam.h
index 1a36929..0ecadde 100644
--- a/include/hob3l/syn_tam.h
+++ b/include/hob3l/syn_tam.h
@@ -262,6 +262,12 @@ typedef struct {
      * first inclusion command.
      */
     char const *include_loc;
+
+    /**
+     * How deeply this is nested in inclusion commands (0 for the
+     * toplevel file).
+     */
+    unsigned depth;
 } cp_syn_file_t;
 
 typedef CP_VEC_T(cp_syn_file_t *) cp_v_syn_file_p_t;
diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index a1f2145..c3e4155 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -26,6 +26,9 @@
 #define T_LCOM      (_T_TOKEN + 7) /* line comment */
 #define T_BCOM      (_T_TOKEN + 8) /* block comment */
 
+/* Limit for nested inclusion (to recognise recursion) */
+#define MAX_INCLUDE_DEPTH 500
+
 #define _T_KEY      512 /* marker for keywords */
 #define K_INCLUDE   (_T_KEY + 1) /* 'include' */
 #define K_USE       (_T_KEY + 2) /* 'use' */
@@ -967,7 +970,7 @@ static bool read_file(
 {
     cp_vchar_t dir = {0};
 
-    if ((include_loc != NULL) && !is_absolute(filename)) {
+    if (include_loc != NULL) {
         cp_syn_loc_t loc;
         if (!cp_syn_get_loc(&loc, input, include_loc)) {
             cp_vchar_printf(&err->msg,
@@ -977,14 +980,25 @@ static bool read_file(
             return false;
         }
 
-        cp_vchar_append(&dir, &loc.file->filename);
-        while ((dir.size > 0) && !is_path_sep(cp_v_last(&dir))) {
-            dir.size--;
+        f->depth = loc.file->depth + 1;
+        if (f->depth > MAX_INCLUDE_DEPTH) {
+            cp_vchar_printf(&err->msg,
+                "Files are included too deeply: '%s'.\n", filename);
+            err->loc = include_loc;
+            return false;
+        }
+
+        if (!is_absolute(filename)) {
+            cp_vchar_append(&dir, &loc.file->filename);
+            while ((dir.size > 0) && !is_path_sep(cp_v_last(&dir))) {
+                dir.size--;
+            }
+            dir.data[dir.size] = 0; /* terminate again */
         }
-        dir.data[dir.size] = 0; /* terminate again */
     }
 
     cp_vchar_printf(&f->filename, "%s%s", cp_vchar_cstr(&dir), filename);
+    bool opened = false;
     if (file == NULL) {
         (void)cp_vchar_cstr(&f->filename);
         file = fopen(f->filename.data, "rb");
@@ -995,6 +1009,7 @@ static bool read_file(
             err->loc = include_loc;
             return false;
         }
+        opened = true;
     }
     f->file = file;
     f->include_loc = include_loc;
@@ -1017,6 +1032,10 @@ static bool read_file(
         }
         cp_vchar_append_arr(&f->content, buff, cnt);
     }
+    if (opened) {
+        fclose(f->file);
+        f->file = NULL;
+    }
     size_t z = f->content.size;
     cp_vchar_push(&f->content, '\0');
     f->content.size = z;
-- 
2.43.0


From 1fcbb722c5876fb4041495e71a5d1a9da91dab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 47/86] fix: report incomplete writing of binary output

---
 src/hob3lbase/stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/stream.c b/src/hob3lbase/stream.c
index f4fbc38..3e233b1 100644
--- a/src/hob3lbase/stream.c
+++ b/src/hob3lbase/stream.c
@@ -42,7 +42,7 @@ extern void cp_stream_fwrite(
     size_t size)
 {
     size_t i = fwrite(buff, 1, size, f);
-    if (i == 0) {
+    if (i != size) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
             strerror(ferror(f)));
     }
-- 
2.43.0


From 1a5f9fe33b3d669a84840a794df4e6570ed96428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 48/86] fix: do not use the output file after closing it

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 706848f..9504a03 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -785,7 +785,7 @@ int main(int argc, char **argv)
     if (fout != NULL) {
         if (fclose(fout) != 0) {
             cp_panic(CP_FILE, CP_LINE, "Unable to close output file '%s': %s\n",
-                opt.out_file_name, strerror(ferror(fout)));
+                opt.out_file_name, strerror(errno));
         }
     }
 
-- 
2.43.0


From ce3d09cde927aadbc03c3fadd2b96c5f57cf6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 49/86] fix: report when standard output cannot be written

---
 src/hob3l/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 9504a03..68a83cd 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -788,6 +788,10 @@ int main(int argc, char **argv)
                 opt.out_file_name, strerror(errno));
         }
     }
+    else
+    if (fflush(stdout) != 0) {
+        cp_panic(CP_FILE, CP_LINE, "Unable to write output: %s\n", strerror(errno));
+    }
 
     /* print error */
     if (!ok) {
-- 
2.43.0


From 91c858e9a30355513700d70cdde42772a7318f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 50/86] fix: --gran: do not ignore values below --eps

---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 68a83cd..af2df18 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -706,7 +706,7 @@ int main(int argc, char **argv)
     }
 
     /* post-process options */
-    if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
+    if (fabs(opt.cq_dim_scale_recip) > 0) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
-- 
2.43.0


From 48ae7d356337a9dd288975ee51385d548bfc3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 51/86] fix: --grid=0: no grid 0 for 2D operations and without
 automatic adjustment

---
 src/hob3l/main.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index af2df18..1accfce 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -153,7 +153,8 @@ static bool process_stack_diff(
  */
 static void auto_dim_scale(
     cp_opt_t *opt,
-    cp_vec3_minmax_t *bb)
+    cp_vec3_minmax_t *bb,
+    bool max_grid)
 {
     if (opt->auto_scale == AUTO_SCALE_NONE) {
         return;
@@ -179,7 +180,7 @@ static void auto_dim_scale(
     }
 
     int best_shift = have_dig - absmax_dig;
-    if (cp_eq(cq_dim_scale,0) || (default_shift > best_shift)) {
+    if (max_grid || (default_shift > best_shift)) {
         cq_dim_scale = pow(2, best_shift);
     }
 }
@@ -226,6 +227,13 @@ static bool do_file(
     cp_pool_t pool;
     cp_pool_init(&pool);
 
+    /* for --grid=0, the grid can only be computed once the size is known,
+     * so use the default grid for 2D operations */
+    bool max_grid = cp_eq(cq_dim_scale, 0);
+    if (max_grid) {
+        cq_dim_scale = CP_DIM_SCALE_DEFAULT;
+    }
+
     /* stage 3: 3D CSG */
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3->opt = &opt->csg;
@@ -267,7 +275,7 @@ static bool do_file(
      * rounding error occurs when converting to `float` (for binary STL).
      */
     if (cp_vec3_minmax_valid(&bb)) {
-        auto_dim_scale(opt, &bb);
+        auto_dim_scale(opt, &bb, max_grid);
     }
 
     /* stage 4: 2D CSG */
@@ -709,6 +717,11 @@ int main(int argc, char **argv)
     if (fabs(opt.cq_dim_scale_recip) > 0) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
+    if ((cq_dim_scale < 0) || (cp_eq(cq_dim_scale, 0) && (opt.auto_scale == AUTO_SCALE_NONE))) {
+        fprintf(stderr, "Error: --grid must be positive (or 0 with --auto-grid), found %g\n",
+            cq_dim_scale);
+        exit(EXIT_FAILURE);
+    }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
         cp_sqr_epsilon = cp_eq_epsilon;
     }
-- 
2.43.0


From bd6391e0b3f79cba19d105a41a89cdc9d986df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 52/86] fix: automatic grid: avoid integer overflow for
 subtracted parts and z coordinates

---
 src/hob3l/main.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 1accfce..37e97fb 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -154,6 +154,7 @@ static bool process_stack_diff(
 static void auto_dim_scale(
     cp_opt_t *opt,
     cp_vec3_minmax_t *bb,
+    cp_vec3_minmax_t *full,
     bool max_grid)
 {
     if (opt->auto_scale == AUTO_SCALE_NONE) {
@@ -180,6 +181,20 @@ static void auto_dim_scale(
     }
 
     int best_shift = have_dig - absmax_dig;
+
+    /* Everything that is sliced needs to fit into the integer range, also
+     * what is subtracted, and also the z coordinates. */
+    double fullmaxx = cp_max(fabs(full->min.x), fabs(full->max.x));
+    double fullmaxy = cp_max(fabs(full->min.y), fabs(full->max.y));
+    double fullmaxz = cp_max(fabs(full->min.z), fabs(full->max.z));
+    double fullmax  = cp_max(fullmaxx, cp_max(fullmaxy, fullmaxz));
+
+    int fullmax_dig = 0;
+    (void)frexp(fullmax, &fullmax_dig);
+    if (best_shift > (CQ_INT_DIG - fullmax_dig)) {
+        best_shift = CQ_INT_DIG - fullmax_dig;
+    }
+
     if (max_grid || (default_shift > best_shift)) {
         cq_dim_scale = pow(2, best_shift);
     }
@@ -275,7 +290,7 @@ static bool do_file(
      * rounding error occurs when converting to `float` (for binary STL).
      */
     if (cp_vec3_minmax_valid(&bb)) {
-        auto_dim_scale(opt, &bb, max_grid);
+        auto_dim_scale(opt, &bb, &full_minmax, max_grid);
     }
 
     /* stage 4: 2D CSG */
-- 
2.43.0


From 4a735866af557d7d3412aec630048b8844ff20f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 53/86] fix: slicing far outside of the model: no integer
 overflow

---
 src/hob3lop/op-slice.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hob3lop/op-slice.c b/src/hob3lop/op-slice.c
index dbbec6f..448cb76 100644
--- a/src/hob3lop/op-slice.c
+++ b/src/hob3lop/op-slice.c
@@ -66,6 +66,14 @@ static inline void cq_slice_polyline_float(
     cp_vec3_loc_ref_t const *af,
     cp_vec3_loc_ref_t const *bf)
 {
+    /* lines more than two units away from z are not cut: skip them early, as
+     * z may be out of range for integers. */
+    double az = (af->ref->coord.z - z) * cq_dim_scale;
+    double bz = (bf->ref->coord.z - z) * cq_dim_scale;
+    if (((az > 2) && (bz > 2)) || ((az < -2) && (bz < -2))) {
+        return;
+    }
+
     cq_vec3_t ai = {
         .x = cq_import_dim(af->ref->coord.x),
         .y = cq_import_dim(af->ref->coord.y),
-- 
2.43.0


From f392182c2db2ec5a244276bdce2701d4ab7c41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 54/86] fix: slice ellipsoids of any size, and up to their top

---
 src/hob3l/csg2-layer.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg2-layer.c b/src/hob3l/csg2-layer.c
index 93b906e..8b67365 100644
--- a/src/hob3l/csg2-layer.c
+++ b/src/hob3l/csg2-layer.c
@@ -63,8 +63,9 @@ static void csg2_add_layer_sphere(
      * Idea:
      *   * Map the cutting XZ plane into the unit sphere coordinate system using
      *     the inverse object coordinate matrix.  This can be done by mapping three
-     *     points in the XY plane, e.g., [1,0,z], [0,0,z], and [0,1,z] and then
-     *     reconstructing the plane normal from those points.
+     *     points in the XY plane, e.g., [x,0,z], [0,0,z], and [0,y,z] and then
+     *     reconstructing the plane normal from those points.  Using the size of the
+     *     ellipsoid for x and y avoids epsilon problems for large ones.
      *   * Rotate the unit sphere's coordinate system so that the mapped plane
      *     is parallel to z again, call this coordinate system Q.  This can be
      *     done using the *_rot_into_z() matrix.
@@ -79,9 +80,11 @@ static void csg2_add_layer_sphere(
      */
 
     /* step 1: compute the plane in d's coordinate system */
-    cp_vec3_t oa = {{ 1, 0, z }};
+    double const *mx = d->mat->n.b.m[0];
+    double const *my = d->mat->n.b.m[1];
+    cp_vec3_t oa = {{ sqrt(mx[0]*mx[0] + mx[1]*mx[1] + mx[2]*mx[2]), 0, z }};
     cp_vec3_t ob = {{ 0, 0, z }};
-    cp_vec3_t oc = {{ 0, 1, z }};
+    cp_vec3_t oc = {{ 0, sqrt(my[0]*my[0] + my[1]*my[1] + my[2]*my[2]), z }};
     cp_vec3_t sa, sb, sc;
     cp_vec3w_xform(&sa, &d->mat->i, &oa);
     cp_vec3w_xform(&sb, &d->mat->i, &ob);
@@ -102,7 +105,7 @@ static void csg2_add_layer_sphere(
 
     /* step 4: distance and radius of circle cutting the plane */
     cp_dim_t dist = fabs(sq.z);
-    if (cp_ge(dist, 1)) {
+    if (dist >= 1) {
         /* plane does not cut unit sphere */
         return;
     }
-- 
2.43.0


From b17c3a9d523f61f1b469c373d8fae646afb7af0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 55/86] fix: SVG: y, cy were ignored if x, cx was missing

---
 src/hob3l/svg-parse.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c968d0a..d8b42f4 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1105,9 +1105,10 @@ static bool s_attr_coord(
 {
     *xp = 0.0;
     *yp = 0.0;
-    return
-        s_attr_dim(xp, xml, namex, c->width,  1) &&
-        s_attr_dim(yp, xml, namey, c->height, 1);
+    /* each is optional, so try to read both in any case */
+    bool have_x = s_attr_dim(xp, xml, namex, c->width,  1);
+    bool have_y = s_attr_dim(yp, xml, namey, c->height, 1);
+    return have_x && have_y;
 }
 
 static bool s_attr_size(
-- 
2.43.0


From d1e8fcaf30f4e795bd504704cf27c843322f1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 56/86] fix: SVG: layer was found only for elements with a
 transform attribute

---
 src/hob3l/svg-parse.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index d8b42f4..cb5f69a 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1451,6 +1451,16 @@ static void process_std_attr(
     ctxt_t const *p,
     cp_xml_t *xml)
 {
+    /* compare layer with `id` attribute in SVG, like InkScape stores it. */
+    if ((*c)->layer != NULL) {
+        char const *id = s_attr_str(xml, "id");
+        if (strequ0((*c)->layer, id)) {
+            set_local(c, n);
+            /* setting 'layer' to NULL means 'active' */
+            n->layer = NULL;
+        }
+    }
+
     /* process transform commands */
     char const *s = s_attr_str(xml, "transform");
     if (s == NULL) {
@@ -1463,16 +1473,6 @@ static void process_std_attr(
         }
         s_sep(&s, COMMA);
     }
-
-    /* compare layer with `id` attribute in SVG, like InkScape stores it. */
-    if ((*c)->layer != NULL) {
-        char const *id = s_attr_str(xml, "id");
-        if (strequ0((*c)->layer, id)) {
-            set_local(c, n);
-            /* setting 'layer' to NULL means 'active' */
-            n->layer = NULL;
-        }
-    }
 }
 
 typedef bool (*callback_t)(
-- 
2.43.0


From e547a70dea5d7274fe09f48baa61cd05b8d0f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 57/86] fix: SVG: numbers with a signed exponent were rejected

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index cb5f69a..b18be65 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -917,7 +917,7 @@ static char const *s_str_float(
     if ((*s == 'e') || (*s == 'E')) {
         char const *t = s;
         t++;
-        (void)(s_expect_raw(&s, "-") || s_expect_raw(&s, "+"));
+        (void)(s_expect_raw(&t, "-") || s_expect_raw(&t, "+"));
         bool have_exp = false;
         while ((*t >= '0') && (*t <= '9')) {
             have_exp = true;
-- 
2.43.0


From c01f48fb34f260dd2384db69bb23db207c637e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 58/86] fix: SVG: empty and broken paths and polygons crashed
 or were left half converted

---
 src/hob3l/svg-parse.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index b18be65..b02857f 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -346,6 +346,10 @@ static void path_fini(
     cp_loc_t loc)
 {
     path_end(p, loc);
+    if (p->poly == NULL) {
+        /* nothing was drawn */
+        return;
+    }
     path_uniquify(p);
 
     if (p->poly->point.size < 3) {
@@ -1736,8 +1740,8 @@ static bool csg2_from_polyline(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    /* in case of an error, render everything up to it */
+    (void)str_path_coord1(&q, &s, ABS, path_move, path_line);
     path_fini(&q, s);
     return true;
 }
@@ -1750,8 +1754,8 @@ static bool csg2_from_polygon(
 {
     char const *s = TRY(s_attr_str(x, "points"));
     path_t q = path_new(r, p, c);
-    TRY(str_path_coord1(&q, &s, ABS, path_move, path_line));
-    TRY(s_end(&s));
+    /* in case of an error, render everything up to it */
+    (void)str_path_coord1(&q, &s, ABS, path_move, path_line);
     path_close(&q, s);
     path_fini(&q, s);
     return true;
-- 
2.43.0


From 421d8dc95bdd79836c4c1b48b25bf6006e0f7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 59/86] fix: SVG: closing an empty subpath went back to the
 subpath before

---
 src/hob3l/svg-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index b02857f..fafb680 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -465,6 +465,9 @@ static void path_move(
     }
     path_end(p, loc);
     path_cur(p, loc, x, y, 0,0,0);
+    /* closing the subpath goes back to here, even if nothing was drawn */
+    p->init_x = x;
+    p->init_y = y;
 }
 
 static inline void path_quad_abs(
-- 
2.43.0


From 2a32e3e854550cad34c4a826884abd95732169f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 60/86] fix: SVG: small arcs had a wrong center, almost
 straight ones lost their start

---
 src/hob3l/svg-parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index fafb680..77424d1 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -706,7 +706,7 @@ static inline void path_arc_abs(
     double ry2 = cp_sqr(ry);
     double num = fmax(0, (rx2 * ry2) - (rx2 * y1p2) - (ry2 * x1p2));
     double den = (rx2 * y1p2) + (ry2 * x1p2);
-    double coef = sqrt(cp_div0(num, den));
+    double coef = (den > 0) ? sqrt(num / den) : 0;
     if (fa == fs) { coef = -coef; }
     double cxp = +coef * cp_div0(rx * v1p.y, ry);
     double cyp = -coef * cp_div0(ry * v1p.x, rx);
@@ -728,6 +728,7 @@ static inline void path_arc_abs(
     if (!fs && (dth > 0)) { dth -= CP_TAU; }
     if (fs  && (dth < 0)) { dth += CP_TAU; }
 
+    path_start(p, loc);
     path_arc2_abs(p, loc, rx, ry, th1, dth, c.x, c.y, &rot);
     path_push(p, loc, x2, y2);
     path_cur(p, loc, x2,y2, 0,0,0);
-- 
2.43.0


From e98a60c7286357afce58bfda697923042ddb0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 61/86] fix: SVG: preserveAspectRatio was inverted, its default
 was misplaced

---
 src/hob3l/svg-parse.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 77424d1..406ac2f 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1031,10 +1031,13 @@ static void svg_xform(
 
     s_expect(&pas, "defer");
 
-    /* 0 = min, 0.5 = mid, 1 = max, <0 = none */
+    /* 0 = min, 0.5 = mid, 1 = max, default is mid */
     double align_x = match_align(pas, "xMin", "xMid", "xMax");
     double align_y = match_align(pas, "YMin", "YMid", "YMax");
-    bool do_align = (align_x < 0) && (align_y < 0);
+    if ((align_x < 0) || (align_y < 0)) {
+        align_x = align_y = 0.5;
+    }
+    bool do_align = (strstr(pas, "none") == NULL);
     bool slice = (strstr(pas, "slice") != NULL);
 
     double scale_x = cp_div0(ew, vw);
-- 
2.43.0


From 7e76b57719268a0e1d2f60ed211cf8f777b34f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 62/86] fix: SVG: viewBox without a size was not applied,
 centering used it when missing

---
 src/hob3l/svg-parse.c | 44 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 406ac2f..aa56896 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1570,8 +1570,25 @@ static bool csg2_from_svg(
             &CP_MAT2WI_SCALE1(have_size ? U_PX_MM : U_DPI_MM(c0->dpi)));
     }
 
-    /* scale only if we have all params: we have no external size limit */
-    if (have_size && have_viewBox) {
+    if (have_viewBox) {
+        /* scale only if we have all params: we have no external size limit */
+        if (!have_size) {
+            ew = vw;
+            eh = vh;
+        }
+
+        /* At top level, have a coordinate shift to put the SVG in
+         * positive coordinates */
+        if (c0->toplevel) {
+            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -eh));
+        }
+
+        /* apply centering, if requested (we're not clipping, so we
+         * can do it late (i.e., only now)*/
+        if (c0->center) {
+            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-ew/2, +eh/2));
+        }
+
         c1.width = vw;
         c1.height = vh;
         c1.dim = sqrt((vw*vw + vh*vh) / 2);
@@ -1580,24 +1597,11 @@ static bool csg2_from_svg(
         svg_xform(&m1, vx, vy, vw, vh, 0, 0, ew, eh, pas);
         xform_apply(&c, &c1, &m1);
     }
-
-    /* apply centering, if requested and possible (we're not clipping, so we
-     * can do it late (i.e., only now)*/
-    if (c0->center) {
-        if (have_ew) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-vw/2, 0));
-        }
-        if (have_eh) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, +vh/2));
-        }
-    }
-
-    /* At top level, have a coordinate shift to put the SVG in
-     * positive coordinates */
-    if (c0->toplevel) {
-        if (have_viewBox) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -vh));
-        }
+    else
+    if (have_size && !c0->toplevel) {
+        c1.width = ew;
+        c1.height = eh;
+        c1.dim = sqrt((ew*ew + eh*eh) / 2);
     }
 
     /* recurse */
-- 
2.43.0


From 8f7e4f65685692dd56fe4fa302dab80d2c2c3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 63/86] fix: XML: endless loops for missing names and
 unterminated tags and comments

---
 src/hob3l/xml-parse.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9a60ef5..f54124e 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -14,8 +14,6 @@ typedef struct {
     char *loc;
     char *str_next;
     char *str_end;
-
-    char *tok_start;
 } parse_t;
 
 typedef struct ctxt ctxt_t;
@@ -184,6 +182,7 @@ static bool is_tag_char(unsigned c)
         return true;
     }
     switch (c) {
+    case 0:
     case '!':  case '"': case '#':  case '$': case '%':  case '&': case '\'': case '(':
     case ')':  case '*': case '+':  case ',': case '/':  case ';': case '<':  case '=':
     case '>':  case '?': case '@':  case '[': case '\\': case ']': case '^':  case '`':
@@ -203,8 +202,8 @@ static char *parse_tag(
             TRY(lex_next(p));
         }
     }
-    if (p->tok_start == p->loc) {
-        ERR(p, p->tok_start, "Expected a tag name.\n");
+    if (tok == p->loc) {
+        ERR(p, p->loc, "Expected a tag name.\n");
     }
 
     /* NUL terminate */
@@ -443,6 +442,9 @@ static bool skip_comment(
             TRY(expect(p, "-->"));
             return true;
         }
+        if (p->cur == 0) {
+            ERR(p, p->loc, "Unexpected end of file inside comment.");
+        }
         TRY(lex_next(p));
     }
 }
-- 
2.43.0


From 8cd1b4cef5991a40a84f3b9c1896ae9c9805c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 64/86] fix: XML: crash for a namespace declaration without
 value

---
 src/hob3l/xml-parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index f54124e..0ea1c2a 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -420,6 +420,13 @@ static bool parse_attr_list(
         }
         assert(attr->next == NULL);
 
+        if ((attr->child == NULL) &&
+            (strequ(attr->data, "xmlns") ||
+             ((attr->ns_prefix != NULL) && strequ(attr->ns_prefix, "xmlns"))))
+        {
+            ERR(p, attr->loc, "Expected a value for namespace declaration.\n");
+        }
+
         if ((attr->ns_prefix != NULL) && strequ(attr->ns_prefix, "xmlns")) {
             attr->next = c->ns_map;
             c->ns_map = attr;
-- 
2.43.0


From 910127e2b2bfb5d7c4b6eb5465cf8419bb8f7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 65/86] fix: XML: a comment before an end tag was an error

---
 src/hob3l/xml-parse.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 0ea1c2a..380ce27 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -471,7 +471,6 @@ static bool parse_content(
 {
     *rp = NULL;
 
-again:
     /* EOF is OK, leaves *rp==NULL */
     if (p->cur == 0) {
         return true;
@@ -479,13 +478,6 @@ again:
 
     if (p->cur == '<') {
         TRY(lex_next(p));
-        /* comment */
-        if  (p->cur == '!') {
-            TRY(expect(p, "!--"));
-            TRY(skip_comment(p));
-            goto again;
-        }
-
         /* element */
         return parse_elem(rp, p, c);
     }
@@ -504,6 +496,12 @@ static bool parse_content_list(
     char const *tag)
 {
     for (;;) {
+        /* comment: may be followed by anything, also by an end tag */
+        if ((p->cur == '<') && (*p->str_next == '!')) {
+            TRY(lex_next(p) && expect(p, "!--") && skip_comment(p));
+            continue;
+        }
+
         /* end tag */
         if ((tag != NULL) && (p->cur == '<') && (*p->str_next == '/')) {
             TRY(lex_next(p) && lex_next(p));
-- 
2.43.0


From 30fb2a7cfe79ef9bbb2d18b49f2159d99f2fe99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 66/86] fix: SVG: empty lines and arcs did not reset the
 control point for S and T

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index aa56896..6d673c2 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -407,6 +407,7 @@ static inline void path_line_abs(
     double y)
 {
     if (cp_eq(p->cur_x, x) && cp_eq(p->cur_y, y)) {
+        p->prev_cmd = 0;
         return;
     }
     path_start(p, loc);
@@ -671,6 +672,7 @@ static inline void path_arc_abs(
 
     /* 9.5.1 */
     if (cp_eq(p->cur_x, x2) && cp_eq(p->cur_y, y2)) {
+        p->prev_cmd = 0;
         return;
     }
 
-- 
2.43.0


From 40d19539911833b464e5126effe7a75ea093fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 67/86] fix: SVG: crash for shapes without attributes

---
 src/hob3l/svg-parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 6d673c2..16736e8 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1814,6 +1814,11 @@ static bool csg2_from_obj(
         return true;
     }
 
+    /* an object with neither attributes nor children draws nothing */
+    if (x == NULL) {
+        return true;
+    }
+
     /* layer is active => invoke worker */
     return callback(r, p, c, x);
 }
-- 
2.43.0


From 7dc2e40b9ac744915e5615721640cbfd0d545195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 68/86] fix: numbers that are too large or not finite crashed
 the SCAD, SVG and STL import

---
 src/hob3l/stl-parse.c | 11 +++++++++++
 src/hob3l/svg-parse.c |  1 +
 src/hob3l/syn.c       |  4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 99ebd13..705cb70 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -339,6 +339,10 @@ static bool parse_float(
     cp_f_t *v)
 {
     *v = strtod(p->tok_string, NULL);
+    if (!cp_isfinite(*v)) {
+        cp_vchar_printf(&p->err->msg, "Number is out of range.\n");
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
@@ -576,6 +580,13 @@ static bool bin_vertex(parse_t *p, cp_vec3_dict_node_t **n)
     if (!bin_vec3(p, &v)) {
         return false;
     }
+    for (cp_size_each(i, 3)) {
+        if (!cp_isfinite(v.v[i])) {
+            p->err->loc = loc;
+            cp_vchar_printf(&p->err->msg, "Vertex coordinate is not a finite number.\n");
+            return false;
+        }
+    }
 
     *n = cp_vec3_dict_insert(p->tmp, &p->point, &v, loc);
     return true;
diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 16736e8..43b3370 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -951,6 +951,7 @@ static bool s_double(
     char *ep = NULL;
     double r = strtod(*sp, &ep);
     TRY(ep == se);
+    TRY(cp_isfinite(r));
     *rp = r;
     *sp = se;
     return true;
diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index c3e4155..65a8651 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -519,6 +519,10 @@ static bool parse_float(
 {
     assert(r->type == CP_SYN_VALUE_FLOAT);
     r->value = strtod(p->c.tok.string, NULL);
+    if (!cp_isfinite(r->value)) {
+        cp_vchar_printf(&p->err->msg, "Number is out of range.\n");
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From f25a26a089b61a67310023103e23ef8e46f39cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 69/86] fix: deeply nested SCAD and SVG files overflowed the
 stack

---
 src/hob3l/syn.c       | 36 ++++++++++++++++++++++++++++++++++--
 src/hob3l/xml-parse.c | 12 ++++++++++++
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 65a8651..674ac9a 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -29,6 +29,11 @@
 /* Limit for nested inclusion (to recognise recursion) */
 #define MAX_INCLUDE_DEPTH 500
 
+/**
+ * Maximum nesting of blocks and lists: all stages recurse into them, so this
+ * avoids a stack overflow. */
+#define MAX_NEST_DEPTH 1000
+
 #define _T_KEY      512 /* marker for keywords */
 #define K_INCLUDE   (_T_KEY + 1) /* 'include' */
 #define K_USE       (_T_KEY + 2) /* 'use' */
@@ -58,6 +63,7 @@ typedef struct {
     cp_err_t *err;
     cp_syn_input_t *input;
     parse_ctxt_t c;
+    unsigned depth;
 } parse_t;
 
 static void tok_next(parse_t *p);
@@ -473,6 +479,24 @@ static bool expect_err(
     return false;
 }
 
+static bool nest(
+    parse_t *p)
+{
+    if (p->depth >= MAX_NEST_DEPTH) {
+        cp_vchar_printf(&p->err->msg, "Nesting is too deep.\n");
+        return false;
+    }
+    p->depth++;
+    return true;
+}
+
+static bool unnest(
+    parse_t *p)
+{
+    p->depth--;
+    return true;
+}
+
 static bool parse_stmt_list(
     parse_t *p,
     cp_v_syn_stmt_p_t *r);
@@ -675,7 +699,10 @@ static bool parse_value(
         return parse_new_id(p, r);
 
     case '[':
-        return parse_new_range_or_array(p, r);
+        return
+            nest(p) &&
+            parse_new_range_or_array(p, r) &&
+            unnest(p);
 
     default:
         if (!have_err_msg(p)) {
@@ -816,11 +843,16 @@ static bool parse_stmt_item(
         /* body in { ... } */
         return
             expect(p, '{') &&
+            nest(p) &&
             parse_stmt_item_list(p, &r->body) &&
+            unnest(p) &&
             expect_err(p, '}');
 
     default:
-        return parse_item_push_stmt_item(p, &r->body);
+        return
+            nest(p) &&
+            parse_item_push_stmt_item(p, &r->body) &&
+            unnest(p);
     }
 }
 
diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 380ce27..9fe6959 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -28,8 +28,16 @@ struct ctxt {
 
     /** default namespace */
     char const *ns_default;
+
+    /** nesting depth */
+    unsigned depth;
 };
 
+/**
+ * Maximum nesting of elements: all stages recurse into them, so this
+ * avoids a stack overflow. */
+#define MAX_NEST_DEPTH 1000
+
 char const cp_xml_any_[] = "--match anything--";
 
 /* ********************************************************************** */
@@ -584,7 +592,11 @@ static bool parse_elem(
         .bottom = &r->child,
         .ns_default = co->ns_default,
         .ns_map = co->ns_map,
+        .depth = co->depth + 1,
     };
+    if (c->depth > MAX_NEST_DEPTH) {
+        ERR(p, loc, "Nesting is too deep.\n");
+    }
     TRY(parse_attr_list(p, c));
     TRY(resolve_ns(p, c, r));
     if (p->cur == '/') {
-- 
2.43.0


From 6a59541e82fa5835dc0ef419d21f1e566fb23f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 70/86] fix: --max-fn below 3 crashed

---
 src/hob3l/opt.switch | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 34454fa..61d362b 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -78,6 +78,12 @@ case "max-fn": uint32 &opt->csg.max_fn {
     "and not converted to polyhedra.";
     "Currently, because no output format has circular arc structures, no attempt";
     "was made to produce read arcs.  So circles are still approximated by polygons.";
+
+    if (opt->csg.max_fn < 3) {
+        fprintf(stderr, "Error: --max-fn=N: N must be >=3, found %u.\n",
+            opt->csg.max_fn);
+        exit(EXIT_FAILURE);
+    }
 }
 
 case "opt-no-skip-empty": bool neg_bool &a {
-- 
2.43.0


From 2c721252da4e3804a5c7253c058004fa6edcf648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 71/86] fix: no limit for the number of edges crossing in one
 point

The sweep asserted that at most 100 edges cross in one point, so valid
drawings with more edges through a common point ended with an assertion
failure.  The loops end at the first edge that is not part of the
crossing, so no limit is needed.
---
 src/hob3lop/op-sweep.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index 6a90ae7..7d405af 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -709,8 +709,7 @@ static void ev_cross(
     assert(ev->some_edge != NULL);
     edge_t *u = NULL;
     edge_t *t = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -724,8 +723,7 @@ static void ev_cross(
 
     edge_t *r = NULL;
     edge_t *s = ev->some_edge;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         r = tree_edge_prev(s);
         if (r == NULL) {
             break;
@@ -1064,8 +1062,7 @@ static inline void sweep_phase2_edge_reverse(
 
     /* find top-most and bottom most edge */
     edge_t *t = s;
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *u = tree_edge_next(t);
         if (u == NULL) {
             break;
@@ -1077,8 +1074,7 @@ static inline void sweep_phase2_edge_reverse(
     }
     assert(t != NULL);
 
-    for (int i CP_UNUSED = 0;;) {
-        assert(i++ < 100);
+    for (;;) {
         edge_t *r = tree_edge_prev(s);
         if (r == NULL) {
             break;
-- 
2.43.0


From b5637046da4d12d0822f96a91c87c0874ad6cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 72/86] fix: negative or too large values of unsigned options
 were silently reduced

---
 src/hob3l/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 37e97fb..649fbba 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -546,7 +546,7 @@ static void get_arg_size(
 {
     char *r = NULL;
     unsigned long long val = strtoull(str, &r, 10);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (strchr(str, '-') != NULL)) {
         fprintf(stderr, "Error: %s: invalid number: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
@@ -588,7 +588,7 @@ static void get_arg_rgb(
 {
     char *r = NULL;
     unsigned long w = strtoul(str, &r, 16);
-    if ((str == r) || (*r != '\0')) {
+    if ((str == r) || (*r != '\0') || (strchr(str, '-') != NULL) || (w > 0xffffff)) {
         fprintf(stderr, "Error: %s: invalid rgb color: '%s'\n", arg, str);
         exit(EXIT_FAILURE);
     }
-- 
2.43.0


From ab6ab46af6018bbd8d99ae3ac2c00bb4d95e90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 73/86] fix: an argument to an option that has none was
 silently ignored

---
 src/hob3l/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 649fbba..72bbe36 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -660,7 +660,13 @@ static void parse_opt(
     }
 
     char const *arg = NULL;
-    if (g->need_arg > 0) {
+    if (g->need_arg == 0) {
+        if (eq != NULL) {
+            fprintf(stderr, "Error: Unexpected argument: '%s'\n", argvi);
+            exit(EXIT_FAILURE);
+        }
+    }
+    else {
         if (key.s[key.n] == '=') {
             arg = key.s + key.n + 1;
         }
-- 
2.43.0


From 0cf340c7f1f2131186c55a44f7486275540eb310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 74/86] fix: without an input file, a null pointer was used as
 its name

---
 src/hob3l/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 72bbe36..baafb48 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -734,6 +734,11 @@ int main(int argc, char **argv)
         }
     }
 
+    if (in_file_name == NULL) {
+        fprintf(stderr, "Error: No input file given.\n");
+        exit(EXIT_FAILURE);
+    }
+
     /* post-process options */
     if (fabs(opt.cq_dim_scale_recip) > 0) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
-- 
2.43.0


From df31065d97345a8f97aaca15666d2337a4bea024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 75/86] fix: a slice thickness of zero or less gave a
 degenerate layer instead of an error

---
 src/hob3l/opt.switch | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 61d362b..fa4a3ca 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -63,6 +63,12 @@ case "max": dim &opt->z_max {
 
 case "step": dim &opt->z_step {
     "thickness of slice [mm] (default: 0.2)";
+
+    if (!(opt->z_step > 0)) {
+        fprintf(stderr, "Error: --step=ARG: ARG must be positive, found %g.\n",
+            opt->z_step);
+        exit(EXIT_FAILURE);
+    }
 }
 
 case "z": dim &opt->z_min {
-- 
2.43.0


From aaf54150a3f2788533a837f6783508ec393fde33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 76/86] fix: the help text named a wrong default for --max-fn

---
 src/hob3l/opt.switch | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index fa4a3ca..5a57eb7 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -79,7 +79,7 @@ case "z": dim &opt->z_min {
 }
 
 case "max-fn": uint32 &opt->csg.max_fn {
-    "maximum value of $fn for treating round objects as polyhedra (default: 50).";
+    "maximum value of $fn for treating round objects as polyhedra (default: 100).";
     "At $fn values larger than this, spheres will be sliced into circles";
     "and not converted to polyhedra.";
     "Currently, because no output format has circular arc structures, no attempt";
-- 
2.43.0


From c7b6547dbb75915880f04724bd3da144dfb1109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 77/86] fix: --js-keep-ctxt failed an assertion for extrusions,
 hull and projection around or before the '!'

---
 src/hob3l/csg3.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index a448b31..9e702e2 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2188,11 +2188,19 @@ static bool csg3_from_scad(
         case CP_SCAD_UNION:
         case CP_SCAD_DIFFERENCE:
         case CP_SCAD_INTERSECTION:
+            return csg3_from_rec(no, r, c, m, cp_scad_cast(cp_scad_rec_t, s));
+
         case CP_SCAD_LINEXT:
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_linext_t, s)->child);
+
         case CP_SCAD_ROTEXT:
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_rotext_t, s)->child);
+
         case CP_SCAD_HULL:
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_hull_t, s)->child);
+
         case CP_SCAD_PROJECTION:
-            return csg3_from_rec(no, r, c, m, cp_scad_cast(cp_scad_rec_t, s));
+            return csg3_from_v_scad(no, r, c, m, &cp_scad_cast(cp_scad_projection_t, s)->child);
 
         /* modifiers: treat them normally */
         case CP_SCAD_TRANSLATE:
-- 
2.43.0


From 031bfc61c35c1a0a7f4c8ac2c1975afea52fb723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 78/86] fix: --opt-skip-empty and --opt-drop-collinear were
 recognised, but ignored

---
 script/mkswitch | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/mkswitch b/script/mkswitch
index 8257e0d..19cdbfd 100755
--- a/script/mkswitch
+++ b/script/mkswitch
@@ -48,6 +48,7 @@ sub learn_case($$$$$)
             $case->{need_arg} = 1;
 
             # prepare negative case:
+            $neg_case->{action} = $case->{action};
             $neg_case->{arg}{name} = $case->{arg}{name};
             $neg_case->{arg}{type} = $case->{arg}{type};
             if ($case->{arg}{conv} eq 'bool') {
-- 
2.43.0


From 2da0eb6ae7e3d5b1cff801a22f24aa68b7163923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 79/86] fix: values of --eps and --eps2 below rounding errors
 failed an assertion

---
 src/hob3l/main.c     | 9 +++++++++
 src/hob3l/opt.switch | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index baafb48..ba79dcb 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -19,6 +19,9 @@
 #define CP_PROG_NAME "hob3l"
 #endif
 
+/** Smallest value for --eps and --eps2 */
+#define EPS_MIN 0x1p-48
+
 typedef enum {
     DUMP_NONE,
     DUMP_SYN,
@@ -748,6 +751,12 @@ int main(int argc, char **argv)
             cq_dim_scale);
         exit(EXIT_FAILURE);
     }
+    if (!(cp_eq_epsilon >= EPS_MIN) || !(cp_sqr_epsilon >= EPS_MIN)) {
+        /* less is below the rounding error of unit vectors */
+        fprintf(stderr, "Error: --eps and --eps2 must be at least %g, found %g and %g\n",
+            EPS_MIN, cp_eq_epsilon, cp_sqr_epsilon);
+        exit(EXIT_FAILURE);
+    }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
         cp_sqr_epsilon = cp_eq_epsilon;
     }
diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 5a57eb7..29ff630 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -152,12 +152,12 @@ case "gran": dim &opt->cq_dim_scale_recip {
     "This is deprecated, use the --grid option instead.";
 }
 case "eps": dim &cp_eq_epsilon {
-    "general comparison epsilon (default: 0x1p-15)";
+    "general comparison epsilon (default: 0x1p-15, minimum: 0x1p-48)";
     "This should be largely of any consequence these days, as the core algorithms";
     "now use exact integer math.";
 }
 case "eps2": dim &cp_sqr_epsilon {
-    "comparison epsilon for squared dimensions (default: 0x1p-30)";
+    "comparison epsilon for squared dimensions (default: 0x1p-30, minimum: 0x1p-48)";
     "This should be largely of any consequence these days, as the core algorithms";
     "now use exact integer math.";
 }
-- 
2.43.0


From cfcf8393bd3f65fa5d457d06312a5f4f7324b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:30 +0000
Subject: [PATCH 80/86] fix: --no-csg failed an assertion or printed nothing
 instead of an error

---
 src/hob3l/main.c     | 9 +++++++++
 src/hob3l/opt.switch | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index ba79dcb..d6deae5 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -823,6 +823,15 @@ int main(int argc, char **argv)
         }
     }
 
+    /* polygons to print exist only after the 2D boolean operation pass */
+    if (opt.no_csg &&
+        ((opt.dump == DUMP_CSG2) || (opt.dump == DUMP_PS) || (opt.dump == DUMP_JS) ||
+         (opt.dump == DUMP_STL) || (opt.dump == DUMP_STLA) || (opt.dump == DUMP_STLB)))
+    {
+        fprintf(stderr, "Error: Unable to print layers with --no-csg\n");
+        exit(EXIT_FAILURE);
+    }
+
     /* process files */
     cp_err_t *err = CP_NEW(*err);
     cp_syn_input_t *input = CP_NEW(*input);
diff --git a/src/hob3l/opt.switch b/src/hob3l/opt.switch
index 29ff630..680f3bd 100644
--- a/src/hob3l/opt.switch
+++ b/src/hob3l/opt.switch
@@ -238,7 +238,7 @@ case "dump-js": {
 
 case "no-csg": bool &opt->no_csg {
     "for stage 4: do (not) run 2D boolean operation pass (default: do)";
-    "--dump-stl and --dump-js will not print correctly with --no-csg.";
+    "No layers can be printed with --no-csg.";
 }
 case "no-tri": bool &opt->no_tri {
     "for stage 4: do (not) run triangulation pass (default: do)";
-- 
2.43.0


From 685eefec67a06c0eabdac1627542f3960848ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 81/86] fix: linear_extrude with twist and different x/y scale
 did not always split the sides inward

---
 src/hob3l/csg3.c | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 9e702e2..1379372 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -596,6 +596,39 @@ static void face_from_poly_lid(
 }
 
 
+/**
+ * Decide how to split the rectangle a0,a1,b1,b0 of a tower into
+ * triangles so that the connecting edge is inward.
+ *
+ * In general, this depends on each single rectangle, because if the
+ * scale of a linear_extrude differs in X and Y direction, then not all
+ * sides are broken in the same direction.
+ */
+static unsigned tri_side_inward(
+    cp_csg3_poly_t const *o,
+    cp_mat3wi_t const *m,
+    size_t a0,
+    size_t a1,
+    size_t b1,
+    size_t b0,
+    unsigned tri_side)
+{
+    if (tri_side == TRI_NONE) {
+        return tri_side;
+    }
+    cp_vec3_t const *p = &cp_v_nth(&o->point, a0).coord;
+    cp_vec3_t u, v, w, n;
+    cp_vec3_sub(&u, &cp_v_nth(&o->point, a1).coord, p);
+    cp_vec3_sub(&v, &cp_v_nth(&o->point, b1).coord, p);
+    cp_vec3_sub(&w, &cp_v_nth(&o->point, b0).coord, p);
+    cp_vec3_cross(&n, &u, &v);
+    double d = cp_vec3_dot(&n, &w);
+    if (m->d < 0) {
+        d = -d;
+    }
+    return (d < 0) ? TRI_RIGHT : (d > 0) ? TRI_LEFT : tri_side;
+}
+
 /**
  * From an array of points in the rough shape of a tower,
  * make a polyhedron.  'Tower' means the shape consists
@@ -608,7 +641,8 @@ static void face_from_poly_lid(
  * spheres, cubes, and linear_extrudes.
  *
  * If the connecting quads are not planar, then tri_side can be
- * set to non-false to split them into triangles.  This shape is
+ * set to non-false to split them into triangles, with the connecting
+ * edge inward.  Planar quads are split as tri_side says.  This shape is
  * probably not nice, but correct in that the faces are planar,
  * since every triangle is trivially planar).
  *
@@ -673,7 +707,7 @@ static bool faces_n_edges_from_tower(
         for (cp_size_each(j0, fn)) {
             size_t j1 = cp_wrap_add1(j0, fn);
             f = &cp_v_nth(&o->face, k++);
-            switch (tri_side) {
+            switch (tri_side_inward(o, m, k0+j0, k0+j1, k1+j1, k1+j0, tri_side)) {
             case TRI_LEFT:
                 face_init_from_point_ref(
                     f, o, (size_t[4]){ k0+j0, k0+j1, k1+j0 }, 3, !rev, loc);
-- 
2.43.0


From 2d094e73182534927963dc42a6a7fbb1c2f030af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 82/86] fix: SVG: arc flags other than 0 and 1 were skipped
 without a message

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 43b3370..d15283c 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -973,7 +973,7 @@ static bool s_bool(
         *rp = true;
         return true;
     }
-    return true;
+    return false;
 }
 
 static inline bool s_coord(
-- 
2.43.0


From 5170d3da714664e728117c718ee2490d011a27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:15 +0000
Subject: [PATCH 83/86] fix: SVG: path data that does not start with a moveto
 was drawn

---
 src/hob3l/svg-parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index d15283c..32deba1 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1294,6 +1294,10 @@ static bool str_path(
     path_t *q,
     char const *s)
 {
+    if (!s_end(&s) && (*s != 'M') && (*s != 'm')) {
+        WARN(q->p, s, "Path does not start with 'M' or 'm'.");
+        return false;
+    }
     while (!s_end(&s)) {
         char const *loc = s;
         rel_t rel = (*s >= 'a') && (*s <= 'z');
-- 
2.43.0


From 1fe7703cc5802a491041ee6e00829f12b785f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:07 +0000
Subject: [PATCH 84/86] fix: web viewer: a shiftI of 0 did not override
 sceneShiftI

---
 share/js-hob3l.local.html | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/share/js-hob3l.local.html b/share/js-hob3l.local.html
index 6a38b13..4b25ae4 100644
--- a/share/js-hob3l.local.html
+++ b/share/js-hob3l.local.html
@@ -338,7 +338,8 @@
             b.index = gl.createBuffer();
             gl.bindBuffer(gl.ELEMENT_ARRAY_BUFFER, b.index);
             gl.bufferData(gl.ELEMENT_ARRAY_BUFFER,
-                newU16Arr(s.index, s.shiftI || sceneShiftI), gl.STATIC_DRAW);
+                newU16Arr(s.index, ('shiftI' in s) ? s.shiftI : sceneShiftI),
+                gl.STATIC_DRAW);
 
             buffer.push(b);
         }
-- 
2.43.0


From d23fdabd56979ae595edcdf19690c98c3b71a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:07 +0000
Subject: [PATCH 85/86] fix: web viewer: a rot or scale without get made a
 group vanish

---
 share/js-hob3l.local.html | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/share/js-hob3l.local.html b/share/js-hob3l.local.html
index 4b25ae4..a981a80 100644
--- a/share/js-hob3l.local.html
+++ b/share/js-hob3l.local.html
@@ -513,10 +513,10 @@
                         }
                         mat4.translate(mv, mv, g.move.cur);
                     }
-                    if (g.rot) {
-                        if (g.rot.get) {
-                            g.rot.angle = g.rot.get(g);
-                        }
+                    if (g.rot && g.rot.get) {
+                        g.rot.angle = g.rot.get(g);
+                    }
+                    if (g.rot && g.rot.angle) {
                         mat4.translate(mv, mv, g.rot.center);
                         mat4.rotate(
                             mv,
@@ -530,10 +530,10 @@
                                 -g.rot.center[2]
                             ]);
                     }
-                    if (g.scale) {
-                        if (g.scale.get) {
-                            g.scale.mul = g.scale.get(g);
-                        }
+                    if (g.scale && g.scale.get) {
+                        g.scale.mul = g.scale.get(g);
+                    }
+                    if (g.scale && ('mul' in g.scale)) {
                         mat4.translate(mv, mv, g.scale.center);
                         mat4.scale(
                             mv,
-- 
2.43.0


From c330067d2b5c190ab7a614e1769e525f111c3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:07 +0000
Subject: [PATCH 86/86] fix: web viewer: the shift key was ignored if the
 button was pressed outside of the canvas

---
 share/js-hob3l.local.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/js-hob3l.local.html b/share/js-hob3l.local.html
index a981a80..30727a7 100644
--- a/share/js-hob3l.local.html
+++ b/share/js-hob3l.local.html
@@ -1066,7 +1066,7 @@
     {
         if (!clickDown) {
             clickDown = ev.buttons;
-            clickShift = ev.shiftkey;
+            clickShift = ev.shiftKey;
         }
         if (!clickDown) {
             return;
-- 
2.43.0

