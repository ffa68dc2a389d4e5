/* Server around the 2D engine: boolean combination, paths, triangulation. */
#include <hob3lbase/pool.h>
#include <hob3lbase/vchar.h>
#include <hob3lop/gon.h>
#include <hob3lop/op-sweep.h>
#include <hob3lop/op-poly.h>
#include <hob3lop/op-trianglify.h>
#include "hv.h"

static void add(cq_sweep_t *s, unsigned via)
{
    uint32_t ng = r32();
    for (uint32_t g = 0; g < ng; g++) {
        uint32_t member = r32(), n = r32();
        cq_v_line2_t *v = CP_NEW(*v);
        for (uint32_t i = 0; i < n; i++) {
            cq_line2_t l;
            l.a.x = ri32(); l.a.y = ri32(); l.b.x = ri32(); l.b.y = ri32();
            if (via == 0) {
                cq_sweep_add_edge(s, &l.a, &l.b, member);
            }
            else {
                cp_v_push(v, l);
            }
        }
        if (via == 1) {
            cq_sweep_add_v_line2(s, v, member);
        }
        if (via == 2) {
            /* closed chain: as a polygon's path */
            cq_csg2_poly_t *p = CP_CLONE1(&CQ_CSG2_POLY_INIT);
            cp_csg2_path_t *q = cp_v_push0(&p->path);
            for (uint32_t i = 0; i < n; i++) {
                cp_vec2_loc_t *o = cp_v_push0(&p->point);
                o->coord.x = cq_export_dim(v->data[i].a.x);
                o->coord.y = cq_export_dim(v->data[i].a.y);
                cp_v_push(&q->point_idx, i);
            }
            cq_sweep_add_poly(s, p, member);
            cq_csg2_poly_delete(p);
        }
        cp_v_delete(&v);
    }
}

static void reduce(cq_sweep_t *s)
{
    cp_bool_bitmap_t comb;
    memset(&comb, 0, sizeof(comb));
    uint32_t bits = r32();
    hv_rd(&comb, sizeof(comb));
    cq_sweep_intersect(s);
    cq_sweep_reduce(s, &comb, ((size_t)1) << bits);
}

static void poly(cq_csg2_poly_t *p)
{
    w32((uint32_t)p->point.size);
    for (size_t i = 0; i < p->point.size; i++) {
        wd(p->point.data[i].coord.x * cq_dim_scale);
        wd(p->point.data[i].coord.y * cq_dim_scale);
    }
    w32((uint32_t)p->path.size);
    for (size_t i = 0; i < p->path.size; i++) {
        w32((uint32_t)p->path.data[i].point_idx.size);
        for (size_t k = 0; k < p->path.data[i].point_idx.size; k++) {
            w32((uint32_t)p->path.data[i].point_idx.data[k]);
        }
    }
    w32((uint32_t)p->tri.size);
    for (size_t i = 0; i < p->tri.size; i++) {
        for (size_t k = 0; k < 3; k++) {
            w32((uint32_t)p->tri.data[i].p[k]);
        }
        w32((uint32_t)p->tri.data[i].flags);
    }
}

static void hv_handle(void)
{
    cp_pool_t pool[1];
    cp_pool_init(pool);
    unsigned want = r8();      /* 1: poly, 2: tri, 4: tri before poly */
    cq_sweep_t *s = NULL;
    unsigned stages = r8();
    for (unsigned st = 0; st < stages; st++) {
        unsigned via = r8();
        cq_sweep_t *t = cq_sweep_new(pool, NULL, 0);
        add(t, via);
        if (s != NULL) {
            uint32_t m = r32();
            cq_sweep_add_sweep(t, s, m);
            cq_sweep_delete(s);
        }
        s = t;
        reduce(s);
    }
    w8(cq_sweep_empty(s));
    cq_v_line2_t *r = CP_NEW(*r);
    cq_sweep_get_v_line2(r, s);
    w8(cq_has_intersect(NULL, NULL, NULL, r) != 0);
    w32((uint32_t)r->size);
    for (size_t i = 0; i < r->size; i++) {
        wi32(r->data[i].a.x); wi32(r->data[i].a.y);
        wi32(r->data[i].b.x); wi32(r->data[i].b.y);
    }
    cp_v_delete(&r);
    cq_csg2_poly_t *p = CP_CLONE1(&CQ_CSG2_POLY_INIT);
    cq_csg2_poly_t *q = CP_CLONE1(&CQ_CSG2_POLY_INIT);
    cp_err_t err = {0};
    for (unsigned k = 0; k < 2; k++) {
        bool do_tri = (k == 0) == !!(want & 4);
        if (do_tri) {
            w8((want & 2) ? cq_sweep_trianglify(&err, s, q) : 2);
            poly(q);
        }
        else {
            w8((want & 1) ? cq_sweep_poly(&err, s, p) : 2);
            poly(p);
        }
    }
    cq_csg2_poly_delete(p);
    cq_csg2_poly_delete(q);
    cp_vchar_fini(&err.msg);
    cq_sweep_delete(s);
    cp_pool_fini(pool);
}
