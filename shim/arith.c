/* Server around the exact integer arithmetic. */
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <hob3lbase/arith.h>
#include <hob3lop/gon.h>
#include <hob3lop/matq.h>
#include <hob3lop/hedron.h>
#include <hob3lop/op-slice.h>
#include "hv.h"

static cq_vec2_t rv(void) { cq_vec2_t v; v.x = ri32(); v.y = ri32(); return v; }
static cq_dimif_t rf(void) { cq_dimif_t f; f.i = ri32(); f.n = r64(); f.d = r64(); return f; }
static void wf(cq_dimif_t const *f) { wi32(f->i); w64(f->n); w64(f->d); }

static void one(uint8_t op)
{
    switch (op) {
    case 0: { int32_t x = ri32(), d = ri32(); cq_divmod_t r = cq_divmod(x, d); wi32(r.div); wi32(r.mod);
              wi32(cq_div(x, d)); wi32(cq_mod(x, d)); break; }
    case 1: { int64_t x = ri64(), d = ri64(); cq_divmodw_t r = cq_divmodw(x, d); wi64(r.div); wi64(r.mod);
              wi64(cq_divw(x, d)); wi64(cq_modw(x, d)); break; }
    case 2: { int64_t x = ri64(); int32_t d = ri32(); cq_divmod_t r = cq_divmodx(x, d); wi32(r.div); wi32(r.mod);
              wi32(cq_divx(x, d)); wi32(cq_modx(x, d)); break; }
    case 3: { int64_t x = ri64(), d = ri64(); wi64(cq_divw_rnd(x, d)); break; }
    case 4: { int32_t a = ri32(), b = ri32(); wi32(cq_dim_add(a, b)); break; }
    case 5: { int32_t a = ri32(), b = ri32(); wi32(cq_dim_sub(a, b)); break; }
    case 6: { int32_t a = ri32(), b = ri32(); wi64(cq_dim_mul(a, b)); break; }
    case 7: { int64_t a = ri64(), b = ri64(); wi64(cq_dimw_add(a, b)); break; }
    case 8: { int64_t a = ri64(), b = ri64(); wi64(cq_dimw_sub(a, b)); break; }
    case 9: { uint32_t a = r32(), b = r32(); w32(cq_udim_add(a, b)); break; }
    case 10: { uint32_t a = r32(), b = r32(); w32(cq_udim_sub(a, b)); break; }
    case 11: { uint32_t a = r32(), b = r32(); w64(cq_udim_mul(a, b)); break; }
    case 12: { uint64_t a = r64(), b = r64(); w64(cq_udimw_add(a, b)); break; }
    case 13: { uint64_t a = r64(), b = r64(); w64(cq_udimw_sub(a, b)); break; }
    case 14: { int32_t a = ri32(); wi32(cq_dim_neg(a)); w32(cq_udim_abs(a)); break; }
    case 15: { int64_t a = ri64(); wi64(cq_dimw_neg(a)); w64(cq_udimw_abs(a)); break; }
    case 16: { uint64_t a = r64(), b = r64();
               cq_udimq_t x = cq_udimw_mul(a, b), y = cq_udimw_mul_aux(a, b);
               w64(cq_udimq_max(x)); w64(cq_udimq_min(x)); w64(cq_udimq_max(y)); w64(cq_udimq_min(y));
               break; }
    case 17: { uint64_t ah = r64(), al = r64(), bh = r64(), bl = r64();
               cq_udimq_t x = cq_udimq(ah, al), y = cq_udimq(bh, bl);
               wi32(cq_udimq_cmp(x, y)); wi32(cq_udimq_eq(x, y)); w64(cq_udimq_max(x)); w64(cq_udimq_min(x));
               break; }
    case 18: { cq_vec2_t a = rv(), o = rv(), b = rv(); wi64(cq_vec2_right_cross3_z(&a, &o, &b)); break; }
    case 19: { cq_vec2_t a = rv(), b = rv(); cq_line2_t l = { .a = a, .b = b };
               wi64(cq_vec2_sqr_dist(&a, &b)); wi64(cq_line2_sqr_len(&l)); wi64(cq_vec2_sqr_len(&a)); wi32(cq_vec2_eq(&a, &b)); break; }
    case 20: { cq_dimif_t a = rf(); wi32(cq_round(&a)); wd(cq_f_from_dimif(&a)); break; }
    case 21: { cq_dimif_t a = rf(), b = rf(); wi32(cq_dimif_cmp(&a, &b)); wi32(cq_dimif_eq(&a, &b)); wi32(cq_dimif_cmp_frac(&a, &b));
               wi32(cq_dimif_cmp_frac_aux(&a, &b)); break; }
    case 22: { int32_t a = ri32(); cq_dimif_t b = rf(); wi32(cq_dim_dimif_cmp(a, &b)); break; }
    case 23: { cq_vec2if_t a, b; a.x = rf(); a.y = rf(); b.x = rf(); b.y = rf(); wi32(cq_vec2if_cmp(&a, &b)); wi32(cq_vec2if_eq(&a, &b)); break; }
    case 24: { cq_vec2_t a = rv(); cq_vec2if_t b; b.x = rf(); b.y = rf(); wi32(cq_vec2_vec2if_cmp(&a, &b));
               cq_vec2if_t c = cq_vec2if_from_vec2(&a); wi32(cq_vec2if_cmp(&c, &b)); break; }
    case 25: { cq_vec2_t p1 = rv(), p2 = rv(), p3 = rv(), p4 = rv();
               cq_vec2if_t i = CQ_VEC2IF(77,0,1,77,0,1);
               wi32(cq_vec2if_intersect(&i, p1, p2, p3, p4)); wf(&i.x); wf(&i.y);
               cq_line2_t a = { .a = p1, .b = p2 }, b = { .a = p3, .b = p4 };
               wi32(cq_line2if_intersect(&i, &a, &b)); break; }
    case 26: { cq_vec2_t v = rv(), l = rv(), k = rv(); cq_line2_t e = { .a = k, .b = l };
               wi32(cq_vec2_cmp_edge_rnd(&v, &l, &k)); wi32(cq_vec2_cmp_line2_rnd(&v, &e)); break; }
    case 27: { double s = rd(), v = rd(); cq_dim_scale = s; wi32(cq_import_dim(v)); cq_dim_scale = CP_DIM_SCALE_DEFAULT; break; }
    case 28: { double s = rd(); int32_t v = ri32(); cq_dim_scale = s; wd(cq_export_dim(v)); wi32(cq_import_dim(cq_export_dim(v)));
               cq_vec2_t a = CQ_VEC2(v, -v); cp_vec2_t b = cq_export_vec2(&a); cq_vec2_t c = cq_import_vec2(&b); wi32(c.x); wi32(c.y);
               cq_dim_scale = CP_DIM_SCALE_DEFAULT; break; }
    case 29: { uint32_t n = r32(); cq_v_vec2_t v = {0}; cq_vec2_minmax_t m = CQ_VEC2_MINMAX_INIT, q = CQ_VEC2_MINMAX_INIT;
               for (uint32_t i = 0; i < n; i++) { cq_vec2_t a = rv(); cp_v_push(&v, a); }
               cq_v_vec2_minmax(&m, &v);
               wi32(m.min.x); wi32(m.min.y); wi32(m.max.x); wi32(m.max.y);
               if (!(n & 1)) {
                   while (v.alloc & 1) { cp_v_ensure_size(&v, v.alloc + 1); if (v.alloc & 1) { break; } }
                   if (!(v.alloc & 1)) {
                       cq_v_line2_t *l = cq_v_vec2_move_v_line2(&v);
                       cq_v_line2_minmax(&q, l);
                       w8((l->size == n / 2) && (memcmp(&m, &q, sizeof(m)) == 0));
                       cq_v_vec2_t *b = cq_v_line2_move_v_vec2(l);
                       w8(b->size == n);
                   }
                   else { w8(1); w8(1); }
               }
               cp_v_fini(&v);
               break; }
    case 30: { /* slice: faces */
               double z = rd();
               uint32_t nf = r32();
               cq_v_line2_t out = {0};
               cq_slice_t s;
               cq_slice_init(&s, &out, z);
               for (uint32_t f = 0; f < nf; f++) {
                   uint32_t n = r32();
                   cp_vec3_loc_t *p = calloc(n + 1, sizeof(*p));
                   cp_vec3_loc_ref_t *r = calloc(n + 1, sizeof(*r));
                   for (uint32_t i = 0; i < n; i++) {
                       p[i].coord.x = rd(); p[i].coord.y = rd(); p[i].coord.z = rd();
                       r[i].ref = &p[i];
                   }
                   cp_a_vec3_loc_ref_t a = { .data = r, .size = n };
                   cq_slice_add_face(&s, &a);
                   free(p); free(r);
               }
               cq_slice_fini(&s);
               w32((uint32_t)out.size);
               for (size_t i = 0; i < out.size; i++) {
                   wi32(out.data[i].a.x); wi32(out.data[i].a.y); wi32(out.data[i].b.x); wi32(out.data[i].b.y);
               }
               cp_v_fini(&out);
               break; }
    case 31: { int32_t a = ri32(), b = ri32(); uint64_t c = r64(), d = r64(); double e = rd(), f = rd();
               int ia = a, ib = b; size_t sc = c, sd = d;
               wi64((int64_t)cp_min(ia, ib)); wi64((int64_t)cp_max(ia, ib));
               w64(cp_min(sc, sd)); w64(cp_max(sc, sd)); wd(cp_min(e, f)); wd(cp_max(e, f)); wd(cp_monus(e, f));
               break; }
    case 32: { uint64_t i = r64(), n = r64(); w64(cp_wrap_add1(i, n)); w64(cp_wrap_sub1(i, n)); break; }
    default: exit(98);
    }
}

static void hv_handle(void)
{
    while (hv_left()) {
        uint8_t op = r8();
        if (op != 255) { one(op); continue; }
        /* expected to fail: in a process of its own */
        op = r8();
        uint32_t skip = r32();
        size_t at = hv_in_p;
        pid_t c = fork();
        if (c == 0) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1); dup2(fd, 2);
            one(op);
            _exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        w8((WIFEXITED(st) && (WEXITSTATUS(st) == 0)) ? 0 : 1);
        hv_in_p = at + skip;
    }
}
