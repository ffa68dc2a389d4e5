/* Server around the matrix and vector library.  Several calls per frame. */
#include <math.h>
#include <hob3lbase/arith.h>
#include <hob3lmat/mat.h>
#include "hv.h"

/* argument k of the current call: own buffer, or the pointer of an earlier or later one */
static void *arg[8];
static int alias_of[8];
static void *in(size_t size, void *unused, int k)
{
    (void)unused;
    uint8_t tag = r8();
    if (tag >= 2) {
        /* the aliased operand comes later in the frame: share its buffer */
        alias_of[k] = tag - 2;
        if (!arg[tag - 2]) { arg[tag - 2] = malloc(size); }
        return arg[tag - 2];
    }
    if (!arg[k]) { arg[k] = malloc(size); }
    hv_rd(arg[k], size);
    return arg[k];
}
static void outd(void const *p, size_t n) { hv_wr(p, n); }

static void one(uint32_t op)
{
    void *p = NULL;
    switch (op) {
#include "mat_part.h"
    case 1000: {
        size_t n = r32();
        size_t c = 0;
        for (cp_circle_each(i, n)) {
            if (c++ > 2*n + 4) { break; }
            w32((uint32_t)i.idx); wd(i.cos); wd(i.sin);
        }
        break; }
    case 1001: {
        double a = rd();
        long long v = 0;
        int ok = cp_f_get_int(&v, a);
        wi32(ok); wi64(v);
        break; }
    default: fprintf(stderr, "bad op\n"); exit(97);
    }
}

static void hv_handle(void)
{
    while (hv_left()) {
        one(r32());
        for (int k = 0; k < 8; k++) { free(arg[k]); arg[k] = NULL; }
    }
}
