/* Frames: u32 length, then payload; both directions. */
#ifndef HV_H
#define HV_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static unsigned char *hv_in;
static size_t hv_in_n, hv_in_p;
static unsigned char *hv_out;
static size_t hv_out_n, hv_out_cap;

static void hv_rd(void *d, size_t n)
{
    if (hv_in_p + n > hv_in_n) { fprintf(stderr, "hv: short frame\n"); exit(97); }
    memcpy(d, hv_in + hv_in_p, n);
    hv_in_p += n;
}
static void hv_wr(void const *d, size_t n)
{
    if (hv_out_n + n > hv_out_cap) {
        hv_out_cap = 2 * (hv_out_n + n) + 4096;
        hv_out = realloc(hv_out, hv_out_cap);
    }
    memcpy(hv_out + hv_out_n, d, n);
    hv_out_n += n;
}
#define HV_R(T, name) static inline T name(void) { T x; hv_rd(&x, sizeof(x)); return x; }
#define HV_W(T, name) static inline void name(T x) { hv_wr(&x, sizeof(x)); }
HV_R(uint8_t, r8) HV_R(uint32_t, r32) HV_R(int32_t, ri32) HV_R(int64_t, ri64) HV_R(uint64_t, r64) HV_R(double, rd)
HV_W(uint8_t, w8) HV_W(uint32_t, w32) HV_W(int32_t, wi32) HV_W(int64_t, wi64) HV_W(uint64_t, w64) HV_W(double, wd)

static size_t hv_left(void) { return hv_in_n - hv_in_p; }

static void hv_handle(void);

int main(void)
{
    for (;;) {
        uint32_t n;
        if (fread(&n, 4, 1, stdin) != 1) { return 0; }
        hv_in = malloc(n ? n : 1);
        if (n && (fread(hv_in, n, 1, stdin) != 1)) { return 0; }
        hv_in_n = n;
        hv_in_p = 0;
        hv_out_n = 0;
        hv_handle();
        free(hv_in);
        n = (uint32_t)hv_out_n;
        fwrite(&n, 4, 1, stdout);
        if (n) { fwrite(hv_out, n, 1, stdout); }
        fflush(stdout);
    }
}
#endif
