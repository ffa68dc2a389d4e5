/* Server around the base containers. */
#include <hob3lbase/base-def.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/pool.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/heap.h>
#include <hob3lbase/list.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/stream.h>
#include <hob3lbase/utf8.h>
#include <hob3lbase/qsort.h>
#include <hob3lbase/arith.h>
#include <hob3lbase/bool-bitmap.h>
#include "hv.h"

#define NV 3
typedef struct { unsigned char b[5]; } odd_t;
typedef struct { unsigned char b[24]; } wide_t;
#define E unsigned char
#define NAME u8
#define KEYLEN 1
#include "vec_part.h"
#define E uint32_t
#define NAME u32
#define KEYLEN 4
#include "vec_part.h"
#define E odd_t
#define NAME odd
#define KEYLEN 2
#include "vec_part.h"
#define E wide_t
#define NAME wide
#define KEYLEN 3
#include "vec_part.h"

/* ---- heap ---- */
typedef struct { size_t idx; int32_t prio; uint32_t id; } item_t;
static int prio_cmp(size_t const *a, size_t const *b, void *user)
{
    if (user != &prio_cmp) { abort(); }
    item_t const *x = CP_BOX_OF(a, item_t, idx), *y = CP_BOX_OF(b, item_t, idx);
    return (x->prio < y->prio) ? -1 : (x->prio > y->prio);
}
static uint32_t item_id(size_t *a) { return a ? CP_BOX_OF(a, item_t, idx)->id : 0xffffffffU; }
static void heap(void)
{
    uint32_t n = r32();
    item_t *it = calloc(n ? n : 1, sizeof(*it));
    for (uint32_t i = 0; i < n; i++) { it[i].idx = CP_HEAP_NO_IDX; it[i].id = i; }
    cp_heap_t h = CP_V_INIT;
    void *u = (void *)(size_t)&prio_cmp;
    while (hv_left()) {
        uint8_t op = r8();
        uint32_t i = r32(), j = r32();
        int32_t pr = ri32();
        uint32_t res = 0xfffffffeU;
        item_t *a = &it[i % (n ? n : 1)];
        switch (op) {
        case 0: a->prio = pr; cp_heap_insert(&h, prio_cmp, u, &a->idx); break;
        case 1: res = item_id(cp_heap_extract(&h, prio_cmp, u)); break;
        case 2: a->prio = pr; cp_heap_update(&h, prio_cmp, u, a->idx); break;
        case 3: res = item_id(cp_heap_remove(&h, prio_cmp, u, a->idx)); break;
        case 4: /* replace i by j (both may be the same, j may be NULL) */
            if (j != 0xffffffffU) { it[j].prio = pr; }
            res = item_id(cp_heap_replace(&h, prio_cmp, u, a->idx, (j == 0xffffffffU) ? NULL : &it[j].idx));
            break;
        case 5: res = item_id(cp_heap_min(&h)); break;
        case 6: /* make from scratch with the elements not in it */
            for (cp_v_each(k, &h)) { *h.data[k] = CP_HEAP_NO_IDX; }
            cp_v_clear(&h, 0);
            for (uint32_t k = 0; k < n; k++) {
                if ((i >> (k % 31)) & 1) { it[k].prio = (int32_t)((k * 2654435761U) >> 8) % (pr ? pr : 1); cp_v_push(&h, &it[k].idx); }
            }
            cp_heap_make_(&h, prio_cmp, u);
            break;
        default: exit(98);
        }
        w32(res);
        w32((uint32_t)h.size);
        bool ok = true;
        for (cp_v_each(k, &h)) { w32(item_id(h.data[k])); ok &= (*h.data[k] == k); }
        for (uint32_t k = 0; k < n; k++) {
            bool in = cp_heap_is_member(&it[k].idx);
            ok &= !in || ((it[k].idx < h.size) && (h.data[it[k].idx] == &it[k].idx));
            w8(in);
            wi32(it[k].prio);
        }
        w8(ok);
    }
    cp_v_fini(&h);
    free(it);
}

/* ---- list ---- */
static void list(void)
{
    uint32_t n = r32();
    cp_list_t *l = calloc(n ? n : 1, sizeof(*l));
    for (uint32_t i = 0; i < n; i++) { cp_list_init(&l[i]); }
    while (hv_left()) {
        uint8_t op = r8();
        cp_list_t *a = &l[r32()], *b = &l[r32()];
        switch (op) {
        case 0: cp_list_chain(a, b); break;
        case 1: cp_list_remove(a); break;
        default: exit(98);
        }
        for (uint32_t i = 0; i < n; i++) {
            w32((uint32_t)(l[i].next - l)); w32((uint32_t)(l[i].prev - l)); w8(cp_list_is_member(&l[i]));
            uint32_t c = 0, d = 0, g = 0;
            for (cp_list_each(e, &l[i])) { c = c * 31 + (uint32_t)(e - l); if (g++ > n) { break; } }
            for (cp_list_each_rev(e, &l[i])) { d = d * 31 + (uint32_t)(e - l); if (g++ > 2 * n) { break; } }
            w32(c); w32(d);
        }
    }
    free(l);
}

/* ---- pool ---- */
static void pool(void)
{
    cp_pool_t p[1];
    cp_pool_init(p);
    uint32_t bs = r32();
    char *volatile pad = malloc(1 + r8() * 16u);      /* shifts the addresses of what is allocated next */
    p->block_size = bs;
    struct blk { unsigned char *d; size_t n; unsigned char c; } *t = NULL;
    size_t cnt = 0;
    while (hv_left()) {
        uint8_t op = r8();
        uint32_t n = r32(), size = r32(), align = r32();
        uint8_t res = 0;
        switch (op) {
        case 0: { /* allocate */
            unsigned char *d = cp_pool_calloc(CP_FILE, CP_LINE, p, n, size, align);
            size_t len = (size_t)n * size;
            if (!d) { res = n ? 1 : 0; break; }
            if (n == 0) { res = 2; break; }
            if (align && ((size_t)d % align)) { res |= 4; }
            if (!align && ((size_t)d % (size & -size))) { res |= 4; }
            if (!cp_mem_is0(d, len)) { res |= 8; }
            for (size_t i = 0; i < cnt; i++) {
                if ((d < t[i].d + t[i].n) && (t[i].d < d + len)) { res |= 16; }
            }
            t = realloc(t, (cnt + 1) * sizeof(*t));
            t[cnt].d = d; t[cnt].n = len; t[cnt].c = (unsigned char)(1 + cnt % 251);
            memset(d, t[cnt].c, len);
            cnt++;
            break; }
        case 1: cp_pool_clear(p); cnt = 0; break;
        case 2: cp_pool_fini(p); cp_pool_init(p); p->block_size = n; cnt = 0; break;
        default: exit(98);
        }
        for (size_t i = 0; i < cnt; i++) {
            for (size_t k = 0; k < t[i].n; k += 1 + t[i].n / 64) { if (t[i].d[k] != t[i].c) { res |= 32; } }
        }
        w8(res);
    }
    free(t);
    cp_pool_fini(p);
    free(pad);
}

/* ---- character buffers ---- */
static void vchar(void)
{
    cp_vchar_t v[NV];
    for (unsigned i = 0; i < NV; i++) { cp_vchar_init(&v[i]); }
    while (hv_left()) {
        uint8_t op = r8();
        cp_vchar_t *a = &v[r8()], *b = &v[r8()];
        uint32_t x = r32(), n = r32();
        char *s = malloc(n + 1);
        hv_rd(s, n);
        s[n] = 0;
        uint8_t res = 0;
        switch (op) {
        case 0: cp_vchar_push(a, s[0]); break;
        case 1: cp_vchar_append_arr(a, s, n); break;
        case 2: cp_vchar_append_str(a, s); break;
        case 3: if (a != b) { cp_vchar_append(a, b); } break;
        case 4: res = (uint8_t)cp_vchar_pop(a); break;
        case 5: cp_vchar_clear(a); break;
        case 6: cp_vchar_fini(a); break;
        case 7: cp_vchar_swap(a, b); break;
        case 8: cp_vchar_printf(a, "<%s|%*d|%c>", s, (int)(x % 90), (int)x, 'A' + x % 26); break;
        case 9: cp_printf(CP_STREAM_FROM_VCHAR(a), "[%d %s %g]", (int)x, s, (double)x / 4); break;
        case 10: cp_write(CP_STREAM_FROM_VCHAR(a), s, n); break;
        case 11: res = (uint8_t)(strlen(cp_vchar_cstr(a)) & 255); break;
        case 12: cp_vchar_printf(a, "%s", ""); break;
        default: exit(98);
        }
        w8(res);
        for (unsigned i = 0; i < NV; i++) {
            w32((uint32_t)v[i].size);
            if (v[i].size) { hv_wr(v[i].data, v[i].size); }
            /* NUL terminated once it has memory */
            w8((v[i].data == NULL) || ((v[i].alloc > v[i].size) && (v[i].data[v[i].size] == 0)));
        }
        free(s);
    }
    for (unsigned i = 0; i < NV; i++) { cp_vchar_fini(&v[i]); }
}

/* ---- UTF-8 ---- */
static void utf8(void)
{
    uint8_t mode = r8();
    if (mode == 2) {
        while (hv_left()) {
            uint32_t cp = r32(), n = r32();
            char *s = malloc(n ? n : 1);
            w8(cp_utf8_ok(cp));
            if (cp_utf8_ok(cp)) {
                size_t l = cp_utf8_encode(s, n, cp);
                w8((uint8_t)l);
                hv_wr(s, l);
            }
            free(s);
        }
        return;
    }
    bool limit = r8();
    size_t n = hv_left();
    char *s = malloc(n + !limit);
    hv_rd(s, n);
    if (!limit) { s[n] = 0; }
    cp_utf8_iter_t it = { .data = s, .size = limit ? n : ~(size_t)0, .error_msg = NULL };
    for (;;) {
        unsigned u = (mode == 0) ? cp_utf8_decode(&it) : cp_utf8_escaped_decode(&it);
        w32(u);
        w32((uint32_t)(it.data - s));
        if (limit && (it.size != n - (size_t)(it.data - s))) { w32(0xdeadU); }
        if ((u == 0) || it.error_msg) { break; }
    }
    w8(it.error_msg != NULL);
    free(s);
}

/* ---- truth tables ---- */
static void bitmap(void)
{
    cp_bool_bitmap_t b[NV];
    memset(b, 0xa5, sizeof(b));
    while (hv_left()) {
        uint8_t op = r8();
        cp_bool_bitmap_t *x = &b[r8()], *y = &b[r8()];
        uint32_t have = r32(), add = r32();
        switch (op) {
        case 0: /* set all 2^have entries */
            for (uint32_t i = 0; i < (1U << have); i++) { cp_bool_bitmap_set(x, i, r8()); }
            break;
        case 1: cp_bool_bitmap_spread(x, have, add); have += add; break;
        case 2: cp_bool_bitmap_repeat(x, have, add); have += add; break;
        case 3: cp_bool_bitmap_combine(x, y, have, (cp_bool_op_t)add); break;
        case 4: *x = *y; break;
        default: exit(98);
        }
        for (uint32_t i = 0; i < (1U << have); i++) { w8(cp_bool_bitmap_get(x, i)); }
    }
}

static void hv_handle(void)
{
    switch (r8()) {
    case 0: u8_run(); break;
    case 1: u32_run(); break;
    case 2: odd_run(); break;
    case 3: wide_run(); break;
    case 4: heap(); break;
    case 5: list(); break;
    case 6: pool(); break;
    case 7: vchar(); break;
    case 8: utf8(); break;
    case 9: bitmap(); break;
    case 10: { /* operator numbers */
        w32(CP_OP_ADD); w32(CP_OP_CUT); w32(CP_OP_SUB); w32(CP_OP_XOR); w32(CP_BOOL_BITMAP_MAX_LAZY);
        break; }
    default: exit(98);
    }
}
