/* Histories on vectors of E (included once per element type). */
#define GLUE2(a,b) a##b
#define GLUE(a,b) GLUE2(a,b)
#define V GLUE(vec_, NAME)
#define FN(x) GLUE(GLUE(NAME, _), x)
typedef CP_VEC_T(E) V;
static E FN(rd)(void) { E x; CP_ZERO(&x); hv_rd(&x, sizeof(x)); return x; }
static int FN(cmp)(E const *a, E const *b, int *u)
{
    ++*u;
    return memcmp(a, b, KEYLEN);
}
static void FN(run)(void)
{
    uint8_t use_pool = r8();
    V v[NV];
    cp_pool_t pool[1];
    cp_pool_init(pool);
    if (use_pool) { pool->block_size = 4096; }
    cp_alloc_t *m = use_pool ? pool->alloc : &cp_alloc_global;
    int calls = 0;
    for (unsigned i = 0; i < NV; i++) { cp_v_init(&v[i]); }
    while (hv_left()) {
        uint8_t op = r8();
        V *a = &v[r8()];
        uint32_t p = r32(), q = r32(), n = r32();
        uint8_t j = r8();
        V *b = &v[j];
        uint32_t k = r32();      /* array of elements that follows */
        E *arr = NULL;
        if (k > 0) {
            /* of the same allocator, so it may be next to the vector */
            arr = cp_malloc(m, k, sizeof(E));
            for (uint32_t i = 0; i < k; i++) { arr[i] = FN(rd)(); }
        }
        uint32_t res = 0;
        E out;
        CP_ZERO(&out);
        switch (op) {
        case 0: { E *e = cp_v_push_alloc(m, a, arr[0]); res = (uint32_t)(e - a->data); break; }
        case 1: { E *e = cp_v_push0_alloc(m, a); res = (uint32_t)(e - a->data); break; }
        case 2: out = cp_v_pop(a); break;
        case 3: cp_v_insert_arr_alloc(m, a, a->size, arr, k); break;
        case 4: cp_v_append_alloc(m, a, b); break;
        case 5: cp_v_insert1_alloc(m, a, p, arr[0]); break;
        case 6: cp_v_insert_arr_alloc(m, a, p, arr, k); break;
        case 7: cp_v_insert_alloc(m, a, p, b); break;
        case 8: cp_v_insert_arr_alloc(m, a, p, b->data + q, n); break;
        case 9: cp_v_inflate_alloc(m, a, p, n); break;
        case 10: cp_v_remove(a, p, n); break;
        case 11: cp_v_remove(a, p, CP_SIZE_MAX); break;
        case 12: cp_v_reverse(a, p, n); break;
        case 13: out = cp_v_extract(a, p); break;
        case 14: cp_v_set_size_alloc(m, a, n); break;
        case 15: cp_v_ensure_size_alloc(m, a, n); break;
        case 16: cp_v_clear_alloc(m, a, n); break;
        case 17: cp_v_shrink_alloc(m, a, n); break;
        case 18: cp_v_copy1_alloc(m, a, p, arr[0]); break;
        case 19: cp_v_copy_alloc(m, a, p, b, q, (n == 0xffffffffU) ? CP_SIZE_MAX : n); break;
        case 20: cp_v_fini_alloc(m, a); break;
        case 21: cp_v_fini_alloc(m, a); cp_v_init_with_alloc(m, a, arr, k); break;
        case 22: cp_v_fini_alloc(m, a); cp_v_init0_alloc(m, a, n); break;
        case 23: cp_v_qsort(a, p, (n == 0xffffffffU) ? CP_SIZE_MAX : n, FN(cmp), &calls); break;
        case 24: { size_t r = cp_v_bsearch(&arr[0], a, FN(cmp), &calls); res = (uint32_t)r; break; }
        case 25: { E *e = cp_v_nth_ptr0(a, p); res = e ? (uint32_t)(e - a->data) : 0xffffffffU; break; }
        case 26: out = cp_v_nth(a, p); break;
        case 27: out = cp_v_last(a); break;
        case 28: out = cp_v_last_but(a, p); break;
        case 29: cp_v_heap_make(a, FN(cmp), &calls); break;
        case 30: cp_v_heap_insert_alloc(m, a, FN(cmp), &calls, arr[0]); break;
        case 31: out = cp_v_heap_extract(a, FN(cmp), &calls); break;
        case 32: a->data[p] = arr[0]; cp_v_heap_update(a, FN(cmp), &calls, p); break;
        case 33: out = *cp_v_heap_min(a); break;
        case 34: res = (uint32_t)cp_v_idx(a, a->data + p); break;
        case 35: for (cp_v_each(i, a)) { res = 31 * res + *(unsigned char *)&a->data[i]; }
                 for (cp_v_eachp(i, a)) { res = 31 * res + *(unsigned char *)i; } break;
        default: exit(98);
        }
        w32(res);
        hv_wr(&out, sizeof(out));
        for (unsigned i = 0; i < NV; i++) {
            w32((uint32_t)v[i].size);
            w8(v[i].alloc >= v[i].size);
            if (v[i].size) { hv_wr(v[i].data, v[i].size * sizeof(E)); }
        }
        if (!use_pool) { free(arr); }
        else {
            /* fresh memory is zeroed, whatever happened before */
        }
    }
    for (unsigned i = 0; i < NV; i++) { cp_v_fini_alloc(m, &v[i]); }
    cp_pool_fini(pool);
}
#undef V
#undef FN
#undef E
#undef NAME
#undef KEYLEN
