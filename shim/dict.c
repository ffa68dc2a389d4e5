/* Server around the dictionary: replays a history on a set of trees, dumping all of them after each step. */
#include <hob3lbase/base-def.h>
#include <hob3lbase/alloc.h>
#include <hob3lbase/dict.h>
#include "hv.h"

typedef struct { cp_dict_t node; int32_t key; uint32_t id; uint64_t sum; } num_t;
#define NT 4
static num_t *num;
static uint32_t cnt;
static cp_dict_t *root[NT], *mn[NT], *mx[NT];
static int user_tag;

static num_t *N(cp_dict_t *a) { return CP_BOX_OF(a, num_t, node); }
static uint64_t sum(cp_dict_t *a) { return a ? N(a)->sum : 0; }
static void upd(cp_dict_t *a) { if (a) { N(a)->sum = 1 + N(a)->id + sum(a->edge[0]) + sum(a->edge[1]); } }

static void event(cp_dict_aug_t *aug, cp_dict_t *a, cp_dict_t *b, cp_dict_aug_type_t t)
{
    (void)aug;
    switch (t) {
    case CP_DICT_AUG_LEFT:
    case CP_DICT_AUG_RIGHT: upd(b); upd(a); break;
    case CP_DICT_AUG_NOP:
    case CP_DICT_AUG_ADD:
    case CP_DICT_AUG_JOIN: upd(a); break;
    case CP_DICT_AUG_NOP2: upd(a); upd(a->parent); break;
    case CP_DICT_AUG_FINI: for (; a; a = a->parent) { upd(a); } break;
    case CP_DICT_AUG_CUT_SWAP: break;
    case CP_DICT_AUG_CUT_LEAF: upd(a); break;
    case CP_DICT_AUG_SPLIT: N(a)->sum = 1 + N(a)->id; break;
    }
}
static cp_dict_aug_t aug[1] = {{ .event = event }};

static int cmp_key(int32_t *a, cp_dict_t *b, int *u)
{
    if (u != &user_tag) { abort(); }
    return (*a < N(b)->key) ? -1 : (*a > N(b)->key) ? +1 : 0;
}
static int cmp_num(cp_dict_t *a, cp_dict_t *b, int *u) { return cmp_key(&N(a)->key, b, u); }

static uint32_t ID(cp_dict_t *a) { return a ? N(a)->id : 0xffffffffU; }

/* black height, or -1 */
static long bh(cp_dict_t *a, unsigned *bad, unsigned depth, unsigned *maxd)
{
    if (!a) { return 0; }
    if (depth > *maxd) { *maxd = depth; }
    for (unsigned i = 0; i < 2; i++) {
        if (a->edge[i] && (a->edge[i]->parent != a)) { *bad |= 1; return 0; }
        if (cp_dict_is_red(a) && a->edge[i] && cp_dict_is_red(a->edge[i])) { *bad |= 2; }
    }
    long x = bh(a->edge[0], bad, depth + 1, maxd), y = bh(a->edge[1], bad, depth + 1, maxd);
    if (x != y) { *bad |= 4; }
    x += !cp_dict_is_red(a);
    if ((size_t)x != cp_dict_black_height(a)) { *bad |= 8; }
    return x;
}

static uint32_t order(cp_dict_t *a, uint32_t *o, uint32_t n)
{
    if (!a || (n > cnt)) { return n; }
    n = order(a->edge[0], o, n);
    if (n > cnt) { return n; }
    o[n++] = N(a)->id;
    return order(a->edge[1], o, n);
}

static bool sums(cp_dict_t *a)
{
    if (!a) { return true; }
    return sums(a->edge[0]) && sums(a->edge[1]) &&
        (N(a)->sum == 1 + N(a)->id + sum(a->edge[0]) + sum(a->edge[1]));
}

static void dump(bool with_aug)
{
    uint32_t *o = malloc((cnt + 2) * 4);
    for (unsigned t = 0; t < NT; t++) {
        unsigned bad = 0, maxd = 0;
        uint32_t n = 0;
        if (root[t] && root[t]->parent) { bad |= 16; }
        n = order(root[t], o, 0);
        bh(root[t], &bad, 1, &maxd);
        if (!bad) {
            uint32_t i = 0;
            for (cp_dict_each(e, root[t])) {
                if ((i >= n) || (ID(e) != o[i])) { bad |= 32; break; }
                if (cp_dict_root(e) != root[t]) { bad |= 64; }
                if (!cp_dict_contains(root[t], e) || !cp_dict_may_contain(root[t], e)) { bad |= 64; }
                if (cp_dict_is_root(e) != (e == root[t])) { bad |= 64; }
                if (cp_dict_is_member(e) != (n > 1)) { bad |= 64; }
                if (cp_dict_is_singleton(e) != (n == 1)) { bad |= 64; }
                i++;
            }
            if (i != n) { bad |= 32; }
            for (cp_dict_each_rev(e, root[t])) {
                if ((i == 0) || (ID(e) != o[i - 1])) { bad |= 128; break; }
                i--;
            }
            if (i != 0) { bad |= 128; }
            if ((n > 0) && (mn[t] != cp_dict_min(root[t]))) { bad |= 256; }
            if ((n > 0) && (mx[t] != cp_dict_max(root[t]))) { bad |= 256; }
            if ((n > 0) && ((cp_dict_next(cp_dict_max(root[t])) != NULL) || (cp_dict_prev(cp_dict_min(root[t])) != NULL))) { bad |= 512; }
            if (with_aug && !sums(root[t])) { bad |= 1024; }
        }
        w32(bad); w32(maxd); w32(n);
        hv_wr(o, 4 * (n > cnt ? cnt : n));
    }
    free(o);
}

static void refresh(unsigned t) { mn[t] = cp_dict_min(root[t]); mx[t] = cp_dict_max(root[t]); }

static void hv_handle(void)
{
    cnt = r32();
    num = calloc(cnt ? cnt : 1, sizeof(*num));
    for (uint32_t i = 0; i < cnt; i++) {
        cp_dict_init(&num[i].node);
        num[i].id = i;
        num[i].sum = 1 + i;
    }
    for (unsigned t = 0; t < NT; t++) { root[t] = mn[t] = mx[t] = NULL; }
    bool use_aug = r8();
    cp_dict_aug_t *au = use_aug ? aug : NULL;
    int *us = &user_tag;
    while (hv_left()) {
        uint8_t op = r8();
        uint32_t res = 0xfffffffeU;
        switch (op) {
        case 0: { /* insert node into tree */
            num_t *n = &num[r32()]; uint8_t t = r8(); n->key = ri32(); int dup = ri32(); uint8_t how = r8();
            n->sum = 1 + n->id;
            cp_dict_t *e;
            cp_dict_ref_t ref;
            switch (how) {
            default: e = cp_dict_insert_update_aug(&n->node, &root[t], &mn[t], &mx[t], cmp_num, us, dup, au); break;
            case 1: e = cp_dict_insert_update_by_aug(&n->node, &n->key, &root[t], &mn[t], &mx[t], cmp_key, us, dup, au); break;
            case 2: e = cp_dict_insert_aug(&n->node, &root[t], cmp_num, us, dup, au); refresh(t); break;
            case 3: e = cp_dict_insert_by_aug(&n->node, &n->key, &root[t], cmp_key, us, dup, au); refresh(t); break;
            case 4:
                e = cp_dict_find_ref(&ref, &n->key, root[t], cmp_key, us, dup);
                if (!e) { cp_dict_insert_ref_aug(&n->node, &ref, &root[t], au); refresh(t); }
                break;
            }
            res = ID(e);
            break; }
        case 1: { /* find */
            uint8_t t = r8(); int32_t key = ri32(); int dup = ri32();
            cp_dict_ref_t ref = {0};
            cp_dict_t *a = cp_dict_find(&key, root[t], cmp_key, us, dup);
            cp_dict_t *b = cp_dict_find_ref(&ref, &key, root[t], cmp_key, us, dup);
            w32(ID(b)); w32(ID(ref.parent)); w32(ref.child); w32(ref.path);
            res = ID(a);
            break; }
        case 2: { /* remove */
            num_t *n = &num[r32()]; uint8_t t = r8(); uint8_t how = r8();
            if (how == 1) {
                cp_dict_t *r = cp_dict_root(&n->node);
                cp_dict_remove_aug(&n->node, &r, au);
                root[t] = r;
            }
            else if (how == 2) {
                cp_dict_t *other = cp_dict_next(&n->node);
                if (!other) { other = cp_dict_prev(&n->node); }
                cp_dict_remove_aug(&n->node, NULL, au);
                root[t] = cp_dict_root(other);
            }
            else {
                cp_dict_remove_aug(&n->node, &root[t], au);
            }
            refresh(t);
            break; }
        case 3: { /* insert at */
            num_t *n = &num[r32()]; uint8_t t = r8(); n->key = ri32(); uint32_t pos = r32(); uint8_t dir = r8(); uint8_t how = r8();
            n->sum = 1 + n->id;
            cp_dict_t *p = (pos == 0xffffffffU) ? NULL : &num[pos].node;
            if (!p && root[t]) { how |= 1; }
            if (how & 1) { cp_dict_insert_at_aug(&n->node, p, dir, &root[t], au); refresh(t); }
            else { cp_dict_insert_update_at_aug(&n->node, p, dir, &root[t], &mn[t], &mx[t], au); }
            break; }
        case 4: { /* extract */
            uint8_t t = r8(); uint8_t dir = r8(); uint8_t how = r8();
            cp_dict_t *e;
            if (how) {
                e = dir ? cp_dict_extract_max_aug(&root[t], au) : cp_dict_extract_min_aug(&root[t], au);
                refresh(t);
            }
            else if (dir) {
                e = cp_dict_extract_update_max_aug(&root[t], &mx[t], au);
                if (!root[t]) { mn[t] = NULL; }
            }
            else {
                e = cp_dict_extract_update_min_aug(&root[t], &mn[t], au);
                if (!root[t]) { mx[t] = NULL; }
            }
            res = ID(e);
            break; }
        case 5: { /* swap */
            num_t *a = &num[r32()], *b = &num[r32()]; uint8_t t = r8(), u = r8();
            int32_t k = a->key; a->key = b->key; b->key = k;
            if (u == 255) { if (t == 255) { cp_dict_swap(&a->node, &b->node); } else { cp_dict_swap_update_root(&root[t], &a->node, &b->node); } }
            else { cp_dict_swap_update_root2(&root[t], &root[u], &a->node, &b->node); }
            for (unsigned i = 0; i < NT; i++) { refresh(i); }
            /* sums do not follow a swap */
            event(aug, &a->node, NULL, CP_DICT_AUG_FINI);
            event(aug, &b->node, NULL, CP_DICT_AUG_FINI);
            event(aug, &a->node, NULL, CP_DICT_AUG_FINI);
            break; }
        case 6: { /* join: tree l, node or -1, tree r into l */
            uint8_t l = r8(); uint32_t m = r32(); uint8_t r = r8();
            if (m == 0xffffffffU) { root[l] = cp_dict_join2_aug(root[l], root[r], au); }
            else { num[m].key = ri32(); num[m].sum = 1 + m; root[l] = cp_dict_join3_aug(root[l], &num[m].node, root[r], au); }
            root[r] = NULL;
            refresh(l); refresh(r);
            break; }
        case 7: { /* split t into l and r */
            uint8_t t = r8(), l = r8(), r = r8(); int32_t key = ri32(); uint8_t back = r8();
            cp_dict_t *x, *y, *o = root[t];
            root[t] = NULL;
            cp_dict_split_aug(&x, &y, o, &key, cmp_key, us, back, au);
            root[l] = x; root[r] = y;
            refresh(t); refresh(l); refresh(r);
            break; }
        case 8: { /* remove all with (id % m) == r during iteration */
            uint8_t t = r8(); uint32_t m = r32(), q = r32();
            for (cp_dict_each_robust(e, root[t])) {
                if ((N(e)->id % m) == q) { cp_dict_remove_aug(e, &root[t], au); }
            }
            refresh(t);
            break; }
        default:
            exit(98);
        }
        w32(res);
        dump(use_aug);
    }
    /* nodes outside of all trees are clean */
    for (uint32_t i = 0; i < cnt; i++) {
        bool in = false;
        for (unsigned t = 0; t < NT; t++) { in |= root[t] && (cp_dict_root(&num[i].node) == root[t]); }
        w8(in ? 1 : (num[i].node.parent || num[i].node.edge[0] || num[i].node.edge[1]) ? 2 : 0);
    }
    free(num);
}
