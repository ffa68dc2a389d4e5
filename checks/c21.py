"""C21: the dictionary behaves as an ordered map."""
import math
import struct
import hypothesis.strategies as st
from hv.run import Part, Violation

PROP = "C21"
TECHNIQUE = "stateful property-based testing (Hypothesis): random histories on several trees, compared with sorted lists after every step, with structural invariants"
NOTE = "Random search over histories of up to some 300 operations and some 200 elements in 4 trees; every tree is compared completely after each operation."
RULE = ("A case is a history of insertions (by element or key, with and without cached extrema, duplicates rejected or put left or right, by an explicit place or a found "
        "reference), removals (known, unknown and no root), extractions of extrema, swaps (within a tree, between trees, with an outside element), joins with and without a "
        "middle element, splits, robust iteration and lookups in all five duplicate modes, on up to 4 trees with keys from a small or large range, with or without an "
        "augmentation (sum of the subtree).  Non-trivial: at least 10 operations and a tree of 6 or more elements.")
NT, NONE, NOTHING = 4, 0xffffffff, 0xfffffffe
BAD = ["a child's parent link is wrong", "a red node has a red child", "black heights differ", "the stored black height is wrong", "the root has a parent",
       "forward iteration is wrong", "root or membership queries are wrong", "backward iteration is wrong", "the cached extrema are wrong",
       "a step beyond the end gives something", "the augmentation was not kept up to date"]


@st.composite
def histories(draw, big=False):
    n = draw(st.integers(20, 200) if big else st.integers(1, 40))
    keys = draw(st.sampled_from([1, 3, 10, 100, 10 ** 6]))
    kinds = draw(st.sampled_from([[0], [0, 0, 0, 2], [0, 3], [0, 0, 4, 2], [0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8], [0, 0, 0, 6, 7], [0, 0, 0, 5, 2], [3, 4, 2], [6, 6, 6, 7, 7, 2, 0]]))
    r = draw(st.randoms(use_true_random=False)) if big else None
    if big:
        m = draw(st.integers(50, 300))
        ops = [[r.choice(kinds + [1]), r.getrandbits(20), r.randrange(keys), r.getrandbits(16), r.getrandbits(8)] for _ in range(m)]
        if draw(st.booleans()):      # rising, falling or alternating insertions
            k = draw(st.sampled_from([1, -1, 0]))
            for i, o in enumerate(ops[:n]):
                ops[i] = [0, o[1], (k * i if k else (i if i % 2 else -i)), 1, o[4]]
    else:
        ops = draw(st.lists(st.tuples(st.sampled_from(kinds + [1]), st.integers(0, 2 ** 20), st.integers(0, keys - 1), st.integers(0, 2 ** 16), st.integers(0, 255)).map(list),
                            min_size=draw(st.sampled_from([1, 12, 25])), max_size=60))
    return dict(n=n, aug=draw(st.booleans()), trees=draw(st.sampled_from([1, 2, 4])), ops=ops)


def run(case, ctx):
    n, nt = case["n"], case["trees"]
    T = [[] for _ in range(NT)]
    key = [0] * n
    free = list(range(n))
    out = bytearray(struct.pack("<IB", n, case["aug"]))
    steps = []

    def tree_of(i):
        for t in range(NT):
            if i in T[t]:
                return t

    for op, a, k, b, c in case["ops"]:
        t = a % nt
        L = T[t]
        q = a // 4
        if op == 0 and free:
            i = free[q % len(free)]
            dup = [-1, 0, 1][b % 3]
            out += struct.pack("<BIBiiB", 0, i, t, k, dup, (b // 3) % 5)
            ks = [key[x] for x in L]
            if dup == 0 and k in ks:
                want = ("one", {x for x in L if key[x] == k})
            else:
                p = sum(1 for x in ks if x < k or (x == k and dup > 0))
                L.insert(p, i)
                key[i] = k
                free.remove(i)
                want = NONE
        elif op == 1:
            dup = b % 5 - 2
            out += struct.pack("<BBii", 1, t, k, dup)
            want = ("find", t, k, dup)
        elif op == 2 and L:
            i = L[q % len(L)]
            out += struct.pack("<BIBB", 2, i, t, c % 3)
            L.remove(i)
            free.append(i)
            want = NOTHING
        elif op == 3 and free:
            i = free[q % len(free)]
            d = b & 1
            if not L or c % 5 == 0:     # outside the tree: 0 is a new maximum, 1 a new minimum
                out += struct.pack("<BIBiIBB", 3, i, t, key[(L[0] if d else L[-1])] if L else k, NONE, d, b >> 1 & 1)
                key[i] = key[L[0] if d else L[-1]] if L else k
                L.insert(0 if d else len(L), i)
            else:
                p = c % len(L)
                out += struct.pack("<BIBiIBB", 3, i, t, key[L[p]], L[p], d, b >> 1 & 1)
                key[i] = key[L[p]]
                L.insert(p + d, i)
            free.remove(i)
            want = NOTHING
        elif op == 4:
            d = b & 1
            out += struct.pack("<BBBB", 4, t, d, b >> 1 & 1)
            if L:
                want = L.pop(-1 if d else 0)
                free.append(want)
            else:
                want = NONE
        elif op == 5 and n > 1:
            x, y = q % n, b % n
            tx, ty = tree_of(x), tree_of(y)
            key[x], key[y] = key[y], key[x]
            u = 255
            if tx is None and ty is None:
                tt = 255
            elif tx is None or ty is None or tx == ty:
                tt = ty if tx is None else tx
                if c & 1 and nt > 1:
                    u = (tt + c // 2) % nt
                    if c & 2:
                        tt, u = u, tt
            else:
                tt, u = (tx, ty) if c & 1 else (ty, tx)
            out += struct.pack("<BIIBB", 5, x, y, tt, u)
            if x != y:
                px, py = T[tx].index(x) if tx is not None else None, T[ty].index(y) if ty is not None else None
                if tx is not None:
                    T[tx][px] = y
                else:
                    free[free.index(x)] = -1
                if ty is not None:
                    T[ty][py] = x
                else:
                    free[free.index(y)] = x
                if -1 in free:
                    free[free.index(-1)] = y
            want = NOTHING
        elif op == 6 and nt > 1:
            u = (t + 1 + c % (nt - 1)) % nt
            A, B = t, u
            if T[A] and T[B] and key[T[A][-1]] > key[T[B][0]]:
                A, B = B, A
            if T[A] and T[B] and key[T[A][-1]] > key[T[B][0]]:
                # ranges overlap: shift them apart
                continue
            if b & 1 and free:
                i = free[q % len(free)]
                kk = key[T[A][-1]] if T[A] else key[T[B][0]] if T[B] else k
                out += struct.pack("<BBIBi", 6, A, i, B, kk)
                key[i] = kk
                free.remove(i)
                T[A] = T[A] + [i] + T[B]
            else:
                out += struct.pack("<BBIB", 6, A, NONE, B)
                T[A] = T[A] + T[B]
            T[B] = []
            want = NOTHING
        elif op == 7 and nt > 1:
            e = [i for i in range(nt) if not T[i] and i != t]
            if not e:
                continue
            l, r = (t, e[0]) if b & 1 else (e[0], t)
            back = b >> 1 & 1
            out += struct.pack("<BBBBiB", 7, t, l, r, k, back)
            lo = [x for x in L if key[x] < k or (key[x] == k and not back)]
            hi = [x for x in L if not (key[x] < k or (key[x] == k and not back))]
            T[l], T[r] = lo, hi
            want = NOTHING
        elif op == 8:
            m = 1 + b % 4
            out += struct.pack("<BBII", 8, t, m, q % m)
            T[t] = [x for x in L if x % m != q % m]
            free += [x for x in L if x % m == q % m]
            want = NOTHING
        else:
            continue
        steps.append((op, want, [list(x) for x in T], list(key) if op == 1 else None))
    ans = ctx.server("dict").call(bytes(out))
    p = 0

    def u32(m=1):
        nonlocal p
        v = struct.unpack_from("<%dI" % m, ans, p)
        p += 4 * m
        return v if m > 1 else v[0]
    big = 0
    for si, (op, want, trees, ks) in enumerate(steps):
        where = "after step %d (operation %d): " % (si + 1, op)
        if op == 1:
            b, par, child, path = u32(4)
            res = u32()
            _, t, k, dup = want
            L = trees[t]
            eq = [x for x in L if ks[x] == k]
            if dup == 0:
                ok = res in eq if eq else res == NONE
            elif abs(dup) == 1:
                ok = res == NONE
            else:
                ok = res == ((eq[0] if dup < 0 else eq[-1]) if eq else NONE)
            if not ok or b != res:
                raise Violation(where + "find(%d) with duplicate mode %d gave %#x/%#x, keys %s" % (k, dup, res, b, [(x, ks[x]) for x in L][:60]))
            if not (dup == 0 and eq):
                # the reference says where the element goes
                pos = sum(1 for x in L if ks[x] < k or (ks[x] == k and dup > 0))
                if par == NONE:
                    ok = child == 1 and not L and path == 0
                else:
                    ok = par in L and L.index(par) + (1 if child else 0) == pos
                    # bit 0: went left somewhere, bit 1: went right somewhere
                    ok = ok and (path & 5 == 0) == (pos == len(L)) and (path & 6 == 0) == (pos == 0)
                if not ok:
                    raise Violation(where + "find_ref(%d, mode %d): reference %#x child %d path %d, keys %s" % (k, dup, par, child, path, [(x, ks[x]) for x in L][:60]))
        else:
            res = u32()
            if isinstance(want, tuple):
                if res not in want[1]:
                    raise Violation(where + "insertion of a duplicate answered %#x, equal elements %s" % (res, want[1]))
            elif res != want:
                raise Violation(where + "answer %#x, expected %#x" % (res, want))
        for t in range(NT):
            bad, depth, m = u32(3)
            got = list(struct.unpack_from("<%dI" % min(m, n), ans, p))
            p += 4 * min(m, n)
            if bad:
                raise Violation(where + "tree %d: %s" % (t, "; ".join(BAD[i] for i in range(len(BAD)) if bad >> i & 1)))
            if got != trees[t]:
                raise Violation(where + "tree %d holds %s, expected %s" % (t, got, trees[t]))
            if depth > 2 * math.log2(m + 1) + 1:
                raise Violation(where + "tree %d of %d elements is %d levels high" % (t, m, depth))
            big = max(big, m)
    for i in range(n):
        inn = tree_of(i) is not None
        if ans[p + i] != (1 if inn else 0):
            raise Violation("element %d: state %d at the end, expected %s" % (i, ans[p + i], "in a tree" if inn else "outside and unlinked"))
    ctx.nt(len(steps) >= 10 and big >= 6)
    ctx.label("size-%d" % (1 << big.bit_length()), "aug" if case["aug"] else "plain")


PARTS = [Part("history", histories, run, quick=12000, need=("dict",)),
         Part("long", lambda: histories(True), run, quick=2500, need=("dict",))]
