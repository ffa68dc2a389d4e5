"""C22: the base containers behave like their abstract models."""
import struct
import hypothesis.strategies as st
from hv.run import Part, Violation

PROP = "C22"
TECHNIQUE = "stateful property-based testing (Hypothesis): random histories of operations compared with lists, priority queues, rings, byte strings after every step; UTF-8 against Python's codec"
NOTE = "Random search over histories; every container's complete content is compared after each operation; the sanitizer build runs a part of the histories."
RULE = ("A case is a history of up to some 60 operations on 3 vectors (elements of 1, 4, 5 or 24 bytes, from the heap or from a pool, including copies within a vector and the in-vector heap), on an "
        "indexed heap, a set of rings, a pool, 3 character buffers, or a UTF-8 text (with escapes, cut, corrupted, or valid).  Non-trivial: at least 8 operations, or a text of at least 2 characters.")
NV = 3
ESZ = [(1, 1), (4, 4), (5, 2), (24, 3)]
ALL = 0xffffffff

u32 = struct.Struct("<I").unpack_from


# ---- vectors ----

@st.composite
def vecs(draw):
    kinds = draw(st.sampled_from([[0, 1, 2, 3, 4], [0, 3, 5, 6, 7, 8, 9, 10, 13], list(range(29)) + [34, 35], [0, 3, 29, 30, 30, 30, 31, 32, 33], [3, 8, 8, 8, 7, 19, 19, 4], [3, 6, 23, 24, 24, 12], [3, 21, 22, 14, 15, 16, 18, 19]]))
    ops = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 2), st.integers(0, 2), st.integers(0, 2 ** 16), st.integers(0, 2 ** 16), st.integers(0, 2 ** 16),
                                  st.integers(0, 2 ** 32 - 1)).map(list), min_size=draw(st.sampled_from([1, 10, 25])), max_size=60))
    return dict(t=draw(st.integers(0, 3)), pool=draw(st.booleans()), vals=draw(st.sampled_from([2, 5, 256])), most=draw(st.sampled_from([3, 9, 40])), ops=ops)


def run_vec(case, ctx, exe="base"):
    esz, kl = ESZ[case["t"]]
    zero = bytes(esz)
    V = [[] for _ in range(NV)]
    heap = [False] * NV
    out = bytearray([case["t"], case["pool"]])
    exp = []
    most = case["most"]

    def elem(seed):
        b = bytes(((seed * 2654435761 + 97 * i * seed + i) >> 7) % case["vals"] for i in range(esz))
        return b

    state = {"V": V}
    steps = []
    # heaps and sorting choose an order of their own, so the history is played in rounds up to there
    pending = []

    def flush():
        pass
    ops = case["ops"]
    i = 0
    replies = []
    # first pass: fixed sequence; orders after heap operations are read back from a single replay per such operation
    seq = []

    def emit(op, a, p, q, n, j, arr):
        seq.append(struct.pack("<BBIIIBI", op, a, p, q, n, j, len(arr)) + b"".join(arr))

    def play():
        ans = ctx.server(exe).call(bytes(out) + b"".join(seq))
        return ans

    def parse(ans, count):
        p = 0
        r = []
        for _ in range(count):
            res = u32(ans, p)[0]
            o = ans[p + 4:p + 4 + esz]
            p += 4 + esz
            vs = []
            for _ in range(NV):
                n = u32(ans, p)[0]
                okalloc = ans[p + 4]
                p += 5
                vs.append([bytes(ans[p + esz * k:p + esz * (k + 1)]) for k in range(n)])
                p += esz * n
                if not okalloc:
                    raise Violation("allocated size below size")
            r.append((res, o, vs))
        if p != len(ans):
            raise Violation("answer has a wrong length")
        return r
    key = lambda e: e[:kl]

    def is_heap(L):
        return all(key(L[(k - 1) // 2]) <= key(L[k]) for k in range(1, len(L)))
    done = 0
    for op, a, j, p, q, n, seed in ops:
        L, M = V[a], V[j]
        pp = p % (len(L) + 1)
        nn = n % (most + 1)
        es = [elem(seed + k) for k in range(nn)]
        e1 = [elem(seed)]
        big = len(L) > 3000 or len(M) > 3000
        want = None          # ("=", res) or ("e", element) or ("perm", ...)
        h = heap[a]
        heap[a] = heap[a] and op in (30, 31, 32, 33, 26, 27, 34, 35, 24, 25, 28, 17)
        if op == 0:
            emit(0, a, 0, 0, 0, 0, e1)
            want = ("=", len(L))
            L.append(e1[0])
        elif op == 1:
            emit(1, a, 0, 0, 0, 0, [])
            want = ("=", len(L))
            L.append(zero)
        elif op == 2 and L:
            emit(2, a, 0, 0, 0, 0, [])
            want = ("e", L.pop())
        elif op == 3:
            emit(3, a, 0, 0, 0, 0, es)
            L += es
        elif op == 4 and not big:
            emit(4, a, 0, 0, 0, j, [])
            L += list(M)
        elif op == 5:
            emit(5, a, pp, 0, 0, 0, e1)
            L.insert(pp, e1[0])
        elif op == 6:
            emit(6, a, pp, 0, 0, 0, es)
            L[pp:pp] = es
        elif op == 7 and not big:
            emit(7, a, pp, 0, 0, j, [])
            L[pp:pp] = list(M)
        elif op == 8 and M and not big:
            qq = q % len(M)
            c = n % (len(M) - qq + 1)
            emit(8, a, pp, qq, c, j, [])
            L[pp:pp] = M[qq:qq + c]
        elif op == 9:
            emit(9, a, pp, 0, nn, 0, [])
            L[pp:pp] = [zero] * nn
        elif op == 10:
            emit(10, a, pp, 0, nn, 0, [])
            del L[pp:pp + nn]
        elif op == 11:
            emit(11, a, pp, 0, 0, 0, [])
            del L[pp:]
        elif op == 12:
            emit(12, a, pp, 0, nn, 0, [])
            L[pp:pp + nn] = L[pp:pp + nn][::-1]
        elif op == 13 and L:
            pp = p % len(L)
            emit(13, a, pp, 0, 0, 0, [])
            want = ("e", L.pop(pp))
        elif op == 14:
            emit(14, a, 0, 0, nn, 0, [])
            L[:] = (L + [zero] * nn)[:nn] if nn > len(L) else L[:nn]
        elif op == 15:
            emit(15, a, 0, 0, nn, 0, [])
            L += [zero] * (nn - len(L))
        elif op == 16:
            emit(16, a, 0, 0, nn, 0, [])
            L.clear()
        elif op == 17:
            emit(17, a, 0, 0, nn, 0, [])
        elif op == 18:
            emit(18, a, pp, 0, 0, 0, e1)
            L[pp:pp + 1] = e1
        elif op == 19:
            qq = q % (len(M) + 1)
            c = ALL if n % 7 == 0 else nn
            emit(19, a, pp, qq, c, j, [])
            s = M[qq:qq + c]
            L[pp:pp + len(s)] = s
        elif op == 20:
            emit(20, a, 0, 0, 0, 0, [])
            L.clear()
        elif op == 21 and es:
            emit(21, a, 0, 0, 0, 0, es)
            L[:] = es
        elif op == 22 and nn:
            emit(22, a, 0, 0, nn, 0, [])
            L[:] = [zero] * nn
        elif op == 23:
            c = ALL if n % 3 == 0 else nn
            emit(23, a, pp, 0, c, 0, [])
            want = ("sort", pp, min(c, len(L) - pp))
        elif op == 24:
            if all(key(L[k]) <= key(L[k + 1]) for k in range(len(L) - 1)):
                x = L[p % len(L)] if L and q % 2 else e1[0]
                emit(24, a, 0, 0, 0, 0, [x])
                want = ("find", x)
            else:
                continue
        elif op == 25:
            pp = p % (len(L) + 3)
            emit(25, a, pp, 0, 0, 0, [])
            want = ("=", pp if pp < len(L) else ALL)
        elif op == 26 and L:
            pp = p % len(L)
            emit(26, a, pp, 0, 0, 0, [])
            want = ("e", L[pp])
        elif op == 27 and L:
            emit(27, a, 0, 0, 0, 0, [])
            want = ("e", L[-1])
        elif op == 28 and L:
            pp = p % len(L)
            emit(28, a, pp, 0, 0, 0, [])
            want = ("e", L[-1 - pp])
        elif op == 29:
            emit(29, a, 0, 0, 0, 0, [])
            want = ("heap", sorted(L))
            heap[a] = True
        elif op == 30 and (h or not L):
            emit(30, a, 0, 0, 0, 0, e1)
            want = ("heap", sorted(L + e1))
            heap[a] = True
        elif op == 31 and L and h:
            emit(31, a, 0, 0, 0, 0, [])
            want = ("pop", min(key(x) for x in L), sorted(L))
        elif op == 32 and L and h:
            pp = p % len(L)
            emit(32, a, pp, 0, 0, 0, e1)
            want = ("heap", sorted(L[:pp] + e1 + L[pp + 1:]))
        elif op == 33 and L and h:
            emit(33, a, 0, 0, 0, 0, [])
            want = ("min", min(key(x) for x in L))
        elif op == 34 and L:
            pp = p % len(L)
            emit(34, a, pp, 0, 0, 0, [])
            want = ("=", pp)
        elif op == 35:
            emit(35, a, 0, 0, 0, 0, [])
            r = 0
            for x in L + L:
                r = (31 * r + x[0]) & 0xffffffff
            want = ("=", r)
        else:
            heap[a] = h
            continue
        if want and want[0] in ("sort", "heap", "pop"):
            # adopt the order found
            got = parse(play(), len(seq))[-1]
            N = got[2][a]
            if want[0] == "sort":
                s, c = want[1], want[2]
                if N[:s] != L[:s] or N[s + c:] != L[s + c:] or sorted(N[s:s + c]) != sorted(L[s:s + c]) or any(key(N[k]) > key(N[k + 1]) for k in range(s, s + c - 1)):
                    raise Violation("sorting [%d,+%d] of %s gave %s" % (s, c, [x.hex() for x in L], [x.hex() for x in N]))
            else:
                if want[0] == "pop":
                    if key(got[1]) != want[1] or sorted(N + [bytes(got[1])]) != want[2]:
                        raise Violation("extracting the minimum of %s gave %s and left %s" % ([x.hex() for x in want[2]], got[1].hex(), [x.hex() for x in N]))
                elif sorted(N) != want[1]:
                    raise Violation("the heap operation %d lost elements: %s, expected %s" % (op, [x.hex() for x in N], [x.hex() for x in want[1]]))
                if not is_heap(N):
                    raise Violation("after operation %d the vector is no heap: %s" % (op, [x.hex() for x in N]))
            V[a] = N
        exp.append((op, a, want, [list(x) for x in V]))
    if not seq:
        return
    for k, ((op, a, want, vs), (res, o, got)) in enumerate(zip(exp, parse(play(), len(seq)))):
        if got != vs:
            t = [x for x in range(NV) if got[x] != vs[x]][0]
            raise Violation("after step %d (operation %d on %d): vector %d is %s, expected %s" % (k, op, a, t, [x.hex() for x in got[t]][:80], [x.hex() for x in vs[t]][:80]))
        if want and (want[0] == "=" and res != want[1] or want[0] == "e" and o != want[1] or want[0] == "min" and key(o) != want[1]
                     or want[0] == "find" and not (res < len(vs[a]) and key(vs[a][res]) == key(want[1]) or res == ALL and all(key(x) != key(want[1]) for x in vs[a]))):
            raise Violation("step %d (operation %d): answer %#x/%s, expected %s" % (k, op, res, o.hex(), want))
    ctx.nt(len(seq) >= 8)


# ---- indexed heap ----

@st.composite
def heaps(draw):
    return dict(n=draw(st.integers(1, 30)), prios=draw(st.sampled_from([2, 8, 1000])),
                ops=draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 4, 5, 6]), st.integers(0, 2 ** 31 - 1), st.integers(0, 2 ** 16), st.integers(0, 2 ** 16)).map(list), min_size=1, max_size=60)))


def run_heap(case, ctx, exe="base"):
    n = case["n"]
    out = bytearray(struct.pack("<BI", 4, n))
    H, prio = set(), [0] * n
    exp = []
    for op, i, j, r in case["ops"]:
        r %= case["prios"]
        inn, off = sorted(H), [x for x in range(n) if x not in H]
        want = lambda x: x == 0xfffffffe
        if op == 0 and off:
            x = off[i % len(off)]
            prio[x] = r
            out += struct.pack("<BIIi", 0, x, 0, r)
            H.add(x)
            exp.append((op, None, None, set(H), list(prio)))
        elif op == 1 or op == 5:
            out += struct.pack("<BIIi", op, 0, 0, 0)
            exp.append((op, min((prio[x] for x in H), default=None), set(H), None, list(prio)))
            if op == 1 and H:
                # which one of several is free: continue with its answer
                ans = ctx.server(exe).call(bytes(out))
                x = answer(ans, n, len(exp))[-1][0]
                if x not in H:
                    raise Violation("extracted %#x, which is not in the heap" % x)
                H.discard(x)
        elif op == 2 and H:
            x = inn[i % len(inn)]
            prio[x] = r
            out += struct.pack("<BIIi", 2, x, 0, r)
            exp.append((op, None, None, set(H), list(prio)))
        elif op == 3 and H:
            x = inn[i % len(inn)]
            out += struct.pack("<BIIi", 3, x, 0, 0)
            H.discard(x)
            exp.append((op, x, None, set(H), list(prio)))
        elif op == 4:
            x = i % n if j % 4 == 0 or not H else inn[i % len(inn)]
            c = j % 3
            if x in H:
                if c == 0:
                    y = x
                    prio[y] = r
                    res = ALL
                elif c == 1 and off:
                    y = off[j % len(off)]
                    prio[y] = r
                    H.discard(x)
                    H.add(y)
                    res = x
                else:
                    y = ALL
                    H.discard(x)
                    res = x
            else:
                y = x
                prio[y] = r
                H.add(y)
                res = ALL
            out += struct.pack("<BIIi", 4, x, y, r)
            exp.append((op, res, None, set(H), list(prio)))
        elif op == 6:
            r += 1
            out += struct.pack("<BIIi", 6, i, 0, r)
            H = {k for k in range(n) if i >> (k % 31) & 1}
            for k in H:
                prio[k] = (k * 2654435761 % 2 ** 32 >> 8) % r
            exp.append((op, None, None, set(H), list(prio)))
    if not exp:
        return
    big = 0
    for k, ((op, w, before, after, pr), (res, arr, mem, prs, ok)) in enumerate(zip(exp, answer(ctx.server(exe).call(bytes(out)), n, len(exp)))):
        where = "step %d (operation %d): " % (k, op)
        if op in (1, 5):
            if w is None:
                if res != ALL:
                    raise Violation(where + "the empty heap has a minimum")
                after = set()
            else:
                if res not in before or pr[res] != w:
                    raise Violation(where + "minimum %#x, smallest priority %d" % (res, w))
                after = before - {res} if op == 1 else before
        elif op in (3, 4) and res != w:
            raise Violation(where + "answer %#x, expected %#x" % (res, w))
        if sorted(arr) != sorted(after) or mem != [x in after for x in range(n)]:
            raise Violation(where + "the heap holds %s, expected %s (membership %s)" % (sorted(arr), sorted(after), mem))
        if prs != pr:
            raise Violation(where + "harness: priorities")
        if not ok:
            raise Violation(where + "the elements' indices do not match their places")
        if any(pr[arr[(t - 1) // 2]] > pr[arr[t]] for t in range(1, len(arr))):
            raise Violation(where + "not a heap: %s" % [pr[x] for x in arr])
        big = max(big, len(arr))
    ctx.nt(len(exp) >= 8 and big > 3)


def answer(ans, n, count):
    p, r = 0, []
    for _ in range(count):
        res, m = struct.unpack_from("<II", ans, p)
        arr = list(struct.unpack_from("<%dI" % m, ans, p + 8))
        p += 8 + 4 * m
        mem, prs = [], []
        for _ in range(n):
            mem.append(bool(ans[p]))
            prs.append(struct.unpack_from("<i", ans, p + 1)[0])
            p += 5
        r.append((res, arr, mem, prs, ans[p]))
        p += 1
    return r


# ---- rings ----

@st.composite
def rings(draw):
    n = draw(st.integers(1, 12))
    return dict(n=n, ops=draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 1]), st.integers(0, n - 1), st.integers(0, n - 1)).map(list), min_size=1, max_size=40)))


def run_ring(case, ctx, exe="base"):
    n = case["n"]
    nxt = list(range(n))
    out = bytearray(struct.pack("<BI", 5, n))
    exp = []
    for op, a, b in case["ops"]:
        out += struct.pack("<BII", op, a, b)
        if op == 1:
            b = a
        # chain: a's successor becomes b, b's old predecessor is followed by a's old successor
        y = nxt[a]
        x = nxt.index(b)
        if a != x:
            nxt[a], nxt[x] = b, y
        exp.append(list(nxt))
    ans = ctx.server(exe).call(bytes(out))
    p = 0
    for k, nx in enumerate(exp):
        for i in range(n):
            a, b, m, c, d = struct.unpack_from("<IIBII", ans, p)
            p += 17
            ring = []
            e = nx[i]
            while e != i:
                ring.append(e)
                e = nx[e]
            f = g = 0
            for e in ring:
                f = (31 * f + e) & ALL
            for e in ring[::-1]:
                g = (31 * g + e) & ALL
            if a != nx[i] or b != nx.index(i) or bool(m) != (nx[i] != i):
                raise Violation("step %d: element %d has next %d previous %d member %d; expected rings %s" % (k, i, a, b, m, nx))
            if (c, d) != (f, g):
                raise Violation("step %d: iteration from %d is wrong; expected %s" % (k, i, ring))
    ctx.nt(len(exp) >= 8)


# ---- pool ----

@st.composite
def pools(draw):
    op = st.one_of(st.tuples(st.just(0), st.sampled_from([0, 1, 1, 2, 7, 100]), st.one_of(st.integers(1, 200), st.integers(1, 9000)), st.sampled_from([0, 1, 2, 8, 16, 64])).map(list),
                   st.tuples(st.just(0), st.integers(1, 300), st.integers(1, 64), st.sampled_from([0, 1, 4, 16])).map(list),
                   st.tuples(st.sampled_from([1, 1, 2]), st.sampled_from([0, 4096]), st.just(1), st.just(0)).map(list))
    if draw(st.integers(0, 3)) == 0:
        # a block of 4096 is filled up to a few bytes (its head takes 24 or so), then aligned objects are asked for
        ops = []
        for _ in range(draw(st.integers(1, 3))):
            ops += [[0, 400, 1, 1]] * 10 + [[0, draw(st.integers(1, 90)), 1, 1]]
            ops += draw(st.lists(st.tuples(st.just(0), st.just(1), st.integers(1, 70), st.sampled_from([1, 8, 16, 32, 64, 64, 128])).map(list), min_size=1, max_size=3))
            ops += draw(st.sampled_from([[], [], [[1, 0, 1, 0]], [[2, 4096, 1, 0]]]))
        return dict(block=4096, ops=ops)
    return dict(block=draw(st.sampled_from([0, 4096, 4096, 8192])), ops=draw(st.lists(op, min_size=1, max_size=60)))


def run_pool(case, ctx, exe="base"):
    fill = any(o[1:] == [400, 1, 1] for o in case["ops"])
    for pad in range(8 if fill else 1):             # what is aligned depends on where the system puts the blocks
        ans = ctx.server(exe).call(struct.pack("<BIB", 6, case["block"], pad) + b"".join(struct.pack("<BIII", *o) for o in case["ops"]))
        judge_pool(case, ans)
    ctx.nt(len(ans) >= 8)


def judge_pool(case, ans):
    for k, r in enumerate(ans):
        if r:
            raise Violation("step %d %s: %s" % (k, case["ops"][k], ", ".join(t for b, t in [(1, "no memory given"), (2, "memory for 0 elements"), (4, "not aligned"), (8, "not zeroed"),
                                                                                     (16, "overlaps another block"), (32, "an earlier block was changed")] if r & b)))


# ---- character buffers ----

@st.composite
def strings(draw):
    return dict(ops=draw(st.lists(st.tuples(st.integers(0, 12), st.integers(0, 2), st.integers(0, 2), st.integers(0, 5000),
                                            st.text("abcXYZ 0\n\"%\\\u00e9", max_size=draw(st.sampled_from([3, 40])))).map(list), min_size=1, max_size=40)))


def run_str(case, ctx, exe="base"):
    v = [b""] * NV
    out = bytearray([7])
    exp = []
    for op, a, b, x, s in case["ops"]:
        s = s.encode()
        if op == 0:
            s = s or b"q"
        if op == 10 and not s or op == 4 and not v[a] or any(len(t) > 20000 for t in v):
            continue
        out += struct.pack("<BBBII", op, a, b, x, len(s)) + s
        res = 0
        if op == 0:
            v[a] += s[:1]
        elif op in (1, 2, 10):
            v[a] += s
        elif op == 3 and a != b:
            v[a] += v[b]
        elif op == 4:
            res = v[a][-1]
            v[a] = v[a][:-1]
        elif op in (5, 6):
            v[a] = b""
        elif op == 7:
            v[a], v[b] = v[b], v[a]
        elif op == 8:
            v[a] += b"<" + s + b"|" + (b"%d" % x).rjust(x % 90) + b"|" + bytes([65 + x % 26]) + b">"
        elif op == 9:
            v[a] += b"[%d " % x + s + (" %g]" % (x / 4)).encode()
        elif op == 11:
            res = len(v[a]) & 255
        exp.append((op, res, list(v)))
    ans = ctx.server(exe).call(bytes(out))
    p = 0
    for k, (op, res, vs) in enumerate(exp):
        if ans[p] != res:
            raise Violation("step %d (operation %d): answer %d, expected %d" % (k, op, ans[p], res))
        p += 1
        for t in range(NV):
            n = u32(ans, p)[0]
            got = bytes(ans[p + 4:p + 4 + n])
            p += 4 + n
            if got != vs[t]:
                raise Violation("step %d (operation %d): buffer %d is %r, expected %r" % (k, op, t, got[:300], vs[t][:300]))
            if not ans[p]:
                raise Violation("step %d (operation %d): buffer %d is not NUL-terminated" % (k, op, t))
            p += 1
    ctx.nt(len(exp) >= 8)


# ---- UTF-8 ----

CPS = st.one_of(st.integers(1, 0x10ffff), st.sampled_from([1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff]), st.integers(1, 0x900), st.integers(0xd700, 0x10100)
                ).filter(lambda c: not 0xd800 <= c < 0xe000)
BAD = st.sampled_from([b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc3\x28", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe2\x82", b"\xe2\x28\xa1", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xef\xbf",
                       b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf0\x9f\x98", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe", b"\xfc\x80", b"\x00", b"\xe1\x80\xc0", b"\xf1\x80\x80\xc0"])
ESC = {"\\\\": 0x5c, "\\\"": 0x22, "\\'": 0x27, "\\t": 9, "\\n": 10, "\\r": 13}


@st.composite
def texts(draw):
    mode = draw(st.integers(0, 2))
    if mode == 2:
        return dict(mode=2, cps=[[c, n] for c, n in draw(st.lists(st.tuples(st.one_of(CPS, st.integers(0, 0x110010), st.sampled_from([0xd800, 0xdfff, 0xdabc, 0x110000, 0xffffffff])), st.integers(0, 6)), min_size=1, max_size=20))])
    parts = []
    for _ in range(draw(st.integers(0, 20))):
        k = draw(st.integers(0, 9))
        if k < 6:
            parts.append(chr(draw(CPS)).encode())
        elif k == 6 and mode == 1:
            parts.append(draw(st.sampled_from(sorted(ESC))).encode())
        elif k == 7 and mode == 1:
            c = draw(st.integers(1, 0x10ffff))
            parts.append(draw(st.sampled_from([b"\\x%02x" % (c & 0x7f or 1), b"\\u%04X" % (c & 0xffff or 1), b"\\U%06x" % c])))
        else:
            parts.append(b"ab")
    r = b"".join(parts)
    if draw(st.integers(0, 2)) == 0:
        k = draw(st.integers(0, len(r)))
        r = r[:k] + draw(st.one_of(BAD, st.binary(max_size=4))) + r[k:]
    if mode == 1:
        # the lexer never leaves a lone backslash at the end
        while r.endswith(b"\\"):
            r = r[:-1]
        r = r.replace(b"\\\x00", b"")
    return dict(mode=mode, limit=draw(st.booleans()), raw=r.hex())


def run_utf8(case, ctx, exe="base"):
    if case["mode"] == 2:
        ans = ctx.server(exe).call(struct.pack("<BB", 8, 2) + b"".join(struct.pack("<II", c, n) for c, n in case["cps"]))
        p = 0
        for c, n in case["cps"]:
            ok = 0 < c <= 0x10ffff and not 0xd800 <= c < 0xe000
            if bool(ans[p]) != ok:
                raise Violation("code point %#x is said to be %s" % (c, "encodable" if ans[p] else "not encodable"))
            p += 1
            if ok:
                l = ans[p]
                got = bytes(ans[p + 1:p + 1 + l])
                p += 1 + l
                want = chr(c).encode()
                if got != (want if len(want) <= n else b""):
                    raise Violation("code point %#x encoded into %d bytes gives %r, expected %r" % (c, n, got, want))
        ctx.nt(len(case["cps"]) > 1)
        return
    raw = bytes.fromhex(case["raw"])
    ans = ctx.server(exe).call(struct.pack("<BBB", 8, case["mode"], case["limit"]) + raw)
    p = pos = 0
    k = 0
    s = raw.split(b"\0")[0]
    while True:
        # the next character, by Python's codec
        err, cp, end = False, 0, pos
        if pos < len(s):
            if case["mode"] == 1 and s[pos] == 0x5c:
                e2 = s[pos:pos + 2].decode("latin1")
                if e2 in ESC:
                    cp, end = ESC[e2], pos + 2
                elif e2[1:] in ("x", "u", "U"):
                    m = {"x": 2, "u": 4, "U": 6}[e2[1:]]
                    h = s[pos + 2:pos + 2 + m]
                    if len(h) == m and all(chr(x) in "0123456789abcdefABCDEF" for x in h):
                        cp, end = int(h, 16), pos + 2 + m
                        err = cp > (0x7f if m == 2 else 0x10ffff)
                    else:
                        err = True
                else:
                    err = True
            else:
                err = True
                for m in (1, 2, 3, 4):
                    try:
                        t = s[pos:pos + m].decode("utf-8")
                    except UnicodeDecodeError:
                        continue
                    if len(t) == 1 and pos + m <= len(s):
                        cp, end, err = ord(t), pos + m, False
                        break
        if err:
            cp, end = 0, pos
        u, at = struct.unpack_from("<II", ans, p)
        p += 8
        if (u, at) != (cp, end):
            raise Violation("text %r, at %d: decoded %#x, then at %d; expected %s" % (raw, pos, u, at, "an error there" if err else "%#x, then at %d" % (cp, end)))
        if cp == 0:
            break
        pos = end
        k += 1
    if not err and len(ans) != p + 1:
        raise Violation("the iterator's size is not kept up to date: %r" % raw)
    if bool(ans[-1]) != err:
        raise Violation("text %r: %s" % (raw, "malformed at %d, but no error" % pos if err else "error reported at %d" % pos))
    ctx.nt(k >= 2)
    ctx.label("malformed" if err else "well-formed")


def san(f):
    return lambda c, x: f(c, x, "base:san")


PARTS = [Part("vector", vecs, run_vec, quick=4000, need=("base",)), Part("vector-san", vecs, san(run_vec), quick=1000, need=("base:san",)),
         Part("heap", heaps, run_heap, quick=4000, need=("base",)), Part("ring", rings, run_ring, quick=2000, need=("base",)),
         Part("pool", pools, run_pool, quick=2000, need=("base",)), Part("pool-san", pools, san(run_pool), quick=500, need=("base:san",)),
         Part("string", strings, run_str, quick=2500, need=("base",)), Part("string-san", strings, san(run_str), quick=800, need=("base:san",)),
         Part("utf8", texts, run_utf8, quick=6000, need=("base",)), Part("utf8-san", texts, san(run_utf8), quick=1500, need=("base:san",))]
