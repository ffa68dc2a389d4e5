"""C20: integer arithmetic and the predicates built on it are exact."""
import math
import struct
from fractions import Fraction as F
import hypothesis.strategies as st
from hv.run import Part, Violation

PROP = "C20"
TECHNIQUE = "property-based testing (Hypothesis) of the arithmetic functions against Python integers and exact fractions, with generators aimed at extremes, ties and near-coincidences; operands outside the documented ranges must be refused"
NOTE = "Random search; results are compared exactly (conversions to floating point within two units in the last place)."
RULE = ("A case is a batch of up to 24 calls of the arithmetic functions (division, checked addition, subtraction, multiplication, 128 bit products, fractions, cross products, distances, "
        "segment intersection, position of a rounded point relative to an edge, conversion between coordinates and integers, minima and maxima, cuts of faces at a height) with operands "
        "drawn from small numbers, powers of two and their neighbours, full range values, and, for the geometric functions, from points on or within a unit of given lines.  "
        "Non-trivial: the batch has a call where the result is not determined by the sign or size of the operands alone: a tie, a remainder, a proper crossing, a point within one unit "
        "of the edge, an overflow, or a face that is cut.")
I31, I63 = 2 ** 31 - 1, 2 ** 63 - 1
U32, U64 = 2 ** 32 - 1, 2 ** 64 - 1
COORD = 2 ** 30 - 1


def ints(lo, hi):
    near = sorted({v for k in range(1, 65) for b in (2 ** k, -2 ** k) for v in (b - 2, b - 1, b, b + 1) if lo <= v <= hi} | {lo, lo + 1, hi - 1, hi})
    near = [v for v in near if lo <= v <= hi]
    return st.one_of(st.integers(max(lo, -9), min(hi, 9)), st.sampled_from(near), st.integers(lo, hi), st.integers(max(lo, -3000), min(hi, 3000)))


i32, i64, u32, u64 = ints(-I31, I31), ints(-I63, I63), ints(0, U32), ints(0, U64)
coord = ints(-COORD, COORD)
small = st.integers(-12, 12)


@st.composite
def point(draw):
    c = draw(st.sampled_from([coord, coord, small, st.integers(-3000, 3000)]))
    return [draw(c), draw(c)]


@st.composite
def frac(draw):
    d = draw(st.one_of(st.integers(1, 12), ints(1, U64)))
    n = min(d - 1, draw(st.one_of(st.sampled_from([0, d // 2, (d + 1) // 2, max(0, d // 2 - 1), d - 1]), st.integers(0, d - 1))))
    return [draw(st.one_of(st.integers(-2, 2), ints(-I31, I31 - 1))), n, d]


@st.composite
def frac2(draw):
    a = draw(frac())
    k = draw(st.sampled_from(["same", "scaled", "near", "any", "any"]))
    if k == "same":
        return a, list(a)
    if k == "scaled":
        m = U64 // a[2]
        f = draw(ints(1, m)) if m > 1 else 1
        return a, [a[0], a[1] * f, a[2] * f]
    if k == "near":
        d = min(U64, a[2] + draw(st.integers(0, 2)))
        n = min(d - 1, max(0, a[1] + draw(st.integers(-1, 1))))
        return a, [a[0], n, d]
    b = draw(frac())
    if draw(st.booleans()):
        b[0] = a[0]
    return a, b


def rnd(x):
    return math.floor(x + F(1, 2))


@st.composite
def near_line(draw, a, b):
    t = F(draw(st.integers(0, 64)), 64) if draw(st.booleans()) else F(draw(st.integers(0, 10 ** 9)), 10 ** 9)
    d = st.sampled_from([0, 0, 0, 1, -1, 2, -2])
    p = [rnd(a[k] + t * (b[k] - a[k])) + draw(d) for k in (0, 1)]
    return [max(-COORD, min(COORD, v)) for v in p]


@st.composite
def segments(draw):
    p1, p2 = draw(point()), draw(point())
    k = draw(st.sampled_from(["any", "any", "near", "share", "end-on", "through", "parallel"]))
    if k == "any":
        p3, p4 = draw(point()), draw(point())
    elif k == "near":
        p3, p4 = draw(near_line(p1, p2)), draw(near_line(p1, p2))
    elif k == "share":
        p3, p4 = list(draw(st.sampled_from([p1, p2]))), draw(point())
    elif k == "end-on":
        p3, p4 = draw(near_line(p1, p2)), draw(point())
    elif k == "parallel":
        o = [draw(st.integers(-2, 2)), draw(st.integers(-2, 2))]
        p3, p4 = ([max(-COORD, min(COORD, p[j] + o[j])) for j in (0, 1)] for p in (p1, p2))
    else:
        q = draw(near_line(p1, p2))
        o = draw(point())
        p3 = [max(-COORD, min(COORD, q[j] + o[j])) for j in (0, 1)]
        p4 = [max(-COORD, min(COORD, q[j] - o[j] + draw(st.integers(-1, 1)))) for j in (0, 1)]
    if draw(st.booleans()):
        p3, p4 = p4, p3
    return p1 + p2 + p3 + p4


@st.composite
def edge_point(draw):
    k, l = draw(point()), draw(point())
    if draw(st.booleans()):       # short edges: many ties
        l = [max(-COORD, min(COORD, k[j] + draw(st.integers(-9, 9)))) for j in (0, 1)]
    if k > l:
        k, l = l, k
    if k == l:
        l = [k[0], k[1] + 1] if k[1] < COORD else [k[0] + 1, k[1]]
        if l[0] > COORD:
            k, l = [0, 0], [1, 1]
    v = draw(st.one_of(near_line(k, l), near_line(k, l), near_line(k, l), point()))
    return v + l + k


@st.composite
def face(draw):
    c = draw(st.sampled_from([2 ** 28, 3000, 20, 4]))
    n = draw(st.integers(3, 8))
    z = draw(st.integers(-c, c))
    zs = st.one_of(st.integers(-c, c), st.just(z), st.sampled_from([z - 1, z + 1]))
    return [z, [[draw(st.integers(-c, c)), draw(st.integers(-c, c)), draw(zs)] for _ in range(n)]]


@st.composite
def call(draw):
    op = draw(st.sampled_from(list(range(29)) + [18, 20, 21, 21, 25, 25, 25, 25, 26, 26, 26, 26, 26, 29, 30, 30, 30, 31, 32]))
    nz32 = i32.filter(bool)
    if op == 0:
        return [op, draw(i32), draw(nz32)]
    if op == 1:
        return [op, draw(i64), draw(i64.filter(bool))]
    if op == 2:
        d = draw(nz32)
        if draw(st.integers(0, 9)) == 0:
            return [op, draw(i64), d]
        q = draw(ints(-I31 + 1, I31 - 1))
        return [op, max(-I63, min(I63, q * d + draw(st.integers(0, abs(d) - 1)))), d]
    if op == 3:
        d = draw(ints(1, I31))
        if draw(st.booleans()):
            return [op, max(-I63, min(I63, draw(i32) * d + d // 2 + draw(st.integers(-1, 1)))), d]
        return [op, draw(i64), d]
    if op in (4, 5, 6):
        return [op, draw(i32), draw(i32)]
    if op in (7, 8):
        return [op, draw(i64), draw(i64)]
    if op in (9, 10, 11):
        return [op, draw(u32), draw(u32)]
    if op in (12, 13, 16):
        return [op, draw(u64), draw(u64)]
    if op == 14:
        return [op, draw(i32)]
    if op == 15:
        return [op, draw(i64)]
    if op == 17:
        a = [draw(u64), draw(u64)]
        return [op] + a + (a if draw(st.integers(0, 4)) == 0 else [draw(st.sampled_from([a[0], draw(u64)])), draw(st.sampled_from([a[1], draw(u64)]))])
    if op == 18:
        p = draw(st.sampled_from([point(), st.lists(i32, min_size=2, max_size=2)]))
        return [op] + draw(p) + draw(p) + draw(p)
    if op == 19:
        p = draw(st.sampled_from([point(), st.lists(i32, min_size=2, max_size=2)]))
        a = draw(p)
        return [op] + a + (a if draw(st.integers(0, 3)) == 0 else draw(p))
    if op == 20:
        return [op] + draw(frac())
    if op == 21:
        a, b = draw(frac2())
        return [op] + a + b
    if op == 22:
        f = draw(frac())
        return [op, draw(st.sampled_from([f[0], min(I31, f[0] + 1), max(-I31, f[0] - 1), draw(i32)]))] + f
    if op == 23:
        a, b = draw(frac2())
        c, d = draw(frac2())
        return [op] + a + c + b + d
    if op == 24:
        x, y = draw(frac()), draw(frac())
        if draw(st.booleans()):
            x[1] = 0
        return [op] + [draw(st.sampled_from([f[0], min(I31, f[0] + 1), draw(i32)])) for f in (x, y)] + x + y
    if op == 25:
        return [op] + draw(segments())
    if op == 26:
        return [op] + draw(edge_point())
    if op in (27, 28):
        s = float(draw(st.sampled_from([1, 2, 64, 8192, 8192, 8192, 2 ** 20, 2 ** 24, 1000, 0.5])))
        if op == 28:
            return [op, s, draw(i32)]
        v = draw(st.one_of(st.floats(-1e6, 1e6), i32.map(lambda i: i / s), i32.map(lambda i: (i + 0.5) / s), st.sampled_from([1e300, -1e300, float("inf"), float("-inf"), float("nan"), 2.0 ** 31 / s, -2.0 ** 31 / s])))
        return [op, s, v]
    if op == 29:
        return [op, draw(st.lists(point(), max_size=7))]
    if op == 30:
        return [op] + draw(face())
    if op == 31:
        return [op, draw(i32), draw(i32), draw(ints(0, I63)), draw(ints(0, I63)), draw(st.floats(-1e9, 1e9)), draw(st.floats(-1e9, 1e9))]
    n = draw(ints(1, 10 ** 9))
    return [32, draw(st.sampled_from([0, n - 1, n // 2])), n]


def sgn(x):
    return (x > 0) - (x < 0)


class Ovf(Exception):
    pass


def fit(v, b):
    if not -b - 1 <= v <= b:
        raise Ovf()
    return v


def fitu(v, b):
    if not 0 <= v <= b:
        raise Ovf()
    return v


def edivmod(x, d):
    m = x % abs(d)
    return (x - m) // d, m


def cross3(ax, ay, ox, oy, bx, by):
    ax, ay, bx, by = fit(ax - ox, I31), fit(ay - oy, I31), fit(bx - ox, I31), fit(by - oy, I31)
    return fit(ax * by - ay * bx, I63)


def edge_rnd(v, l, k):
    """The position of the unit square [-1/2,1/2)^2 around v relative to the segment k-l, k before l."""
    bb = (v[0] - l[0]) * (k[1] - l[1]) - (v[1] - l[1]) * (k[0] - l[0])
    dx, dy = k[0] - l[0], k[1] - l[1]
    for j in (0, 1):
        if v[j] < min(l[j], k[j]):
            return sgn(bb) or -1
        if v[j] > max(l[j], k[j]):
            return sgn(bb) or 1
    f = {(sx, sy): 2 * bb + sx * dy - sy * dx for sx in (-1, 1) for sy in (-1, 1)}
    lo, hi = min(f.values()), max(f.values())

    def zero_included():
        # corners at which f is zero; a zero on an edge of the square touches two corners
        z = [c for c in f if f[c] == 0]
        if (-1, -1) in z:
            return True
        if len(z) == 2 and all(c[0] == -1 for c in z):
            return True          # the left edge, included
        if len(z) == 2 and all(c[1] == -1 for c in z):
            return True          # the lower edge, included
        return False
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if lo < 0 < hi:
        return 0
    if zero_included():
        return 0
    return 1 if lo == 0 else -1


def fr(t):
    return t[0] + F(t[1], t[2])


def expect(c):
    """(bytes of the arguments, format of the answer, check function of the answer, interesting)"""
    op, a = c[0], c[1:]
    P = struct.pack
    if op in (0, 1, 2):
        q, m = edivmod(a[0], a[1])
        if op == 2:
            fit(q, I31)
        f = {0: "ii", 1: "qq", 2: "qi"}[op]
        return P("<" + f, *a), "qqqq" if op == 1 else "iiii", (q, m, q, m), m != 0
    if op == 3:
        return P("<qq", *a), "q", (rnd(F(a[0], a[1])),), a[0] % a[1] != 0
    if op in (4, 5, 6):
        r = {4: a[0] + a[1], 5: a[0] - a[1], 6: a[0] * a[1]}[op]
        return P("<ii", *a), "q" if op == 6 else "i", (fit(r, I63 if op == 6 else I31),), False
    if op in (7, 8):
        return P("<qq", *a), "q", (fit(a[0] + a[1] if op == 7 else a[0] - a[1], I63),), False
    if op in (9, 10, 11):
        r = {9: a[0] + a[1], 10: a[0] - a[1], 11: a[0] * a[1]}[op]
        return P("<II", *a), "Q" if op == 11 else "I", (fitu(r, U64 if op == 11 else U32),), False
    if op in (12, 13):
        return P("<QQ", *a), "Q", (fitu(a[0] + a[1] if op == 12 else a[0] - a[1], U64),), False
    if op == 14:
        return P("<i", *a), "iI", (-a[0], abs(a[0])), False
    if op == 15:
        return P("<q", *a), "qQ", (-a[0], abs(a[0])), False
    if op == 16:
        x = a[0] * a[1]
        return P("<QQ", *a), "QQQQ", (x >> 64, x & U64) * 2, x > U64
    if op == 17:
        x, y = a[0] << 64 | a[1], a[2] << 64 | a[3]
        return P("<4Q", *a), "iiQQ", (sgn(x - y), int(x == y), a[0], a[1]), a[0] == a[2]
    if op == 18:
        return P("<6i", *a), "q", (cross3(*a),), False
    if op == 19:
        dx, dy = fit(a[0] - a[2], I31), fit(a[1] - a[3], I31)
        r = fit(dx * dx + dy * dy, I63)
        return P("<4i", *a), "qqqi", (r, r, fit(a[0] ** 2 + a[1] ** 2, I63), int(dx == dy == 0)), False
    if op == 20:
        x = fr(a)
        return P("<iQQ", *a), "id", lambda g: g[0] == rnd(x) and abs(F(g[1]) - x) <= max(1, abs(x)) / 2 ** 51, a[1] * 2 in (a[2], a[2] - 1, a[2] + 1)
    if op == 21:
        x, y = fr(a[:3]), fr(a[3:])
        fx, fy = F(a[1], a[2]), F(a[4], a[5])
        return P("<iQQiQQ", *a), "iiii", (sgn(x - y), int(x == y), sgn(fx - fy), sgn(fx - fy)), a[0] == a[3]
    if op == 22:
        return P("<iiQQ", *a), "i", (sgn(a[0] - fr(a[1:])),), abs(a[0] - a[1]) < 2
    if op == 23:
        x, y, u, v = fr(a[:3]), fr(a[3:6]), fr(a[6:9]), fr(a[9:])
        return P("<" + "iQQ" * 4, *a), "ii", (sgn(x - u) or sgn(y - v), int((x, y) == (u, v))), x == u
    if op == 24:
        x, y = fr(a[2:5]), fr(a[5:])
        r = sgn(a[0] - x) or sgn(a[1] - y)
        return P("<ii" + "iQQ" * 2, *a), "ii", (r, r), a[0] == x
    if op == 25:
        p1, p2, p3, p4 = ([a[2 * i], a[2 * i + 1]] for i in range(4))
        x21, y21, x43, y43, x31, y31 = p2[0] - p1[0], p2[1] - p1[1], p4[0] - p3[0], p4[1] - p3[1], p3[0] - p1[0], p3[1] - p1[1]
        d = x21 * y43 - y21 * x43
        if d == 0:
            want, pt = -1, None
        else:
            t, u = F(x31 * y43 - y31 * x43, d), F(x31 * y21 - y31 * x21, d)
            if not (0 <= t <= 1 and 0 <= u <= 1):
                want, pt = 0, None
            else:
                want = 1 | (t == 0) * 2 | (t == 1) * 4 | (u == 0) * 8 | (u == 1) * 16
                pt = (p1[0] + t * x21, p1[1] + t * y21)

        def ok(g):
            if g[0] != want or g[7] != want:
                return False
            if pt is not None:
                for k in (0, 1):
                    i, n, dd = g[1 + 3 * k:4 + 3 * k]
                    if dd == 0 or n >= dd or i + F(n, dd) != pt[k]:
                        return False
            return True
        ok.want = (want, pt)
        return P("<8i", *a), "iiQQiQQi", ok, want > 0
    if op == 26:
        v, l, k = a[0:2], a[2:4], a[4:6]
        w = edge_rnd(v, l, k)
        bb = (v[0] - l[0]) * (k[1] - l[1]) - (v[1] - l[1]) * (k[0] - l[0])
        return P("<6i", *a), "ii", (w, w), abs(bb) <= 2 * (abs(k[0] - l[0]) + abs(k[1] - l[1]))
    if op == 27:
        s, v = a
        if not math.isfinite(v):
            raise Ovf()
        x = F(v) * F(s)
        if abs(x) >= I31 + 1:
            raise Ovf()
        if abs(x) > I31 - 1:
            return None       # at the limit: either
        return P("<dd", s, v), "i", lambda g: abs(g[0] - x) <= F(500002, 10 ** 6) + abs(x) / 2 ** 50 and (g[0] >= x - F(1, 2) or abs(g[0] + F(1, 2) - x) < F(1, 10 ** 5)), (x * 2).denominator == 1
    if op == 28:
        s, v = a
        return P("<di", s, v), "diii", lambda g: abs(F(g[0]) * F(s) - v) <= F(abs(v), 2 ** 52) and g[1:] == (v, v, -v), False
    if op == 29:
        ps = a[0]
        xs, ys = [p[0] for p in ps] or [I31], [p[1] for p in ps] or [I31]
        m = (min(xs), min(ys), max(xs), max(ys)) if ps else (I31, I31, -I31 - 1, -I31 - 1)
        return P("<I%di" % (2 * len(ps)), len(ps), *[v for p in ps for v in p]), "iiii" + ("BB" if len(ps) % 2 == 0 else ""), m + ((1, 1) if len(ps) % 2 == 0 else ()), len(ps) > 2
    if op == 31:
        x, y, u, v, e, f = a
        return P("<iiQQdd", *a), "qqQQddd", (min(x, y), max(x, y), min(u, v), max(u, v), min(e, f), max(e, f), max(0, e - f)), x < 0 or y < 0
    if op == 32:
        i, n = a
        return P("<QQ", i, n), "QQ", ((i + 1) % n, (i - 1) % n), i in (0, n - 1)
    raise KeyError(op)


def slice_msg(c):
    z, ps = c[1], c[2]
    return struct.pack("<dII", z / 8192, 1, len(ps)) + b"".join(struct.pack("<3d", *[v / 8192 for v in p]) for p in ps)


def slice_check(c, lines):
    z, ps = c[1], c[2]
    odd = set()
    for i, p in enumerate(ps):
        q = ps[(i + 1) % len(ps)]
        if p[2] > q[2]:
            p, q = q, p
        if p[2] <= z < q[2]:
            odd ^= {tuple(rnd(F(p[k] * (q[2] - z) + q[k] * (z - p[2]), q[2] - p[2])) for k in (0, 1))}
    got = set()
    for l in lines:
        if l[:2] == l[2:]:
            return "a line of length zero", 0
        got ^= {tuple(l[:2]), tuple(l[2:])}
    if got != odd:
        return "cut points %s, expected %s" % (sorted(got), sorted(odd)), 0
    return None, len(odd)


def run(case, ctx, exe="arith"):
    msg, plan = b"", []
    nt = 0
    for c in case:
        if c[0] == 30:
            msg += b"\x1e" + slice_msg(c)
            plan.append((c, "slice", None))
            continue
        try:
            e = expect(c)
        except Ovf:
            f = {0: "ii", 2: "qi", 18: "6i", 19: "4i", 27: "dd"}.get(c[0]) or {4: "ii", 5: "ii", 6: "ii", 7: "qq", 8: "qq", 9: "II", 10: "II", 11: "II", 12: "QQ", 13: "QQ"}[c[0]]
            b = struct.pack("<" + f, *c[1:])
            msg += b"\xff" + bytes([c[0]]) + struct.pack("<I", len(b)) + b
            plan.append((c, "fail", None))
            nt += 1
            continue
        if e is None:
            continue
        msg += bytes([c[0]]) + e[0]
        plan.append((c, e[1], e[2]))
        nt += bool(e[3])
    ans = ctx.server(exe).call(msg)
    p = 0
    for c, f, want in plan:
        if f == "slice":
            (n,) = struct.unpack_from("<I", ans, p)
            p += 4
            lines = [struct.unpack_from("<4i", ans, p + 16 * i) for i in range(n)]
            p += 16 * n
            bad, cut = slice_check(c, lines)
            if bad:
                raise Violation("face %s cut at %d: %s" % (c[2], c[1], bad))
            nt += cut > 0
            continue
        if f == "fail":
            if ans[p] != 1:
                raise Violation("operation %d of %s overflows, but does not fail" % (c[0], c[1:]))
            p += 1
            continue
        got = struct.unpack_from("<" + f, ans, p)
        p += struct.calcsize("<" + f)
        if callable(want):
            if not want(got):
                raise Violation("operation %d of %s gives %s%s" % (c[0], c[1:], got, ", expected %s" % (want.want,) if hasattr(want, "want") else ""))
        elif got != tuple(want):
            raise Violation("operation %d of %s gives %s, expected %s" % (c[0], c[1:], got, want))
    if p != len(ans):
        raise Violation("answer too long")
    ctx.nt(nt > 0)
    ctx.label(*sorted({"op-%d" % c[0] for c in case}))


def san(case, ctx):
    run(case, ctx, "arith:san")


def batches():
    return st.lists(call(), min_size=1, max_size=24)


PARTS = [Part("calls", batches, run, quick=6000, need=("arith",)),
         Part("edge", lambda: st.lists(st.one_of(edge_point().map(lambda e: [26] + e), segments().map(lambda s: [25] + s)), min_size=8, max_size=40), run, quick=4000, need=("arith",)),
         Part("slice", lambda: st.lists(face().map(lambda s: [30] + s), min_size=4, max_size=20), run, quick=2500, need=("arith",)),
         Part("calls-san", batches, san, quick=800, need=("arith:san",))]
