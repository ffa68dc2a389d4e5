"""Cases, calls and oracles for the 2D engine (shim/sweep.c)."""
import math
import struct
import numpy as np
import hypothesis.strategies as st
from . import geom
from .run import Violation


# ------------------------------------------------------------- generation

@st.composite
def _oct_path(draw, n, r):
    """A closed chain with axis-parallel and 45 degree edges at even coordinates."""
    x, y = 2 * draw(st.integers(-r, r)), 2 * draw(st.integers(-r, r))
    pts = [[x, y]]
    for _ in range(n):
        d = draw(st.integers(0, 7))
        l = 2 * draw(st.integers(1, r))
        dx, dy = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)][d]
        x, y = x + dx * l, y + dy * l
        pts.append([x, y])
    # close: diagonal first, then straight
    x0, y0 = pts[0]
    dx, dy = x0 - x, y0 - y
    m = min(abs(dx), abs(dy))
    if m:
        x, y = x + (m if dx > 0 else -m), y + (m if dy > 0 else -m)
        if [x, y] != pts[0]:
            pts.append([x, y])
    if pts[-1] == pts[0] and len(pts) > 1:
        pts.pop()
    return pts


@st.composite
def _rect(draw, r):
    x, y = 2 * draw(st.integers(-r, r)), 2 * draw(st.integers(-r, r))
    w, h = 2 * draw(st.integers(1, r)), 2 * draw(st.integers(1, r))
    return [[x, y], [x, y + h], [x + w, y + h], [x + w, y]]


@st.composite
def _free_path(draw, lo, hi, pool, maxn=8):
    n = draw(st.integers(3, maxn))
    out = []
    for _ in range(n):
        if pool and draw(st.integers(0, 3)) == 0:
            out.append(draw(st.sampled_from(pool)))      # coincident vertices
        else:
            out.append([draw(st.integers(lo, hi)), draw(st.integers(lo, hi))])
    pool.extend(out)
    return out


RANGES = {"tiny": 4, "small": 30, "mid": 2000, "large": 1 << 20, "huge": 1 << 29}


@st.composite
def stage(draw, cls, nm, first):
    ng = draw(st.integers(1, 4))
    pool, groups = [], []
    for g in range(ng):
        if cls == "exact":
            r = draw(st.sampled_from([2, 4, 6]))
            path = draw(st.one_of(_oct_path(draw(st.integers(2, 6)), r), _rect(r)))
        else:
            R = RANGES[cls]
            path = draw(_free_path(-R, R, pool))
        member = 1 << draw(st.integers(0, nm - 1)) if draw(st.integers(0, 9)) else draw(st.integers(1, (1 << nm) - 1))
        if groups and draw(st.integers(0, 7)) == 0:
            path = list(groups[-1][1])                   # the same outline once more
            if draw(st.booleans()):
                path = path[::-1]
        groups.append([member, path])
    comb = draw(st.one_of(
        st.sampled_from(["or", "xor", "and", "a-b"]),
        st.integers(0, (1 << ((1 << nm) - 1)) - 1).map(lambda i: i * 2)))
    return dict(groups=groups, via=draw(st.integers(0, 2)), comb=comb, bits=nm)


@st.composite
def pencil(draw):
    """Up to 80 bow ties, i.e., up to 160 edges through one point at half coordinates, and perhaps other outlines."""
    k = draw(st.one_of(st.integers(1, 8), st.integers(1, 80)))
    R = draw(st.sampled_from([50, 3000, 1 << 20, 1 << 29]))
    two = draw(st.booleans())
    cx, cy = (draw(st.integers(-R, R)), draw(st.integers(-R, R))) if R < (1 << 29) else (0, 0)
    o = draw(st.integers(0, 99)) / 100
    pts = []
    for j in range(2 * k):
        w = math.pi * (j + o) / (2 * k)
        q = [round(R * .999 * math.cos(w)), round(R * .999 * math.sin(w))]
        if not pts or pts[-1] != q:
            pts.append(q)
    groups = []
    for i in range(0, len(pts) - 1, 2):
        (a, b), (c, d) = pts[i:i + 2]
        groups.append([1 + (two and i % 4 // 2), [[cx + a, cy + b], [cx + 1 - a, cy + 1 - b], [cx + 1 - c, cy + 1 - d], [cx + c, cy + d]]])
    s = draw(stage("small" if R < 3000 else "mid", 2, True))
    s["groups"] = groups + (s["groups"][:1] if draw(st.booleans()) else [])
    s["comb"] = draw(st.sampled_from(["or", "xor", "and", "a-b"]))
    return dict(cls="pencil", stages=[s])


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(["exact"] * 6 + ["tiny", "small", "small", "mid", "large", "huge"] * 2 + ["pencil"]))
    if cls == "pencil":
        return draw(pencil())
    ns = draw(st.sampled_from([1, 1, 1, 2]))
    sts = []
    for i in range(ns):
        s = draw(stage(cls, draw(st.integers(1, 4)), i == 0))
        if i:
            s["prev"] = 1 << draw(st.integers(0, s["bits"] - 1))
        sts.append(s)
    return dict(cls=cls, stages=sts)


def table(comb, bits):
    n = 1 << bits
    if comb == "or":
        return [i != 0 for i in range(n)]
    if comb == "xor":
        return [bin(i).count("1") % 2 == 1 for i in range(n)]
    if comb == "and":
        return [i == n - 1 for i in range(n)]
    if comb == "a-b":
        return [i == 1 for i in range(n)]
    return [bool(comb >> i & 1) for i in range(n)]


# ------------------------------------------------------------------ calls

def request(case, want):
    b = [struct.pack("<BB", want, len(case["stages"]))]
    for k, s in enumerate(case["stages"]):
        b.append(struct.pack("<BI", s["via"], len(s["groups"])))
        for m, path in s["groups"]:
            q = path[1:] + path[:1]
            b.append(struct.pack("<II", m, len(path)))
            for u, v in zip(path, q):
                b.append(struct.pack("<iiii", u[0], u[1], v[0], v[1]))
        if k:
            b.append(struct.pack("<I", s["prev"]))
        t = table(s["comb"], s["bits"])
        bm = bytearray(128)
        for i, v in enumerate(t):
            if v:
                bm[i >> 3] |= 1 << (i & 7)
        b.append(struct.pack("<I", s["bits"]) + bytes(bm))
    return b"".join(b)


class Answer:
    pass


def parse(d, want):
    p = [0]

    def get(f):
        r = struct.unpack_from("<" + f, d, p[0])
        p[0] += struct.calcsize("<" + f)
        return r

    def poly():
        n, = get("I")
        pts = np.array(get("%dd" % (2 * n)), float).reshape(-1, 2)
        paths = []
        for _ in range(get("I")[0]):
            k, = get("I")
            paths.append(list(get("%dI" % k)))
        n, = get("I")
        tri = np.array(get("%dI" % (4 * n)), dtype=np.int64).reshape(-1, 4)
        return pts, paths, tri
    a = Answer()
    a.empty, a.cross = get("BB")
    n, = get("I")
    a.edges = np.array(get("%di" % (4 * n)), dtype=np.int64).reshape(-1, 4)
    r = {}
    for k in ("t", "p") if want & 4 else ("p", "t"):
        ok, = get("B")
        r[k] = (ok,) + poly()
    a.poly, a.tri = r["p"], r["t"]
    return a


def call(ctx, case, want, server="sweep"):
    return parse(ctx.server(server).call(request(case, want)), want)


# ---------------------------------------------------------------- oracles

def in_edges(s, bit):
    out = []
    for m, path in s["groups"]:
        if m >> bit & 1:
            p = np.array(path, float)
            out.append(np.hstack([p, np.roll(p, -1, axis=0)]))
    return np.vstack(out) if out else np.zeros((0, 4))


def expected(case, P):
    prev = None
    for k, s in enumerate(case["stages"]):
        idx = np.zeros(len(P), int)
        for b in range(s["bits"]):
            idx |= geom.parity(in_edges(s, b), P).astype(int) << b
        if k:
            idx ^= np.where(prev, s["prev"], 0)
        prev = np.array(table(s["comb"], s["bits"]))[idx]
    return prev


def all_edges(case):
    out = []
    for s in case["stages"]:
        for m, path in s["groups"]:
            p = np.array(path, float)
            out.append(np.hstack([p, np.roll(p, -1, axis=0)]))
    return np.vstack(out)


def sample(case, rng, tol):
    e = all_edges(case)
    lo, hi = e.reshape(-1, 2).min(axis=0), e.reshape(-1, 2).max(axis=0)
    w = np.maximum(hi - lo, 4)
    P = [rng.uniform(lo - .05 * w, hi + .05 * w, (120, 2))]
    m = 120
    k = rng.integers(0, len(e), m)
    d = e[k, 2:] - e[k, :2]
    l = np.maximum(np.linalg.norm(d, axis=1, keepdims=True), 1e-9)
    nrm = np.column_stack([-d[:, 1], d[:, 0]]) / l
    q = e[k, :2] + d * rng.uniform(0, 1, (m, 1))
    off = max(tol, .1) * rng.choice([1.05, 1.5, 4], (m, 1))
    return np.vstack(P + [q + nrm * off, q - nrm * off])


def check_edges(a):
    """No zero edges, no crossing, overlap or repetition; even degree everywhere."""
    e = a.edges
    n = len(e)
    if a.cross:
        raise Violation("cq_has_intersect finds a crossing in the result")
    if n == 0:
        return
    if ((e[:, :2] == e[:, 2:]).all(axis=1)).any():
        raise Violation("result contains an edge of length 0")
    deg = {}
    for x1, y1, x2, y2 in e.tolist():
        deg[x1, y1] = deg.get((x1, y1), 0) + 1
        deg[x2, y2] = deg.get((x2, y2), 0) + 1
    for k, v in deg.items():
        if v & 1:
            raise Violation("vertex %r of the result has odd degree %d" % (k, v))
    if n > 700:
        return
    i, j = np.triu_indices(n, 1)
    A, B = e[i], e[j]
    # bounding boxes must overlap
    def rng_ov(k):
        return (np.minimum(A[:, k], A[:, k + 2]) <= np.maximum(B[:, k], B[:, k + 2])) & \
               (np.minimum(B[:, k], B[:, k + 2]) <= np.maximum(A[:, k], A[:, k + 2]))
    ov = rng_ov(0) & rng_ov(1)
    A, B = A[ov], B[ov]

    def orient(p, q, r):
        return (q[:, 0] - p[:, 0]) * (r[:, 1] - p[:, 1]) - (q[:, 1] - p[:, 1]) * (r[:, 0] - p[:, 0])
    a1, a2, b1, b2 = A[:, :2], A[:, 2:], B[:, :2], B[:, 2:]
    o1, o2 = np.sign(orient(a1, a2, b1)), np.sign(orient(a1, a2, b2))
    o3, o4 = np.sign(orient(b1, b2, a1)), np.sign(orient(b1, b2, a2))

    def msg(w, k):
        raise Violation("result edges %s: %r and %r" % (w, A[k].tolist(), B[k].tolist()))
    c = (o1 * o2 < 0) & (o3 * o4 < 0)
    if c.any():
        msg("cross", int(np.argmax(c)))

    def on(p1, p2, q, o):       # q in the open segment
        d = (q[:, 0] - p1[:, 0]) * (q[:, 0] - p2[:, 0]) + (q[:, 1] - p1[:, 1]) * (q[:, 1] - p2[:, 1])
        return (o == 0) & (d < 0)
    c = on(a1, a2, b1, o1) | on(a1, a2, b2, o2) | on(b1, b2, a1, o3) | on(b1, b2, a2, o4)
    if c.any():
        msg("touch inside an edge or overlap", int(np.argmax(c)))
    c = ((a1 == b1).all(axis=1) & (a2 == b2).all(axis=1)) | ((a1 == b2).all(axis=1) & (a2 == b1).all(axis=1))
    if c.any():
        msg("are equal", int(np.argmax(c)))


def edge_keys(e):
    out = []
    for x1, y1, x2, y2 in e:
        u, v = (int(x1), int(y1)), (int(x2), int(y2))
        out.append((min(u, v), max(u, v)))
    return out


def beside(segs):
    """Points closely left of all directed edges and right of them."""
    d = segs[:, 2:] - segs[:, :2]
    l = np.linalg.norm(d, axis=1, keepdims=True)
    nrm = np.column_stack([-d[:, 1], d[:, 0]]) / l
    mid = (segs[:, :2] + segs[:, 2:]) / 2
    return mid, nrm


def int_points(pts, what):
    r = np.rint(pts)
    if len(pts) and (np.abs(r - pts) > 1e-6).any():
        raise Violation("%s: a vertex is not on the grid" % what)
    return r.astype(np.int64)


def check_paths(a):
    ok, pts, paths, tri = a.poly
    if not ok:
        raise Violation("path construction reports an error for a closed arrangement")
    pts = int_points(pts, "paths")
    seen = []
    segs = []
    for p in paths:
        if len(p) < 3:
            raise Violation("a path has only %d vertices" % len(p))
        if max(p) >= len(pts):
            raise Violation("path index out of range")
        v = [tuple(pts[i].tolist()) for i in p]
        if len(set(v)) != len(v):
            raise Violation("a path visits a vertex twice: %r" % v)
        s = np.hstack([pts[p], np.roll(pts[p], -1, axis=0)])
        ar = sum(int(q[0]) * int(q[3]) - int(q[2]) * int(q[1]) for q in s)
        if ar == 0:
            raise Violation("a path has no area: %r" % v)
        segs.append(s)
        seen += edge_keys(s)
    want = sorted(edge_keys(a.edges))
    if sorted(seen) != want:
        raise Violation("path edges and result edges differ: only in paths %r, only in edges %r, or multiplicity"
                        % (sorted(set(seen) - set(want))[:4], sorted(set(want) - set(seen))[:4]))
    return np.vstack(segs) if segs else np.zeros((0, 4), dtype=np.int64)


def exact_winding(segs, k, side):
    """Winding number just left (side=1) or right (-1) of the middle of edge k, exactly (doubled
    coordinates, vertical or horizontal ray cast from the edge's midpoint with symbolic offset)."""
    s = segs.astype(object) * 2
    x1, y1, x2, y2 = s[k]
    mx, my = (x1 + x2) // 2, (y1 + y2) // 2
    w = 0
    # horizontal ray to +x at height my (+eps if the edge is horizontal, moved to the side)
    dx, dy = x2 - x1, y2 - y1
    # offset direction: left normal (-dy, dx) * side, infinitesimal
    ox, oy = -dy * side, dx * side
    for i in range(len(s)):
        a1, b1, a2, b2 = s[i]

        def above(b):           # is vertex height above the ray height my + eps*oy (or ray moved if oy==0)
            if b != my:
                return b > my
            return oy < 0 if oy else False
        u, v = above(b1), above(b2)
        if u == v:
            continue
        # crossing x at height my (+eps): compare with mx (+eps ox)
        # sign of (x_cross - px): with exact arithmetic at eps=0
        num = (a2 - a1) * (my - b1) - (mx - a1) * (b2 - b1)   # (xc - mx)*(b2-b1)
        sg = num if (b2 - b1) > 0 else -num
        if i == k:
            # the ray starts beside this edge
            right = ox < 0 if ox else None
            hit = bool(right)
        else:
            hit = sg > 0
        if hit:
            w += 1 if v else -1
    return w


def check_sides(segs, what, want_right=True):
    """Every directed edge has the region (winding -1) on its right and nothing (0) on its left."""
    n = len(segs)
    if n == 0:
        return
    f = segs.astype(float)
    mid, nrm = beside(f)
    big = np.abs(f).max() > 1 << 22
    eps = 1e-3 if not big else 0.02
    # edges on a small grid are at least ~1/len apart; use the exact routine where floats are doubtful
    for side, want in ((1, 0), (-1, -1)):
        w = geom.winding(f, mid + nrm * eps * side)
        bad = np.nonzero(w != want)[0]
        for k in bad[:6]:
            x = exact_winding(segs, int(k), side)
            if x != want:
                raise Violation("%s: winding number %d %s edge %r, expected %d"
                                % (what, x, "left of" if side > 0 else "right of", segs[k].tolist(), want))


def check_tris(a):
    ok, pts, paths, tri = a.tri
    if not ok:
        raise Violation("triangulation reports an error for a closed arrangement")
    pts = int_points(pts, "triangulation")
    if len(tri) == 0:
        if len(a.edges):
            raise Violation("no triangles for a region with %d edges" % len(a.edges))
        return np.zeros((0, 4), dtype=np.int64)
    if tri[:, :3].max() >= len(pts):
        raise Violation("triangle index out of range")
    T = pts[tri[:, :3]]
    ar = (T[:, 1, 0] - T[:, 0, 0]) * (T[:, 2, 1] - T[:, 0, 1]) - (T[:, 1, 1] - T[:, 0, 1]) * (T[:, 2, 0] - T[:, 0, 0])
    if (ar == 0).any():
        raise Violation("degenerate triangle %r" % T[int(np.argmax(ar == 0))].tolist())
    if (ar > 0).any():
        raise Violation("counter-clockwise triangle %r" % T[int(np.argmax(ar > 0))].tolist())
    vs = set(map(tuple, a.edges[:, :2].tolist())) | set(map(tuple, a.edges[:, 2:].tolist()))
    directed = {}
    flagged, segs = [], []
    for t, f in zip(T.tolist(), tri[:, 3].tolist()):
        for k in range(3):
            u, v = tuple(t[k]), tuple(t[(k + 1) % 3])
            if u not in vs:
                raise Violation("triangle vertex %r is not a vertex of the outline" % (u,))
            if (u, v) in directed:
                raise Violation("two triangles have the same directed side %r" % ((u, v),))
            directed[u, v] = bool(f >> k & 1)
    for (u, v), f in directed.items():
        if f:
            if (v, u) in directed:
                raise Violation("outline side %r is shared by two triangles" % ((u, v),))
            flagged.append((min(u, v), max(u, v)))
            segs.append(u + v)
        elif (v, u) not in directed:
            raise Violation("inner side %r has no partner" % ((u, v),))
        elif directed[v, u]:
            raise Violation("side %r is outline in one direction only" % ((u, v),))
    want = sorted(edge_keys(a.edges))
    if sorted(flagged) != want:
        raise Violation("outline sides differ from the result's edges: extra %r, missing %r"
                        % (sorted(set(flagged) - set(want))[:4], sorted(set(want) - set(flagged))[:4]))
    return np.array(segs, dtype=np.int64).reshape(-1, 4)
