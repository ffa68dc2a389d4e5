"""Strategies for closed oriented 2-manifold polyhedra: {"points", "faces"}, faces clockwise from outside."""
import math, random
import hypothesis.strategies as st


def tris(poly):
    """Fan triangles (as printed in the list) of faces; fine for section lines as even-odd sets."""
    P, out = poly["points"], []
    for f in poly["faces"]:
        for i in range(1, len(f) - 1):
            out.append([P[f[0]], P[f[i]], P[f[i + 1]]])
    return out


# ---------------------------------------------------------------- voxels
DIRS = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def _fix(cells, nx, ny, nz):
    """Fills cells until no edge or vertex is touched diagonally (the surface is a 2-manifold)."""
    cells = set(cells)
    while True:
        bad = None
        for x in range(-1, nx):
            for y in range(-1, ny):
                for z in range(-1, nz):
                    q = [(x + a, y + b, z + c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
                    for grp in (q,):
                        # both the full and the empty cells around a vertex must be face-connected
                        for want in (True, False):
                            s = [c for c in grp if (c in cells) == want]
                            if not s:
                                continue
                            seen, todo = {s[0]}, [s[0]]
                            while todo:
                                u = todo.pop()
                                for v in s:
                                    if v not in seen and sum(abs(u[i] - v[i]) for i in range(3)) == 1:
                                        seen.add(v)
                                        todo.append(v)
                            if len(seen) < len(s):
                                bad = grp
                                break
                        if bad:
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad:
                break
        if not bad:
            return cells
        for c in bad:
            if c not in cells and 0 <= c[0] < nx and 0 <= c[1] < ny and 0 <= c[2] < nz:
                cells.add(c)
                break
        else:
            raise AssertionError


def voxel_surface(cells, merge):
    """Polyhedron of a cell set.  merge: coplanar unit squares joined into polygons where that is simple."""
    idx, pts = {}, []

    def v(p):
        if p not in idx:
            idx[p] = len(pts)
            pts.append(list(p))
        return idx[p]
    squares = {}
    for c in sorted(cells):
        for d in DIRS:
            n = tuple(c[i] + d[i] for i in range(3))
            if n in cells:
                continue
            ax = [i for i in range(3) if d[i]][0]
            u, w = [(1, 2), (2, 0), (0, 1)][ax]
            base = [c[0], c[1], c[2]]
            if d[ax] > 0:
                base[ax] += 1
            q = []
            for a, b in ((0, 0), (1, 0), (1, 1), (0, 1)):
                p = list(base)
                p[u] += a
                p[w] += b
                q.append(tuple(p))
            if d[ax] > 0:
                q.reverse()                     # clockwise from outside
            squares.setdefault((ax, d[ax], base[ax]), []).append(q)
    faces = []
    for key in sorted(squares):
        qs = squares[key]
        if not merge:
            faces += [[v(p) for p in q] for q in qs]
            continue
        owner = {}
        for i, q in enumerate(qs):
            for k in range(4):
                owner[(q[k], q[(k + 1) % 4])] = i
        comp, left = [], set(range(len(qs)))
        while left:
            s = min(left)
            left.discard(s)
            c, todo = [s], [s]
            while todo:
                q = qs[todo.pop()]
                for k in range(4):
                    o = owner.get((q[(k + 1) % 4], q[k]))
                    if o in left:
                        left.discard(o)
                        c.append(o)
                        todo.append(o)
            comp.append(c)
        for c in comp:
            es = {}
            simple = True
            for i in c:
                q = qs[i]
                for k in range(4):
                    a, b = q[k], q[(k + 1) % 4]
                    if owner.get((b, a)) in c:
                        continue
                    if a in es:
                        simple = False
                    es[a] = b
            loop = []
            if simple:
                s = a = next(iter(es))
                while True:
                    loop.append(a)
                    a = es[a]
                    if a == s:
                        break
            if simple and len(loop) == len(es):
                faces.append([v(p) for p in loop])
            else:
                faces += [[v(p) for p in qs[i]] for i in c]
    return dict(points=pts, faces=faces)


@st.composite
def voxels(draw):
    nx, ny, nz = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 3))
    bits = draw(st.integers(0, (1 << (nx * ny * nz)) - 1))
    if draw(st.booleans()):
        bits |= draw(st.integers(0, (1 << (nx * ny * nz)) - 1))
    cells = {(x, y, z) for x in range(nx) for y in range(ny) for z in range(nz) if bits >> (x + nx * (y + ny * z)) & 1}
    if not cells:
        cells = {(0, 0, 0)}
    cells = _fix(cells, nx, ny, nz)
    return voxel_surface(cells, draw(st.booleans()))


def triangulated(draw, poly):
    """Every face as a fan from a random corner (only for convex faces)."""
    rnd = random.Random(draw(st.integers(0, 99)))
    fs = []
    for f in poly["faces"]:
        k = rnd.randrange(len(f))
        f = f[k:] + f[:k]
        fs += [[f[0], f[i], f[i + 1]] for i in range(1, len(f) - 1)]
    return dict(points=poly["points"], faces=fs)


@st.composite
def bumpy(draw):
    """A voxel body in triangles whose vertices are displaced by less than half a cell's third."""
    nx, ny, nz = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    bits = draw(st.integers(1, (1 << (nx * ny * nz)) - 1))
    cells = {(x, y, z) for x in range(nx) for y in range(ny) for z in range(nz) if bits >> (x + nx * (y + ny * z)) & 1}
    poly = triangulated(draw, voxel_surface(_fix(cells, nx, ny, nz), False))
    rnd = random.Random(draw(st.integers(0, 9999)))
    k = draw(st.sampled_from([8, 64, 8192]))
    m = k // 4
    j = lambda: rnd.randint(-m, m) / k
    flat = draw(st.booleans())            # keep many vertices at one height
    poly["points"] = [[x + j(), y + j(), z + (0 if flat and rnd.random() < .6 else j())] for x, y, z in poly["points"]]
    return poly


@st.composite
def terrain(draw):
    """A height field on a rectangular grid with few different heights: saddles, peaks, plateaus."""
    nx, ny = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    hs = [draw(st.integers(1, 4)) for _ in range((nx + 1) * (ny + 1))]
    rnd = random.Random(draw(st.integers(0, 9999)))
    pts, top, bot = [], {}, {}
    for y in range(ny + 1):
        for x in range(nx + 1):
            top[x, y] = len(pts)
            pts.append([x, y, hs[y * (nx + 1) + x]])
    for y in range(ny + 1):
        for x in range(nx + 1):
            if x in (0, nx) or y in (0, ny):
                bot[x, y] = len(pts)
                pts.append([x, y, 0])
    f = []
    for y in range(ny):
        for x in range(nx):
            a, b, c, d = top[x, y], top[x + 1, y], top[x + 1, y + 1], top[x, y + 1]
            if rnd.random() < .5:
                f += [[a, d, c], [a, c, b]]
            else:
                f += [[a, d, b], [b, d, c]]
    rim = [(x, 0) for x in range(nx)] + [(nx, y) for y in range(ny)] + [(x, ny) for x in range(nx, 0, -1)] + [(0, y) for y in range(ny, 0, -1)]
    for i, p in enumerate(rim):
        q = rim[(i + 1) % len(rim)]
        f.append([bot[p], top[p], top[q], bot[q]])
    f.append([bot[p] for p in rim])
    return dict(points=pts, faces=f)


@st.composite
def torus(draw):
    """A ring of n polygons with m corners each, tilted at will."""
    n, m = draw(st.integers(3, 7)), draw(st.integers(3, 5))
    R, r = 4, draw(st.integers(1, 3))
    q = draw(st.sampled_from([2, 8, 8192]))
    rd = lambda v: round(v * q) / q
    pts = []
    ph = draw(st.integers(0, 3)) * math.pi / 6
    for i in range(n):
        a = 2 * math.pi * i / n
        k = draw(st.sampled_from([1, 1, .5, .75]))
        for j in range(m):
            b = 2 * math.pi * j / m + ph
            d = R + r * k * math.cos(b)
            pts.append([rd(d * math.cos(a)), rd(d * math.sin(a)), rd(r * k * math.sin(b))])
    f = []
    for i in range(n):
        for j in range(m):
            a, b = i * m + j, i * m + (j + 1) % m
            c, d = (i + 1) % n * m + (j + 1) % m, (i + 1) % n * m + j
            f += [[a, b, c], [a, c, d]]
    return dict(points=pts, faces=f)


def move(poly, d, s=1):
    return dict(points=[[p[i] * s + d[i] for i in range(3)] for p in poly["points"]], faces=poly["faces"])


def flip(poly):
    return dict(points=poly["points"], faces=[f[::-1] for f in poly["faces"]])


def join(a, b):
    k = len(a["points"])
    return dict(points=a["points"] + b["points"], faces=a["faces"] + [[i + k for i in f] for f in b["faces"]])


def scaled(poly, k):
    return dict(points=[[c * k for c in p] for p in poly["points"]], faces=poly["faces"])


def single():
    return st.one_of(voxels(), voxels(), bumpy(), terrain(), torus())


@st.composite
def poly(draw):
    p = draw(single())
    k = draw(st.integers(0, 7))
    if k == 0:                               # a second component, disjoint
        p = join(p, move(draw(single()), [draw(st.sampled_from([16, -16])), draw(st.integers(-2, 2)), draw(st.integers(-2, 2))]))
    elif k == 1:                             # a cavity inside of a block
        out = voxel_surface({(0, 0, 0)}, False)
        p = join(move(out, [-10, -10, -9], 20), flip(p))
    elif k == 2:                             # cavity, and something inside of the cavity
        out = voxel_surface({(0, 0, 0)}, False)
        inner = move(draw(voxels()), [0, 0, 0], .125)
        p = join(move(out, [-10, -10, -9], 20), flip(join(move(out, [-9, -9, -8], 18), p)))
        p = join(p, move(inner, [8.125, 8.125, 0]))
    rnd = random.Random(draw(st.integers(0, 9999)))
    if draw(st.booleans()):                  # shuffle everything
        perm = list(range(len(p["points"])))
        rnd.shuffle(perm)
        pts = [None] * len(perm)
        for i, j in enumerate(perm):
            pts[j] = p["points"][i]
        fs = []
        for f in p["faces"]:
            k = rnd.randrange(len(f))
            f = [perm[i] for i in f]
            fs.append(f[k:] + f[:k])
        rnd.shuffle(fs)
        p = dict(points=pts, faces=fs)
    return p


# exact maps: signed permutations with dyadic scale
@st.composite
def exact_map(draw):
    perm = draw(st.permutations([0, 1, 2]))
    M = [[0.0] * 4 for _ in range(3)]
    for i in range(3):
        M[i][perm[i]] = draw(st.sampled_from([1, -1, 1, 2, .5, -2]))
        M[i][3] = draw(st.integers(-24, 24)) / 8
    return M
