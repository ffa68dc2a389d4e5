"""2D/3D geometry used by the oracles (numpy, vectorised, no code of hob3l)."""
import math
import numpy as np


def parity(segs, pts, chunk=400000):
    """Even-odd membership of points (N,2) in the region bounded by segments (S,4)."""
    n, s = len(pts), len(segs)
    r = np.zeros(n, bool)
    if s == 0 or n == 0:
        return r
    x1, y1, x2, y2 = segs[:, 0], segs[:, 1], segs[:, 2], segs[:, 3]
    nz = y1 != y2
    x1, y1, x2, y2 = x1[nz], y1[nz], x2[nz], y2[nz]
    if len(x1) == 0:
        return r
    step = max(1, chunk // len(x1))
    sl = (x2 - x1) / (y2 - y1)
    for i in range(0, n, step):
        px = pts[i:i + step, 0:1]
        py = pts[i:i + step, 1:2]
        c = ((y1 > py) != (y2 > py)) & (px < x1 + (py - y1) * sl)
        r[i:i + step] = (c.sum(axis=1) & 1).astype(bool)
    return r


def winding(segs, pts, chunk=400000):
    """Winding number of points wrt directed segments."""
    n, s = len(pts), len(segs)
    r = np.zeros(n, int)
    if s == 0 or n == 0:
        return r
    x1, y1, x2, y2 = segs[:, 0], segs[:, 1], segs[:, 2], segs[:, 3]
    nz = y1 != y2
    x1, y1, x2, y2 = x1[nz], y1[nz], x2[nz], y2[nz]
    step = max(1, chunk // max(1, len(x1)))
    for i in range(0, n, step):
        px = pts[i:i + step, 0:1]
        py = pts[i:i + step, 1:2]
        c = ((y1 > py) != (y2 > py)) & (px < x1 + (py - y1) * (x2 - x1) / (y2 - y1))
        r[i:i + step] = np.where(c, np.where(y2 > y1, 1, -1), 0).sum(axis=1)
    return r


def dist(segs, pts, chunk=300000):
    """Distance of points (N,2) to the nearest of the segments (S,4)."""
    n, s = len(pts), len(segs)
    if s == 0 or n == 0:
        return np.full(n, np.inf)
    r = np.empty(n)
    a = segs[:, 0:2]
    d = segs[:, 2:4] - a
    l2 = (d * d).sum(axis=1)
    l2 = np.where(l2 == 0, 1.0, l2)
    step = max(1, chunk // s)
    for i in range(0, n, step):
        p = pts[i:i + step]
        wx = p[:, 0:1] - a[:, 0]
        wy = p[:, 1:2] - a[:, 1]
        t = (wx * d[:, 0] + wy * d[:, 1]) / l2
        np.clip(t, 0, 1, out=t)
        wx -= t * d[:, 0]
        wy -= t * d[:, 1]
        r[i:i + step] = np.sqrt((wx * wx + wy * wy).min(axis=1))
    return r


def path_segs(paths):
    """Closed paths [[(x,y)...]...] to segments."""
    out = []
    for p in paths:
        p = np.asarray(p, float)
        if len(p) == 0:
            continue
        q = np.roll(p, -1, axis=0)
        out.append(np.hstack([p, q]))
    return np.vstack(out) if out else np.zeros((0, 4))


def area(segs):
    """Signed area of closed directed segments (counter-clockwise positive)."""
    if len(segs) == 0:
        return 0.0
    return float((segs[:, 0] * segs[:, 3] - segs[:, 2] * segs[:, 1]).sum() / 2)


def tri_section(tris, z):
    """Section of triangles (T,3,3) with the plane z (above: z' > z): segments (S,4)."""
    if len(tris) == 0:
        return np.zeros((0, 4))
    up = tris[:, :, 2] > z
    k = up.sum(axis=1)
    sel = (k == 1) | (k == 2)
    t, up, k = tris[sel], up[sel], k[sel]
    if len(t) == 0:
        return np.zeros((0, 4))
    # lone vertex: the one whose side differs from the other two
    lone = np.where(k == 1, np.argmax(up, axis=1), np.argmin(up, axis=1))
    i = np.arange(len(t))
    a, b, c = t[i, lone], t[i, (lone + 1) % 3], t[i, (lone + 2) % 3]
    tb = (z - a[:, 2]) / (b[:, 2] - a[:, 2])
    tc = (z - a[:, 2]) / (c[:, 2] - a[:, 2])
    pb = a + (b - a) * tb[:, None]
    pc = a + (c - a) * tc[:, None]
    return np.hstack([pb[:, :2], pc[:, :2]])


def convex_hull(pts):
    """Monotone chain; returns ccw hull vertices."""
    pts = sorted(set(map(tuple, pts)))
    if len(pts) <= 2:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and ((h[-1][0] - h[-2][0]) * (p[1] - h[-2][1])
                                   - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0])) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, hi = half(pts), half(pts[::-1])
    return lo[:-1] + hi[:-1]


_SIN = {0: 0.0, 30: 0.5, 90: 1.0, 150: 0.5, 180: 0.0, 210: -0.5, 270: -1.0, 330: -0.5}


def sind(a):
    m = math.fmod(a, 360)
    if m < 0:
        m += 360
    if m in _SIN:
        return _SIN[m]
    return math.sin(math.radians(m))


def cosd(a):
    m = math.fmod(a, 360)
    if m < 0:
        m += 360
    if math.fmod(m + 90, 360) in _SIN:
        return _SIN[math.fmod(m + 90, 360)]
    return math.cos(math.radians(m))


def m_translate(v):
    m = np.eye(4)
    m[:len(v), 3] = v
    return m


def m_scale(v):
    m = np.eye(4)
    if isinstance(v, (int, float)):
        v = [v, v, v]
    for i, x in enumerate(v):
        m[i, i] = x
    return m


def m_mirror(v):
    v = np.array(list(v) + [0] * (3 - len(v)), float)
    v /= np.linalg.norm(v)
    m = np.eye(4)
    m[:3, :3] -= 2 * np.outer(v, v)
    return m


def m_rot_axis(a, v):
    x, y, z = np.array(v, float) / np.linalg.norm(v)
    s, c = sind(a), cosd(a)
    d = 1 - c
    m = np.eye(4)
    m[:3, :3] = [[x * x * d + c, x * y * d - z * s, x * z * d + y * s],
                 [x * y * d + z * s, y * y * d + c, y * z * d - x * s],
                 [x * z * d - y * s, y * z * d + x * s, z * z * d + c]]
    return m


def m_rot_xyz(v):
    x, y, z = v
    return m_rot_axis(z, [0, 0, 1]) @ m_rot_axis(y, [0, 1, 0]) @ m_rot_axis(x, [1, 0, 0])


def m_mult(rows):
    m = np.eye(4)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            m[i, j] = x
    return m


def apply(m, p):
    """Apply 4x4 to (N,3)."""
    return p @ m[:3, :3].T + m[:3, 3]
