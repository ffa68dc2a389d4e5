"""SCAD models as JSON-able trees, their text, and a reference evaluator.

A node is [functor, params, children] with params a dict name -> value
(positional arguments under "_").  The evaluator decides membership of points
from the documented meaning, and says for every point whether the answer is
certain, i.e., does not depend on moving any surface by rho.
"""
import math
import numpy as np
from . import geom
from .geom import apply, cosd, sind

MAX_FN = 100
PX = 1.0 / 8192


# ---------------------------------------------------------------- printing

def num(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, int):
        return str(x)
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return repr(float(x))


def val(v):
    if v is None:
        return "undef"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(val(x) for x in v) + "]"
    return num(v)


def text(n, ind=0):
    f, p, ch = n[0], n[1], (n[2] if len(n) > 2 else None)
    pre = "  " * ind
    if f == "{}":
        return pre + "{\n" + "".join(text(c, ind + 1) for c in ch) + pre + "}\n"
    mod = p.get("%", "")
    args = [val(v) for v in p.get("_", [])]
    args += ["%s=%s" % (k, val(v)) for k, v in p.items() if k not in ("_", "%")]
    s = pre + mod + f + "(" + ", ".join(args) + ")"
    if ch is None:
        return s + ";\n"
    return s + " {\n" + "".join(text(c, ind + 1) for c in ch) + pre + "}\n"


def program(nodes):
    return "".join(text(n) for n in nodes)


# ------------------------------------------------------------- parameters

def arg(p, name, pos=None, default=None):
    if name in p:
        return p[name]
    a = p.get("_", [])
    if pos is not None and pos < len(a):
        return a[pos]
    return default


def vec3(v, fill):
    if isinstance(v, (int, float)):
        return [v, v, v]
    return list(v) + [fill] * (3 - len(v))


def get_fn(fn, mn, max_fn, circ):
    if not fn or fn > max_fn:
        return 0 if circ else max_fn
    return max(mn, fn)


def matrix(f, p):
    if f == "translate":
        return geom.m_translate(vec3(arg(p, "v", 0), 0))
    if f == "scale":
        return geom.m_scale(vec3(arg(p, "v", 0), 1))
    if f == "mirror":
        return geom.m_mirror(arg(p, "v", 0))
    if f == "multmatrix":
        return geom.m_mult(arg(p, "m", 0))
    if f == "rotate":
        a, v = arg(p, "a", 0), arg(p, "v", 1)
        if isinstance(a, list):
            return geom.m_rot_xyz(a)
        if v is None:
            v = [0, 0, 1]
        return geom.m_rot_axis(a, v)
    return None


XFORM = {"translate", "scale", "mirror", "multmatrix", "rotate"}
GROUP = {"union", "group", "render", "color", "{}"}
PRIM3 = {"cube", "sphere", "cylinder", "polyhedron"}
PRIM2 = {"square", "circle", "polygon"}


# ------------------------------------------------------------- primitives

def fan(poly):
    return [[poly[0], poly[i], poly[i + 1]] for i in range(1, len(poly) - 1)]


def tower(rings, apex=None):
    """Closed surface over equally sized rings (lists of 3D points), planar quads."""
    n = len(rings[0])
    t = fan(rings[0])
    for a, b in zip(rings, rings[1:]):
        for i in range(n):
            j = (i + 1) % n
            t += [[a[i], a[j], b[j]], [a[i], b[j], b[i]]]
    if apex is not None:
        a = rings[-1]
        t += [[a[i], a[(i + 1) % n], apex] for i in range(n)]
    else:
        t += fan(rings[-1])
    return t


def cyl_radii(p):
    r1 = r2 = 1
    a = p.get("_", [])
    if len(a) > 1: r1 = a[1]
    if len(a) > 2: r2 = a[2]
    if "r" in p: r1 = r2 = p["r"]
    if "d" in p: r1 = r2 = p["d"] / 2
    if "r1" in p: r1 = p["r1"]
    if "r2" in p: r2 = p["r2"]
    if "d1" in p: r1 = p["d1"] / 2
    if "d2" in p: r2 = p["d2"] / 2
    return r1, r2


def sph_r(p):
    r = arg(p, "r", 0, 1)
    if "d" in p:
        r = p["d"] / 2
    return r


def ring(fn, r, z):
    return [(r * cosd(360.0 * i / fn), r * sind(360.0 * i / fn), z) for i in range(fn)]


def prim3_tris(n, max_fn):
    """Triangles (T,3,3) of a primitive; None for a true sphere."""
    f, p = n[0], n[1]
    if f == "cube":
        s = vec3(arg(p, "size", 0, 1), 1)
        q = [(0, 0), (1, 0), (1, 1), (0, 1)]
        t = np.array(tower([[(x, y, 0) for x, y in q], [(x, y, 1) for x, y in q]]), float)
        if arg(p, "center", 1, False):
            t = t - .5
        return t * s
    if f == "cylinder":
        h = arg(p, "h", 0, 1)
        r1, r2 = cyl_radii(p)
        c = arg(p, "center", 3, False)
        z0, z1 = (-h / 2, h / 2) if c else (0, h)
        fn = get_fn(p.get("$fn", 0), 3, max_fn, False)
        if r1 == 0:
            return np.array(tower([ring(fn, r2, z1)], (0, 0, z0)), float)
        if r2 == 0:
            return np.array(tower([ring(fn, r1, z0)], (0, 0, z1)), float)
        return np.array(tower([ring(fn, r1, z0), ring(fn, r2, z1)]), float)
    if f == "sphere":
        fn = get_fn(p.get("$fn", 0), 3, max_fn, True)
        if fn == 0:
            return None
        r = sph_r(p)
        k = (fn + 1) // 2
        return np.array(tower([ring(fn, r * sind(180.0 * (2 * i + 1) / (2 * k)),
                                    r * cosd(180.0 * (2 * i + 1) / (2 * k))) for i in range(k)]), float)
    if f == "polyhedron":
        pts = arg(p, "points", 0)
        fc = arg(p, "faces", 1) or p.get("triangles")
        t = []
        for c in fc:
            t += fan([pts[i] for i in c])
        return np.array(t, float).reshape(-1, 3, 3)
    raise KeyError(f)


def prim2_paths(n, max_fn):
    f, p = n[0], n[1]
    if f == "square":
        s = arg(p, "size", 0, 1)
        sx, sy = (s, s) if isinstance(s, (int, float)) else s
        o = .5 if arg(p, "center", 1, False) else 0
        return [[((x - o) * sx, (y - o) * sy) for x, y in ((0, 0), (0, 1), (1, 1), (1, 0))]]
    if f == "circle":
        r = sph_r(p)
        fn = get_fn(p.get("$fn", 0), 3, max_fn, False)
        return [[(r * cosd(360.0 * i / fn), -r * sind(360.0 * i / fn)) for i in range(fn)]]
    if f == "polygon":
        pts = arg(p, "points", 0)
        pa = arg(p, "paths", 1)
        if pa is None:
            return [list(map(tuple, pts))]
        return [[tuple(pts[i]) for i in q] for q in pa]
    raise KeyError(f)


def linext_tris(paths, p):
    """Side/top/bottom triangles of one or several disjoint outlines (local z 0..h)."""
    h, z0, slices, tw, sx, sy = linext_par(p)
    cone = sx == 0
    out = []
    for path in paths:
        # the engine's paths run clockwise
        a = geom.area(geom.path_segs([path]))
        q = list(path) if a < 0 else list(path)[::-1]
        rings = []
        for k in range(slices + (0 if cone else 1)):
            t = k / slices
            c, s = cosd(-t * tw), sind(-t * tw)
            fx, fy = 1 + (sx - 1) * t, 1 + (sy - 1) * t
            rings.append([((c * x - s * y) * fx, (s * x + c * y) * fy, z0 + h * t) for x, y in q])
        n = len(q)
        tris = fan(rings[0])
        for A, B in zip(rings, rings[1:]):
            for i in range(n):
                j = (i + 1) % n
                # clockwise outline seen from above, twist>0 is clockwise: the
                # connecting edge is inward (concave)
                d1 = [[A[i], A[j], B[j]], [A[i], B[j], B[i]]]
                d2 = [[A[i], A[j], B[i]], [A[j], B[j], B[i]]]
                if tw == 0:
                    tris += d1
                else:
                    # choose the diagonal lying inside: pick by signed volume
                    tris += d1 if _concave(A[i], A[j], B[j], B[i]) else d2
        if cone:
            A = rings[-1]
            tris += [[A[i], A[(i + 1) % n], (0, 0, z0 + h)] for i in range(n)]
        else:
            tris += fan(rings[-1])
        out += tris
    return np.array(out, float)


def _concave(a0, a1, b1, b0):
    """Is the diagonal a0-b1 nearer to the solid's inside than a1-b0?"""
    # outline clockwise from above: outward normal of edge a0->a1 is to its left
    a0, a1, b1, b0 = map(np.array, (a0, a1, b1, b0))
    nrm = np.cross(a1 - a0, b0 - a0) + np.cross(b1 - b0, b1 - a1)
    # cross((dx,dy,0),(0,0,1)) = (dy,-dx,0): right of the direction, i.e. inward
    out = -nrm
    m1 = (a0 + b1) / 2
    m2 = (a1 + b0) / 2
    return float(np.dot(m1 - m2, out)) < 0


def linext_par(p):
    h = arg(p, "height", 0, 100)
    z0 = -h / 2 if p.get("center", False) else 0
    slices = int(p.get("slices", 1))
    tw = p.get("twist", 0)
    s = p.get("scale", 1)
    sx, sy = (s, s) if isinstance(s, (int, float)) else s
    return h, z0, slices, tw, sx, sy


# ---------------------------------------------------------------- evaluator
# Answers are pairs (inside, certain) of boolean arrays.

def AND(a, b):
    ai, ac = a
    bi, bc = b
    # certain if both certain or one is certainly outside
    return ai & bi, (ac & bc) | (ac & ~ai) | (bc & ~bi)


def OR(a, b):
    ai, ac = a
    bi, bc = b
    return ai | bi, (ac & bc) | (ac & ai) | (bc & bi)


def NOT(a):
    return ~a[0], a[1]


def const(n, v):
    return np.full(n, v, bool), np.ones(n, bool)


class Ev:
    """Evaluates one model at points (x,y,z0) of one plane (in the frame of M)."""

    def __init__(self, max_fn=MAX_FN, rho=6 * PX, files=None, ignore=None):
        self.max_fn, self.rho = max_fn, rho
        self.zsteps = (0, -1, 1)
        self.cache = {}

    # ---- 3D
    def group3(self, nodes, P, z, M, rho):
        r = const(len(P), False)
        for n in nodes:
            if skip(n):
                continue
            r = OR(r, self.e3(n, P, z, M, rho))
        return r

    def e3(self, n, P, z, M, rho):
        f, p = n[0], n[1]
        ch = n[2] if len(n) > 2 else []
        if f in XFORM:
            return self.group3(ch, P, z, M @ matrix(f, p), rho)
        if f in GROUP:
            return self.group3(ch, P, z, M, rho)
        if f == "intersection":
            r = None
            for c in ch:
                if skip(c) or ignored(c):
                    continue
                x = self.e3(c, P, z, M, rho)
                r = x if r is None else AND(r, x)
            return r if r is not None else const(len(P), False)
        if f == "difference":
            r = None
            for c in ch:
                if skip(c) or ignored(c):
                    continue
                x = self.e3(c, P, z, M, rho)
                r = x if r is None else AND(r, NOT(x))
            return r if r is not None else const(len(P), False)
        if f in PRIM3:
            t = prim3_tris(n, self.max_fn)
            if t is None:
                return self.sphere(sph_r(p), P, z, M, rho)
            return self.mesh(t, P, z, M, rho)
        if f == "linear_extrude":
            return self.linext(n, P, z, M, rho)
        if f == "rotate_extrude":
            return self.rotext(n, P, z, M, rho)
        if f == "mesh":     # reference-only node: triangles
            return self.mesh(np.asarray(p["tris"], float), P, z, M, rho)
        raise KeyError(f)

    def mesh(self, t, P, z, M, rho):
        t = apply(M, t.reshape(-1, 3)).reshape(-1, 3, 3)
        r = None
        cert = None
        for k in self.zsteps:
            s = geom.tri_section(t, z + k * rho)
            m = geom.parity(s, P)
            c = geom.dist(s, P) > rho
            if r is None:
                r, cert = m, c
            else:
                cert = cert & (m == r) & c
        return r, cert

    def local(self, P, z, M):
        I = np.linalg.inv(M)
        q = np.empty((len(P), 3))
        q[:, :2] = P
        q[:, 2] = z
        return apply(I, q), float(np.linalg.norm(I[:3, :3], 2))

    def sphere(self, r, P, z, M, rho):
        """The section is a polygon of max_fn vertices inscribed in the ellipse."""
        Q, k = self.local(P, z, M)
        d = np.linalg.norm(Q, axis=1)
        # plane distance from centre in local coordinates: section circle radius
        I = np.linalg.inv(M)
        nrm = M[2, :3]              # row: gradient of world z in local coordinates
        h = (z - M[2, 3]) / np.linalg.norm(nrm)
        e = rho * k
        rad2 = r * r - h * h
        if rad2 <= 0:
            return np.zeros(len(P), bool), (d > r + 2 * e)
        rad = math.sqrt(rad2)
        foot = nrm / np.linalg.norm(nrm) * h
        u = np.linalg.norm(Q - foot, axis=1)
        inr = rad * math.cos(math.pi / self.max_fn)
        ins = u < (rad + inr) / 2
        # e moves z too: near the poles the radius reacts strongly
        lo = math.sqrt(max(0.0, r * r - (abs(h) + e) ** 2)) * math.cos(math.pi / self.max_fn)
        hi = math.sqrt(max(0.0, r * r - max(0.0, abs(h) - e) ** 2))
        return ins, (u < lo - e) | (u > hi + e)

    def slab(self, Q, z0, z1, e):
        lo, hi = min(z0, z1), max(z0, z1)
        d = np.minimum(Q[:, 2] - lo, hi - Q[:, 2])
        return d > 0, np.abs(d) > e

    def linext(self, n, P, z, M, rho):
        p, ch = n[1], n[2]
        h, z0, slices, tw, sx, sy = linext_par(p)
        if tw != 0:
            # steep sides: outline may move over a point and back
            self.zsteps = (0, -.03, .03, -.06, .06, -.09, .09, -.13, .13, -.25, .25, -.5, .5, -1, 1)
            return self.mesh(linext_tris(self.outline(ch), p), P, z, M, rho)
        Q, k = self.local(P, z, M)
        e = rho * k
        S = self.slab(Q, z0, z0 + h, e)
        t = np.clip((Q[:, 2] - z0) / h, 0, 1)
        fx, fy = 1 + (sx - 1) * t, 1 + (sy - 1) * t
        tiny = np.minimum(np.abs(fx), np.abs(fy)) < 1e-3
        fx, fy = np.where(tiny, 1, fx), np.where(tiny, 1, fy)
        q2 = np.column_stack([Q[:, 0] / fx, Q[:, 1] / fy])
        # error in the pulled back point: direct, plus via t, plus the rounding
        # of the 2D evaluation itself
        slope = np.maximum(np.abs(q2[:, 0] * (sx - 1)), np.abs(q2[:, 1] * (sy - 1))) / h
        e2 = (e * (1 + slope)) / np.minimum(np.abs(fx), np.abs(fy)) + self.rho
        r = self.group2(ch, q2, np.eye(4), e2)
        r = AND(S, (r[0], r[1] & ~tiny))
        # holes are objects of their own: at the end planes slivers of rounding size may remain
        return r[0], r[1] & S[1]

    def rotext(self, n, P, z, M, rho):
        p, ch = n[1], n[2]
        ang = min(360, p.get("angle", 360))
        mn = 3 if ang >= 360 else 2 if ang >= 180 else 1
        seg = get_fn(p.get("$fn", 0), mn, self.max_fn, False)
        Q, k = self.local(P, z, M)
        e = rho * k
        step = ang / seg
        res = const(len(P), False)
        rr = np.hypot(Q[:, 0], Q[:, 1])
        for side in (1, -1):
            # profile with x>0 (side 1) or x<0 (side -1: starts on the other side)
            x0, y0 = Q[:, 0] * side, Q[:, 1] * side
            if ang >= 360:
                # starts at the negative x axis, (-cos, sin): runs clockwise
                th = np.degrees(np.arctan2(y0, -x0))
            else:
                th = np.degrees(np.arctan2(y0, x0))
            th = np.mod(th, 360)
            if ang < 360:
                th = np.where(th > (360 + ang) / 2, th - 360, th)
            i = np.clip(np.floor(th / step), 0, seg - 1)
            mid = np.radians((i + .5) * step)
            half = math.radians(step / 2)
            d = th - (i + .5) * step
            rad = rr * np.cos(np.radians(d)) / math.cos(half)
            # the ends are straight
            q2 = np.column_stack([rad * side, Q[:, 2]])
            e2 = e / math.cos(half) * 1.5 + self.rho
            r = self.group2(ch, q2, np.eye(4), e2)
            # keep one side only: the profile lies on one side of the axis
            cert = r[1].copy()
            if ang < 360:
                inside_ang = (th >= 0) & (th <= ang)
                # distance to the end planes
                d0 = rr * np.abs(np.sin(np.radians(np.clip(th, -90, 90))))
                d0 = np.where(np.abs(th) > 90, rr, d0)
                t2 = th - ang
                d1 = rr * np.abs(np.sin(np.radians(np.clip(t2, -90, 90))))
                d1 = np.where(np.abs(t2) > 90, rr, d1)
                a = (inside_ang, np.minimum(d0, d1) > e * 1.5)
                x = AND((r[0], cert), a)
                res = OR(res, (x[0], x[1] & (a[1] | (rr < 3 * e))))
            else:
                res = OR(res, (r[0], cert))
        # near the axis everything meets
        near = rr < 3 * e
        return res[0], res[1] & ~near

    # ---- 2D: e is an array (per point) or scalar tolerance
    def group2(self, nodes, P, M, e):
        r = const(len(P), False)
        for n in nodes:
            if skip(n):
                continue
            r = OR(r, self.e2(n, P, M, e))
        return r

    def e2(self, n, P, M, e):
        f, p = n[0], n[1]
        ch = n[2] if len(n) > 2 else []
        if f in XFORM:
            return self.group2(ch, P, M @ matrix(f, p), e)
        if f in GROUP:
            return self.group2(ch, P, M, e)
        if f in ("intersection", "difference"):
            r = None
            for c in ch:
                if skip(c) or ignored(c):
                    continue
                x = self.e2(c, P, M, e)
                if r is None:
                    r = x
                else:
                    r = AND(r, x if f == "intersection" else NOT(x))
            return r if r is not None else const(len(P), False)
        if f in PRIM2:
            paths = prim2_paths(n, self.max_fn)
            return self.region(paths, P, M, e)
        if f == "region":   # reference-only node: explicit paths
            return self.region(p["paths"], P, M, e)
        if f == "projection":
            A = np.eye(4)
            A[:2, :2], A[:2, 3] = M[:2, :2], M[:2, 3]
            I = np.linalg.inv(A)
            q = np.zeros((len(P), 3))
            q[:, :2] = P
            q = apply(I, q)
            k = float(np.linalg.norm(I[:2, :2], 2))
            rho = float(np.max(e)) * k + self.rho
            return self.group3(ch, q[:, :2], 0.0, np.eye(4), rho)
        if f == "hull":
            pts = [v for path in self.outline(ch) for v in path]
            h = geom.convex_hull(pts)
            if len(h) < 3:
                return const(len(P), False)
            return self.region([h], P, M, e)
        raise KeyError(f)

    def region(self, paths, P, M, e):
        s = geom.path_segs(paths)
        if len(s) == 0:
            return const(len(P), False)
        A = M[:2, :2]
        b = M[:2, 3]
        s = np.hstack([s[:, :2] @ A.T + b, s[:, 2:] @ A.T + b])
        return geom.parity(s, P), geom.dist(s, P) > e

    def outline(self, nodes, M=None):
        """Outlines of disjoint 2D objects below unions and transformations."""
        M = np.eye(4) if M is None else M
        out = []
        for n in nodes:
            if skip(n):
                continue
            f, p = n[0], n[1]
            ch = n[2] if len(n) > 2 else []
            if f in XFORM:
                out += self.outline(ch, M @ matrix(f, p))
            elif f in GROUP:
                out += self.outline(ch, M)
            elif f in PRIM2 or f == "region":
                for q in (prim2_paths(n, self.max_fn) if f in PRIM2 else p["paths"]):
                    q = np.array(q, float) @ M[:2, :2].T + M[:2, 3]
                    out.append([tuple(v) for v in q])
            elif f == "hull":
                h = geom.convex_hull([v for q in self.outline(ch, M) for v in q])
                if len(h) >= 3:
                    out.append(h)
            else:
                raise KeyError(f)
        return out


def skip(n):
    return any(c in n[1].get("%", "") for c in "*%")


def ignored(n):
    """IGNORE of the documentation."""
    f, p = n[0], n[1]
    ch = n[2] if len(n) > 2 else []
    if skip(n):
        return True
    if f in PRIM3 or f in PRIM2 or f in ("import", "text", "mesh", "region"):
        return False
    if f in ("linear_extrude", "rotate_extrude"):
        return all(ignored2(c) for c in ch)
    return all(ignored(c) for c in ch)


def ignored2(n):
    f, p = n[0], n[1]
    ch = n[2] if len(n) > 2 else []
    if skip(n):
        return True
    if f in PRIM3:
        return True
    if f in PRIM2 or f in ("import", "text", "region"):
        return False
    return all(ignored(c) if f == "projection" else ignored2(c) for c in ch)


# ------------------------------------------------------- helpers for checks

def bbox3(nodes, max_fn=MAX_FN):
    """A conservative bounding box of all positive parts (over-approximates)."""
    pts = []

    def add2(ns, M, out):
        for n in ns:
            if skip(n): continue
            f, p = n[0], n[1]
            ch = n[2] if len(n) > 2 else []
            if f in XFORM:
                add2(ch, M @ matrix(f, p), out)
            elif f in PRIM2 or f == "region":
                for q in (prim2_paths(n, max_fn) if f in PRIM2 else p["paths"]):
                    q = np.array(q, float)
                    q = np.column_stack([q, np.zeros(len(q))])
                    out.append(apply(M, q)[:, :2])
            elif f == "projection":
                sub = bbox3(ch, max_fn)
                if sub is not None:
                    c = np.array([(x, y, 0) for x in sub[:, 0] for y in sub[:, 1]])
                    out.append(apply(M, c)[:, :2])
            else:
                add2(ch, M, out)

    def add3(ns, M):
        for n in ns:
            if skip(n): continue
            f, p = n[0], n[1]
            ch = n[2] if len(n) > 2 else []
            if f in XFORM:
                add3(ch, M @ matrix(f, p))
            elif f in PRIM3:
                t = prim3_tris(n, max_fn)
                if t is None:
                    r = sph_r(p)
                    ext = np.abs(r) * np.linalg.norm(M[:3, :3], axis=1)
                    pts.append(np.array([M[:3, 3] - ext, M[:3, 3] + ext]))
                else:
                    pts.append(apply(M, t.reshape(-1, 3)))
            elif f == "mesh":
                pts.append(apply(M, np.asarray(p["tris"], float).reshape(-1, 3)))
            elif f == "linear_extrude":
                o = []
                add2(ch, np.eye(4), o)
                if not o: continue
                q = np.vstack(o)
                h, z0, sl, tw, sx, sy = linext_par(p)
                r = np.hypot(q[:, 0], q[:, 1]).max() * max(1, abs(sx), abs(sy))
                if tw:
                    lo, hi = np.array([-r, -r]), np.array([r, r])
                else:
                    qs = np.vstack([q, q * [sx, sy]])
                    lo, hi = qs.min(axis=0), qs.max(axis=0)
                pts.append(apply(M, np.array([(x, y, zz) for x in (lo[0], hi[0]) for y in (lo[1], hi[1]) for zz in (z0, z0 + h)])))
            elif f == "rotate_extrude":
                o = []
                add2(ch, np.eye(4), o)
                if not o: continue
                q = np.vstack(o)
                r = np.abs(q[:, 0]).max()
                pts.append(apply(M, np.array([(x, y, zz) for x in (-r, r) for y in (-r, r) for zz in (q[:, 1].min(), q[:, 1].max())])))
            else:
                add3(ch, M)
    add3(nodes, np.eye(4))
    if not pts:
        return None
    a = np.vstack(pts)
    return np.array([a.min(axis=0), a.max(axis=0)])


def walk(nodes):
    for n in nodes:
        yield n
        if len(n) > 2 and n[2]:
            yield from walk(n[2])
