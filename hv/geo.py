"""The central geometric oracle: printed layers versus the model's meaning."""
import hashlib
import numpy as np
from . import geom, out, scad
from .run import Discard, Violation, canon

PX = scad.PX


def rng_for(case):
    return np.random.default_rng(int.from_bytes(hashlib.sha256(canon(case).encode()).digest()[:8], "big"))


def points_for(segs, rng, lo, hi, n, rho):
    """Sample points: uniform ones, and ones just beside the segments."""
    P = [rng.uniform(lo, hi, (n, 2))]
    if len(segs):
        m = min(len(segs), n)
        idx = rng.choice(len(segs), m, replace=len(segs) < m)
        s = segs[idx]
        for t in (rng.uniform(0.02, .98, (m, 1)), rng.uniform(0.3, .7, (m, 1))):
            d = s[:, 2:] - s[:, :2]
            l = np.linalg.norm(d, axis=1, keepdims=True)
            l = np.where(l == 0, 1, l)
            nrm = np.column_stack([-d[:, 1], d[:, 0]]) / l
            q = s[:, :2] + d * t
            off = rng.choice([2.2, 3.5, 12, 60], (m, 1)) * rho
            P.append(q + nrm * off)
            P.append(q - nrm * off)
        # beside vertices
        a = rng.uniform(0, 2 * np.pi, (m, 1))
        P.append(s[:, :2] + np.hstack([np.cos(a), np.sin(a)]) * rng.choice([3, 10, 40], (m, 1)) * rho)
    P = np.vstack(P)
    # never exactly level with a vertex: the even-odd ray would meet rounding noise there
    return P + rng.uniform(-.02, .02, P.shape) * rho


def compare(got, ref_eval, case, z, box, rho, n=150, what=""):
    """got: directed segments of the printed region (even-odd); ref_eval(P)->(inside,certain)."""
    rng = rng_for([case, z])
    segs = np.vstack(got) if isinstance(got, list) else got
    lo, hi = np.array(box[0][:2]) - 1, np.array(box[1][:2]) + 1
    if len(segs):
        lo = np.minimum(lo, segs.reshape(-1, 2).min(axis=0) - 1)
        hi = np.maximum(hi, segs.reshape(-1, 2).max(axis=0) + 1)
    P = points_for(segs, rng, lo, hi, n, rho)
    return check_points(segs, ref_eval, P, z, what)


def check_points(segs, ref_eval, P, z, what=""):
    ins, cert = ref_eval(P)
    g = geom.parity(segs, P)
    bad = cert & (g != ins)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("%slayer z=%.9g: point (%.9g,%.9g) is %s the model but %s the printed layer (%d of %d certain points differ)"
                        % (what, z, P[i, 0], P[i, 1], "inside" if ins[i] else "outside",
                           "inside" if g[i] else "outside", int(bad.sum()), int(cert.sum())))
    return int(cert.sum()), int((cert & ins).sum())


def ref_segments(nodes, z, max_fn):
    """Section segments of all mesh-like primitives at z (only used to place points)."""
    segs = []

    def rec(ns, M):
        for n in ns:
            f, p = n[0], n[1]
            ch = n[2] if len(n) > 2 else []
            if f in scad.XFORM:
                rec(ch, M @ scad.matrix(f, p))
            elif f in scad.PRIM3 or f == "mesh":
                t = np.asarray(p["tris"], float) if f == "mesh" else scad.prim3_tris(n, max_fn)
                if t is None:
                    r = scad.sph_r(p)
                    a = np.linspace(0, 2 * np.pi, 13)
                    # silhouette-free: section ellipse via quadratic form is overkill; use rings
                    rings = []
                    for k in range(1, 8):
                        zz, rr = r * np.cos(np.pi * k / 8), r * np.sin(np.pi * k / 8)
                        rings.append([(rr * np.cos(b), rr * np.sin(b), zz) for b in a[:-1]])
                    t = np.array(scad.tower(rings), float)
                t = scad.apply(M, t.reshape(-1, 3)).reshape(-1, 3, 3)
                segs.append(geom.tri_section(t, z))
            elif f in ("linear_extrude", "rotate_extrude"):
                pass
            else:
                rec(ch, M)
    rec(nodes, np.eye(4))
    return np.vstack(segs) if segs else np.zeros((0, 4))


FORMATS = {"stl": ("o.stl", []), "stlb": ("o.stb", []), "scad": ("o.scad", [])}


def run_layers(ctx, text, args=(), fmt="stl", files=None, name="m.scad", must=True):
    """Runs hob3l; returns [(z, segs)] of the printed layers."""
    ctx.write(name, text)
    for k, v in (files or {}).items():
        ctx.write(k, v)
    o, extra = FORMATS[fmt]
    r = ctx.hob3l([name, "-o", o] + list(args) + extra, outs=[o])
    if r.rc != 0 or r.files[o] is None:
        if must:
            raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:600]))
        return None
    d = r.files[o]
    if fmt == "stl":
        return out.stl_regions(d)
    if fmt == "stlb":
        return out.stl_regions(d, True)
    return out.scad_regions(d)


def at(regions, z, tol=1e-5):
    s = [g for zz, g in regions if abs(zz - z) < tol]
    return np.vstack(s) if s else np.zeros((0, 4))


def check_model(ctx, case, nodes, regions, zs, max_fn=scad.MAX_FN, rho=6 * PX, npts=150):
    """Compares the layers at heights zs.  Returns (certain points, inside points, layers with area)."""
    box = scad.bbox3(nodes, max_fn)
    if box is None:
        box = np.array([[-1, -1, -1], [1, 1, 1.0]])
    known = [z for z, _ in regions]
    for z in known:
        if not any(abs(z - w) < 1e-5 for w in zs):
            raise Violation("layer printed at z=%.9g, which was not asked for" % z)
    tot = ins = lay = 0
    for z in zs:
        got = at(regions, z)
        ev = scad.Ev(max_fn, rho)
        f = lambda P: ev.group3(nodes, P, z, np.eye(4), rho)
        a, b = compare(got, f, case, z, box, rho, npts)
        tot += a
        ins += b
        # also beside the sections of the primitives (missing material)
        rs = ref_segments(nodes, z, max_fn)
        if len(rs):
            P = points_for(rs, rng_for([case, z, 1]), box[0][:2] - .5, box[1][:2] + .5, npts // 3, rho)
            a, c = check_points(got, f, P, z)
            tot += a
            b += c
        lay += b > 0
    return tot, ins, lay


def same_region(a, b, rng, rho, n=80, what="", near=None):
    """Both are segments of even-odd regions: they must agree except within rho of their outlines.
    near(): the first region at slightly different heights; where these differ (a face is almost level there), nothing is judged.
    Returns the number of sure points inside."""
    both = np.vstack([a, b])
    if not len(both):
        return 0
    q = both.reshape(-1, 2)
    lo, hi = q.min(axis=0) - 1, q.max(axis=0) + 1
    P = np.vstack([points_for(s, rng, lo, hi, n, rho) for s in (a, b) if len(s)])
    ga, gb = geom.parity(a, P), geom.parity(b, P)
    d = ga != gb
    if d.any():
        Q = P[d]
        sure = np.ones(len(Q), bool)
        for s in (a, b):
            if len(s):
                sure &= geom.dist(s, Q) > rho
        if sure.any() and near is not None:
            for s in near():
                if len(s):
                    sure &= (geom.parity(s, Q) == ga[d]) & (geom.dist(s, Q) > rho)
                else:
                    sure &= ~ga[d]
        if sure.any():
            i = Q[int(np.argmax(sure))]
            raise Violation("%spoint (%.9g,%.9g) is %s the first region, but not the second one (%d of %d points)"
                            % (what, i[0], i[1], "inside" if geom.parity(a, i[None, :])[0] else "outside", int(sure.sum()), len(P)))
    return int((ga & gb).sum())
