"""C02: STL layers are closed, consistently oriented slabs at the right heights."""
import numpy as np
from hv import gen, geom, out, scad
from hv.run import Part, Violation

PROP = "C02"
TECHNIQUE = "property-based testing (Hypothesis): random models and slice options, invariants of the printed triangle mesh"
NOTE = "Random search over models and slice options; each printed mesh is judged completely (every triangle and edge)."
RULE = ("A case is a random model (CSG trees, extrusions of 2D CSG trees, piles of touching grid cubes, models far off the origin) with "
        "random min, step, layer count and layer gap.  Both the text and the binary STL output are read.  Every triangle must belong to "
        "one of the requested layers, every directed edge must be balanced, facets must be flat, upright and have the right-hand unit normal, "
        "the volume must be top area times height, and binary must be the float32 image of text.  "
        "Non-trivial: a layer with at least 8 triangles.")


def units(a):
    return a / np.linalg.norm(a, axis=-1, keepdims=True)


def slabs(zs, step, gap):
    h = max(0.0, step - gap)
    return [(z, z + h) for z in zs]


def check_mesh(n, v, zz, scale=8192.0, what="", ntol=1e-6):
    """n, v: normals and triangles (mm); zz: [(bottom, top)].  Returns [(z, top segs)]"""
    tol = 1e-6
    h = zz[0][1] - zz[0][0]
    if len(v) == 0:
        return []
    zmin, zmax = v[:, :, 2].min(axis=1), v[:, :, 2].max(axis=1)
    flat = zmax - zmin < tol
    d = np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0])
    l = np.linalg.norm(d, axis=1)
    r2 = np.rint(v[:, :, :2] * scale).astype(np.int64)
    a2 = (r2[:, 1, 0] - r2[:, 0, 0]) * (r2[:, 2, 1] - r2[:, 0, 1]) - (r2[:, 1, 1] - r2[:, 0, 1]) * (r2[:, 2, 0] - r2[:, 0, 0])
    if np.abs(v[:, :, :2] * scale - r2).max() > .01:
        raise Violation("%sa vertex is not on the grid" % what)
    if (a2[flat] == 0).any() or (l == 0).any():
        i = int(np.argmax((flat & (a2 == 0)) | (l == 0)))
        raise Violation("%striangle without area: %s" % (what, v[i].tolist()))
    if h > tol:
        # normals: right-hand rule, unit length
        e = np.abs(units(d) - n).max(axis=1)
        if e.max() > ntol:
            i = int(np.argmax(e))
            raise Violation("%sfacet %s has normal %s, expected %s" % (what, v[i].tolist(), n[i].tolist(), units(d)[i].tolist()))
    up = flat & (d[:, 2] > 0)
    down = flat & (d[:, 2] < 0)
    done = np.zeros(len(v), bool)
    regs = []
    for z0, z1 in zz:
        bot = down & (np.abs(zmin - z0) < tol)
        if h < tol:
            if bot.any():
                regs.append((z0, out.tri_segs(v[bot][:, ::-1, :2])))
            done |= bot
            continue
        top = up & (np.abs(zmax - z1) < tol)
        side = ~flat & (np.abs(zmin - z0) < tol) & (np.abs(zmax - z1) < tol)
        m = bot | top | side
        if (done & m).any():
            raise Violation("ambiguous layers")
        done |= m
        if not m.any():
            continue
        q = np.where(np.abs(v[m][:, :, 2] - z0) < tol, 0, np.where(np.abs(v[m][:, :, 2] - z1) < tol, 1, -1))
        if (q < 0).any():
            raise Violation("%slayer z=%.9g: a vertex lies between bottom and top" % (what, z0))
        P = np.concatenate([r2[m], q[:, :, None]], axis=2)
        E = np.concatenate([np.concatenate([P[:, i], P[:, (i + 1) % 3]], axis=1) for i in range(3)])
        rev = E[:, [3, 4, 5, 0, 1, 2]]
        u, c = np.unique(E, axis=0, return_counts=True)
        u2, c2 = np.unique(rev, axis=0, return_counts=True)
        if u.shape != u2.shape or (u != u2).any() or (c != c2).any():
            s = {tuple(x): k for x, k in zip(u.tolist(), c.tolist())}
            for x, k in zip(u2.tolist(), c2.tolist()):
                if s.get(tuple(x), 0) != k:
                    raise Violation("%slayer z=%.9g is not closed: edge %s is used %d times, its opposite %d times"
                                    % (what, z0, x, s.get(tuple(x), 0), k))
            raise Violation("%slayer z=%.9g is not closed" % (what, z0))
        hor = u[:, 2] == u[:, 5]
        if (c[hor] > 1).any():
            raise Violation("%slayer z=%.9g: a horizontal edge is used twice in the same direction" % (what, z0))
        t, b = r2[top], r2[bot]
        at = int(np.abs(a2[top]).sum())
        ab = int(np.abs(a2[bot]).sum())
        vol = float(np.einsum("ij,ij->i", v[m][:, 0] - v[m][0, 0], np.cross(v[m][:, 1] - v[m][0, 0], v[m][:, 2] - v[m][0, 0])).sum()) / 6
        want = at / 2 / scale ** 2 * (z1 - z0)
        if at != ab:
            raise Violation("%slayer z=%.9g: top area %.9g, bottom area %.9g" % (what, z0, at / 2 / scale ** 2, ab / 2 / scale ** 2))
        if abs(vol - want) > 1e-6 * (1 + want):
            raise Violation("%slayer z=%.9g: volume %.9g, but area times height is %.9g" % (what, z0, vol, want))
        # sides stand on the outline: their normals are horizontal by the check above; outward by closedness
        regs.append((z0, out.tri_segs(v[top][:, :, :2])))
    if not done.all():
        i = int(np.argmax(~done))
        raise Violation("%striangle %s belongs to no layer (heights %s, thickness %.9g)" % (what, v[i].tolist(), [z[0] for z in zz[:6]], h))
    return regs


def rows(n, v):
    a = np.concatenate([n, v.reshape(len(v), 9)], axis=1).astype(np.float32) if len(v) else np.zeros((0, 12), np.float32)
    a = a + np.float32(0)
    return a[np.lexsort(a.T[::-1])]


def run(case, ctx):
    a, zs = gen.outargs(case)
    ctx.write("m.scad", scad.program(case["nodes"]))
    fs = ["o.stl", "o.stb"]
    res = []
    for o in fs:
        r = ctx.hob3l(["m.scad", "-o", o] + a, outs=[o])
        if r.rc != 0 or r.files[o] is None:
            raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:600]))
        res.append(r.files[o])
    n, v = out.stl_text(res[0])
    nb, vb = out.stl_bin(res[1])
    gap = 0.01 if case["gap"] is None else case["gap"]
    regs = check_mesh(n, v, slabs(zs, case["step"], gap))
    A, B = rows(n, v), rows(nb, vb)
    if A.shape != B.shape:
        raise Violation("text STL has %d facets, binary STL %d" % (len(A), len(B)))
    if not (A == B).all():
        i = int(np.argmax((A != B).any(axis=1)))
        raise Violation("binary STL differs from text STL: %s / %s" % (A[i].tolist(), B[i].tolist()))
    ctx.nt(len(v) >= 8)
    ctx.label("layers-%d" % len(regs), "gap-default" if case["gap"] is None else "gap>=step" if gap >= case["step"] else "gap")


PARTS = [Part("mesh", gen.outmodel, run, quick=5000)]
