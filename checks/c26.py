"""C26: polyhedra of any shape, sliced at any height."""
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, geom, mesh, scad
from hv.run import Part, Violation, Discard

PROP = "C26"
TECHNIQUE = ("property-based testing (Hypothesis): generated closed meshes (voxel bodies with merged concave faces, displaced meshes, height fields, rings, "
             "cavities, several components) against exact even-odd sections; damaged meshes must be rejected")
NOTE = "Random search; in the part 'level' all coordinates lie on the grid and slices go exactly through vertices, edges and horizontal faces."
RULE = ("A case is a closed polyhedron with an affine transformation and slice heights.  Each layer is compared with the even-odd "
        "section of its triangles just above the slice height at points beside every edge and at random; the total area and outline "
        "are thereby pinned.  In part 'reject' a valid mesh is damaged.  Non-trivial: material at a slice height; in 'reject': always.")
ASSUMPTIONS = ["points nearer than 3 grid units to the section's edges are not judged"]


def spell(p, tri):
    if tri == 1 and all(len(f) == 3 for f in p["faces"]):
        return ["polyhedron", {"points": p["points"], "triangles": p["faces"]}]
    return ["polyhedron", {"points": p["points"], "faces": p["faces"]}]


@st.composite
def level(draw):
    p = draw(mesh.poly())
    return dict(poly=p, m=draw(mesh.exact_map()) if draw(st.booleans()) else None, k=draw(st.integers(0, 1)),
                pick=[draw(st.integers(0, 1000)) for _ in range(3)], fmt=draw(st.sampled_from(["stl", "scad"])))


@st.composite
def general(draw):
    p = draw(mesh.poly())
    n = draw(gen.xform(gen.xform(st.just([["X"]])).map(lambda n: [n]) if draw(st.booleans()) else st.just([["X"]])))
    return dict(poly=p, wrap=n, k=draw(st.integers(0, 1)), t=[draw(st.integers(1, 99)) / 100 for _ in range(2)],
                fmt=draw(st.sampled_from(["stl", "scad"])))


def compare(case, got, tris, z, rho):
    segs = geom.tri_section(tris, z)
    rng = geo.rng_for([case, z])
    lo, hi = tris.reshape(-1, 3).min(axis=0)[:2] - 1, tris.reshape(-1, 3).max(axis=0)[:2] + 1

    def ev(P):
        if not len(segs):
            return np.zeros(len(P), bool), np.ones(len(P), bool)
        return geom.parity(segs, P), geom.dist(segs, P) > rho
    ins = 0
    for s in (segs, got):
        P = geo.points_for(s, rng, lo, hi, 120, rho)
        ins += geo.check_points(got, ev, P, z)[1]
    return ins


def run_level(case, ctx):
    p = case["poly"]
    node = spell(p, case["k"])
    t = np.array(mesh.tris(p), float)
    if case["m"]:
        M = np.vstack([case["m"], [0, 0, 0, 1]])
        t = scad.apply(M, t.reshape(-1, 3)).reshape(-1, 3, 3)
        node = ["multmatrix", {"m": case["m"]}, [node]]
    hs = sorted({float(z) for z in t[:, :, 2].ravel()})
    if any(round(z * 8192) != z * 8192 for z in hs):
        raise Discard("off grid")
    ins = 0
    text = scad.program([node])
    for z in sorted({hs[k % len(hs)] for k in case["pick"]}):
        reg = geo.run_layers(ctx, text, ["-q", "--z=%.17g" % z], case["fmt"])
        ins += compare(case, geo.at(reg, z), t, z, 3 * scad.PX)
    ctx.nt(ins > 0)
    ctx.label("faces-%d" % min(8, max(map(len, p["faces"]))), "pts-%d" % (len(p["points"]) // 20 * 20))


def run_general(case, ctx):
    p = case["poly"]
    M = np.eye(4)
    node = spell(p, case["k"])

    def rec(n):
        nonlocal M
        if n[0] == "X":
            return node
        M = M @ scad.matrix(n[0], n[1])
        return [n[0], n[1], [rec(c) for c in n[2]]]
    n = rec(case["wrap"])
    t = scad.apply(M, np.array(mesh.tris(p), float).reshape(-1, 3)).reshape(-1, 3, 3)
    lo, hi = t[:, :, 2].min(), t[:, :, 2].max()
    if hi - lo < .01 or abs(t).max() > 5000:
        raise Discard("flat or huge")
    ins = 0
    text = scad.program([n])
    hs = np.unique(t[:, :, 2])
    # grid rounding of flat faces moves the section; widen by the worst shift of a cut point
    e = t[:, [1, 2, 0]] - t
    l2 = np.linalg.norm(e[:, :, :2], axis=2)
    for k in case["t"]:
        z = lo + (hi - lo) * k
        if np.abs(hs - z).min() < 4 * scad.PX:
            continue
        crossing = ((t[:, :, 2] > z) != (t[:, [1, 2, 0], 2] > z))
        slope = (l2 / np.maximum(abs(e[:, :, 2]), 1e-9))[crossing]
        if len(slope) and slope.max() > 200:
            continue
        rho = scad.PX * (3 + (2 * slope.max() if len(slope) else 0))
        reg = geo.run_layers(ctx, text, ["-q", "--z=%.17g" % z], case["fmt"])
        ins += compare(case, geo.at(reg, z), t, z, rho)
    ctx.nt(ins > 0)
    ctx.label("mirrored" if np.linalg.det(M) < 0 else "not-mirrored")


# ------------------------------------------------------------------ damages
@st.composite
def damages(draw):
    p = draw(mesh.poly())
    return dict(poly=p, how=draw(st.sampled_from(["missing", "twice", "range", "negative", "dup", "short", "coord", "float", "nofaces"])),
                i=draw(st.integers(0, 10 ** 6)), j=draw(st.integers(0, 10 ** 6)), t=draw(st.integers(5, 95)) / 100)


def run_reject(case, ctx):
    p, how = case["poly"], case["how"]
    P, F = [list(x) for x in p["points"]], [list(x) for x in p["faces"]]
    i = case["i"] % len(F)
    j = case["j"] % len(F[i])
    args = ["-q"]
    if how in ("missing", "twice"):
        if len(F) < 5:
            raise Discard("small")
        # a face the layer passes through
        fs = []
        for k, f in enumerate(F):
            zs = [P[x][2] for x in f]
            if max(zs) - min(zs) > .2:
                fs.append(k)
        if not fs:
            raise Discard("no such face")
        i = fs[case["i"] % len(fs)]
        zs = [P[x][2] for x in F[i]]
        z = min(zs) + (max(zs) - min(zs)) * case["t"]
        if min(abs(q[2] - z) for q in P) < .002:
            z += .0041
        t = np.array([[P[F[i][0]], P[F[i][k]], P[F[i][k + 1]]] for k in range(1, len(F[i]) - 1)], float)
        s = geom.tri_section(t, z)
        s = np.round(s * 8192)
        # what is left of the face's cut line after cancelling must have some length
        if not len(s):
            raise Discard("not cut")
        pts = {}
        for a in s:
            for q in (tuple(a[:2]), tuple(a[2:])):
                pts[q] = pts.get(q, 0) + 1
        ends = [q for q in pts if pts[q] % 2]
        if len(ends) < 2 or max(abs(a[0] - b[0]) + abs(a[1] - b[1]) for a in ends for b in ends) < 100:
            raise Discard("short cut")
        if how == "missing":
            del F[i]
        else:
            F.append(F[i])
        args.append("--z=%.17g" % z)
    elif how == "range":
        F[i][j] = len(P) + case["j"] % 7 * 1000003
    elif how == "negative":
        F[i][j] = -1 - case["j"] % 3
    elif how == "dup":
        P.insert(case["j"] % (len(P) + 1), list(P[case["i"] % len(P)]))
        k = P.index(P[case["j"] % len(P)])
    elif how == "short":
        F[i] = F[i][:2]
    elif how == "coord":
        k = case["j"] % len(P)
        P[k] = P[k][:2] if case["i"] & 1 else P[k] + [1]
    elif how == "float":
        F[i][j] = F[i][j] + .5
    elif how == "nofaces":
        F = F[:3] if case["i"] & 1 else []
    node = ["polyhedron", {"points": P, "faces": F}]
    ctx.write("m.scad", scad.program([node]))
    r = ctx.hob3l(["m.scad", "-o", "o.stl"] + args, outs=["o.stl"])
    if r.rc != 1 or b"rror" not in r.err:
        raise Violation("polyhedron damaged by '%s' is not rejected: status %d, message %r" % (how, r.rc, r.err[:200]))
    ctx.nt(True)
    ctx.label("reject-" + how)


PARTS = [Part("level", level, run_level, quick=7000),
         Part("general", general, run_general, quick=6000),
         Part("reject", damages, run_reject, quick=4000)]
