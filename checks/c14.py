"""C14: hull."""
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, geom, out, scad
from hv.run import Part, Violation

PROP = "C14"
TECHNIQUE = "property-based testing (Hypothesis): hull against a reference hull and against the hull of the tool's own child region"
NOTE = "Random search; comparison of vertices within 3 grid units, so slimmer features of the hull are not judged."
RULE = ("A case is hull() of random 2D children (collinear, duplicate, nested, holed, far apart), at any depth of transformations, extruded.  "
        "Non-trivial: at least two children or a non-convex child, and the hull has area.")
ASSUMPTIONS = ["children by themselves are printed correctly (C13)"]


def layer(ctx, kids, case):
    text = scad.program([["linear_extrude", {"height": 1}, kids]])
    ctx.write("m.scad", text)
    r = ctx.hob3l(["m.scad", "-q", "--z=.5", "--dump-csg2"])
    if r.rc:
        raise Violation("valid model is rejected: status %d, %s" % (r.rc, r.err.decode("latin1")[:400]))
    reg = out.scad_regions(r.out)
    return np.vstack([s for _, s in reg]) if reg else np.zeros((0, 4))


@st.composite
def spots(draw):
    """Small things at lattice points: many collinear vertices."""
    ch = []
    for _ in range(draw(st.integers(1, 6))):
        x, y = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
        k = draw(st.integers(0, 2))
        o = ["square", {"size": draw(st.sampled_from([1, 1, 2, [1, 2]])), "center": draw(st.booleans())}] if k else \
            ["circle", {"r": draw(st.sampled_from([.5, 1])), "$fn": draw(st.integers(3, 8))}]
        ch.append(["translate", {"v": [x, y]}, [o]])
    return ch


@st.composite
def swarm(draw):
    """Many small things all over the place."""
    m = draw(st.sampled_from([3, 20, 200]))
    xy = draw(st.lists(st.tuples(st.integers(-m, m), st.integers(-m, m)), min_size=8, max_size=60))
    w = draw(st.sampled_from([.25, 1, 3]))
    n = draw(st.integers(3, 5))
    return [["translate", {"v": [x, y]}, [["square", {"size": w}] if (i + n) % n else ["circle", {"r": w, "$fn": n}]]] for i, (x, y) in enumerate(xy)]


@st.composite
def cases(draw):
    k = draw(st.integers(0, 3))
    b = draw(st.integers(0, 15))
    if b == 0:
        ch = [draw(gen.big2())]
    elif b < 3:
        ch = draw(swarm())
    elif k == 0:
        ch = draw(spots())
    elif k == 1:
        ch = [draw(gen.hull_prims())] + [draw(gen.csg2(1)) for _ in range(draw(st.integers(0, 2)))]
    else:
        ch = [draw(gen.csg2(draw(st.integers(0, 3)))) for _ in range(draw(st.integers(1, 3)))]
    x = []
    for _ in range(draw(st.integers(0, 2))):
        x.append(draw(gen.xform(st.just([]), three=False))[:2])
    return dict(kids=ch, x=x)


def wrap(x, kids):
    for f, p in x:
        kids = [[f, p, kids]]
    return kids


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def run(case, ctx):
    kids = case["kids"]
    ch = layer(ctx, kids, case)
    hu = layer(ctx, wrap(case["x"], [["hull", {}, kids]]), case)
    ctx.label("x-%d" % len(case["x"]))
    if len(ch) == 0:
        # the children's own region may vanish in the grid
        return ctx.label("empty")
    tol = 3 * scad.PX
    want = np.array(geom.convex_hull([tuple(v) for v in ch.reshape(-1, 2)]))
    M = np.eye(4)
    for f, p in reversed(case["x"]):
        M = M @ scad.matrix(f, p)
    want = [tuple(v) for v in want @ M[:2, :2].T + M[:2, 3]]
    if len(hu) == 0:
        w = want
        s = geom.path_segs([w]) if len(w) > 2 else np.zeros((0, 4))
        if len(w) > 2 and abs(geom.area(s)) > 40 * scad.PX:
            raise Violation("hull of a region with area is empty")
        return ctx.label("hull-empty")
    got = geom.convex_hull([tuple(v) for v in hu.reshape(-1, 2)])
    sw, sg = geom.path_segs([want]), geom.path_segs([got])

    # transformations may magnify the rounding of the inner region
    k = max(1.0, np.linalg.norm(M[:2, :2], 2))
    tol *= k

    def beyond(pts, segs, poly):
        pts = np.array(pts)
        ins = geom.parity(segs, pts)
        d = geom.dist(segs, pts)
        return pts[(~ins) & (d > tol)]
    for a, b, w in ((want, sg, "misses"), (got, sw, "adds")):
        o = beyond(a, b, None)
        if len(o):
            raise Violation("hull %s point %s" % (w, o[0].tolist()))
    # filled: every point inside the convex polygon belongs to the printed region
    rng = geo.rng_for(case)
    lo, hi = sg.reshape(-1, 2).min(axis=0), sg.reshape(-1, 2).max(axis=0)
    P = np.vstack([rng.uniform(lo, hi, (80, 2)), geo.points_for(hu, rng, lo, hi, 60, tol)])
    far = geom.dist(sg, P) > tol
    bad = far & (geom.parity(hu, P) != geom.parity(sg, P))
    if bad.any():
        raise Violation("hull is not convex at %s" % P[np.argmax(bad)].tolist())
    ctx.nt(abs(geom.area(sg)) > abs(geom.area(ch)) * abs(np.linalg.det(M[:2, :2])) + 1e-3)
    ctx.label("children-%d" % min(3, len(kids)), "more-area" if abs(geom.area(sg)) > abs(geom.area(ch)) * abs(np.linalg.det(M[:2, :2])) + 1e-3 else "convex-already")


@st.composite
def ref_cases(draw):
    n = draw(gen.hull_prims())
    for _ in range(draw(st.integers(0, 2))):
        n = draw(gen.xform(st.just([n]), three=False))
    return dict(node=["linear_extrude", {"height": 1}, [n]])


def run_ref(case, ctx):
    n = case["node"]
    r = geo.run_layers(ctx, scad.program([n]), ["-q", "--z=.5"], "scad")
    tot, ins, lay = geo.check_model(ctx, case, [n], r, [.5], npts=200)
    ctx.nt(ins > 0)
    ctx.label("ref")


PARTS = [Part("region", cases, run, quick=6000),
         Part("reference", ref_cases, run_ref, quick=6000)]
