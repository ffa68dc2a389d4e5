"""C12: linear_extrude and rotate_extrude."""
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, geom, scad
from hv.run import Part, Violation, Discard

PROP = "C12"
TECHNIQUE = "property-based testing (Hypothesis): extrusions of random 2D trees against a reference evaluator"
NOTE = ("Random search; points within 6 grid units of a surface (pulled back through the extrusion) are not judged, nor is the neighbourhood "
        "of the rotation axis.  Twisted sides between the slices are judged for simple outlines only, at slice heights for all.")
RULE = ("A case is an extrusion with random parameters over a random 2D CSG tree, possibly transformed, sliced at 1-3 heights inside and "
        "outside of its range; or invalid parameters.  Non-trivial: a layer has certain points inside, or a rejection.")
ASSUMPTIONS = ["twist per slice at most 60 degrees"]


@st.composite
def lin_params(draw, cone=True):
    p = {"height": draw(gen.length(.5, 8))}
    k = draw(st.integers(0, 3))
    if k == 1: p["center"] = draw(st.booleans())
    if k == 2: p["slices"] = draw(st.one_of(*[st.integers(1, 7)] * 6, st.integers(8, 70)))
    if k == 3: p["convexity"], p["$fn"] = draw(st.integers(1, 9)), draw(st.integers(0, 9))
    sc = st.integers(1, 24).map(lambda i: i / 8)
    k = draw(st.integers(0, 5))
    if k == 1: p["scale"] = draw(sc)
    if k == 2: p["scale"] = [draw(sc), draw(sc)]
    if k == 3 and cone: p["scale"] = draw(st.sampled_from([0, [0, 0]]))
    if draw(st.integers(0, 5)) == 0: p["center"] = True
    return p


def positional(p, draw):
    if draw(st.integers(0, 2)) == 0:
        p = dict(p)
        h = p.pop("height")
        return dict({"_": [h]}, **p)
    return p


def zpos(lo=-10, hi=110):
    return st.lists(st.integers(lo, hi).map(lambda i: (i + .37) / 100.74), min_size=1, max_size=3, unique=True)


def uniform(n):
    s = n[1].get("scale", 1)
    return not isinstance(s, list) or s[0] == s[1]


def around(draw, n):
    # sides are not planar with different scales, unless twisted (split): judged for horizontal sections only
    k = draw(st.integers(0, 4)) if uniform(n) or n[1].get("twist") else 1
    if k == 0:
        return draw(gen.xform(st.just([n])))
    if k == 1:
        return ["translate", {"v": [draw(gen.coord()), draw(gen.coord()), draw(gen.coord())]}, [n]]
    return n


@st.composite
def lin(draw):
    p = positional(draw(lin_params()), draw)
    n = ["linear_extrude", p, [draw(gen.csg2(draw(st.integers(0, 2)))) for _ in range(draw(st.sampled_from([1, 1, 2])))]
         if draw(st.integers(0, 19)) else [draw(gen.big2())]]
    return dict(node=around(draw, n), t=draw(zpos()), fmt=draw(st.sampled_from(["scad", "stl"])))


def unclip(n):
    if len(n) < 3:
        return n
    if n[0] == "intersection" and n[2][0][0] == "translate" and n[2][0][2][0] == ["square", {"size": [60, 60]}]:
        return n[2][1]
    return [n[0], n[1], [unclip(c) for c in n[2]]]


def slice_at(ctx, case, node, ts, rho=6 * scad.PX, npts=160):
    box = scad.bbox3([unclip(node)])
    if box is None:
        ctx.nt(False)
        return 0
    lo, hi = box[0][2], box[1][2]
    if hi - lo < .05 or np.abs(box).max() > 5000:
        ctx.nt(False)
        ctx.label("too-flat")
        return 0
    zs = sorted(lo + (hi - lo) * t for t in ts)
    ins = 0
    for z in zs:
        r = geo.run_layers(ctx, scad.program([node]), ["-q", "--z=%.17g" % z], case.get("fmt", "scad"))
        a, b, c = geo.check_model(ctx, case, [node], r, [z], rho=rho, npts=npts)
        ins += b
    return ins


def run_any(case, ctx):
    ins = slice_at(ctx, case, case["node"], case["t"])
    ctx.nt(ins > 0)
    n = [x for x in scad.walk([case["node"]]) if "extrude" in x[0]][0]
    ctx.label(n[0], *(k for k in ("scale", "twist", "slices", "center", "angle") if k in n[1]))


# ------------------------------------------------------------- twisted
@st.composite
def convexish(draw):
    """A polygon without collinear vertices, around or beside the origin."""
    import math
    k = draw(st.integers(0, 3))
    if k == 0:
        return ["square", {"size": [draw(gen.length(.5, 4)), draw(gen.length(.5, 4))], "center": draw(st.booleans())}]
    if k == 1:
        return ["circle", {"r": draw(gen.length(.5, 4)), "$fn": draw(st.integers(3, 9))}]
    n = draw(st.integers(3, 7))
    pts = []
    for i in range(n):
        r = draw(st.integers(6, 40)) / 10
        a = 2 * math.pi * i / n
        pts.append([round(r * math.cos(a) + .0, 3), round(r * math.sin(a), 3)])
    for i in range(n):
        a, b, c = (np.array(pts[(i + d) % n]) for d in (-1, 0, 1))
        u, v = b - a, c - b
        if abs(u[0] * v[1] - u[1] * v[0]) < .05:
            return ["circle", {"r": 2, "$fn": n}]
    return ["polygon", {"points": pts[::draw(st.sampled_from([1, -1]))]}]


@st.composite
def twist(draw):
    p = draw(lin_params())
    p["slices"] = draw(st.one_of(*[st.integers(1, 6)] * 9, st.integers(7, 40)))
    if p["slices"] > 6:
        p["height"] = max(p["height"], .25 * p["slices"])       # almost level sides are not judged exactly enough
    p["twist"] = draw(st.one_of(st.integers(-60, 60), st.sampled_from([30, 45, 60, -30, -60, -45]))) * p["slices"]
    kids = [draw(convexish())]
    if draw(st.integers(0, 4)) == 0:
        kids = [["translate", {"v": [draw(gen.coord(-4, 4)), draw(gen.coord(-4, 4))]}, kids]]
    elif draw(st.integers(0, 3)) == 0:
        kids = [["translate", {"v": [5, draw(gen.coord(-2, 2))]}, kids], ["translate", {"v": [-5, draw(gen.coord(-2, 2))]}, [draw(convexish())]]]
    n = ["linear_extrude", positional(p, draw), kids]
    return dict(node=around(draw, n), t=draw(zpos()))


@st.composite
def levels(draw):
    p = draw(lin_params(False))
    p["slices"] = draw(st.integers(1, 5))
    p["twist"] = draw(st.one_of(st.integers(-60, 60), st.sampled_from([30, 45, 60, -30, -60, -45]))) * p["slices"]
    p["height"] = draw(st.integers(1, 5)) * p["slices"]
    n = ["linear_extrude", p, [draw(gen.csg2(2))]]
    return dict(node=n, k=draw(st.integers(0, p["slices"] - 1)))


def run_levels(case, ctx):
    """At the height of a slice the section is the outline turned and scaled for that height."""
    n = case["node"]
    p, kids = n[1], n[2]
    h, z0, slices, tw, sx, sy = scad.linext_par(p)
    t = case["k"] / slices
    z = z0 + h * t
    M = [["scale", {"v": [1 + (sx - 1) * t, 1 + (sy - 1) * t, 1]}, [["rotate", {"a": [0, 0, -tw * t]}, kids]]]]
    # order: rotated first, then scaled
    ref = [["translate", {"v": [0, 0, z - .5]}, [["linear_extrude", {"height": 1}, M]]]]
    r = geo.run_layers(ctx, scad.program([n]), ["-q", "--z=%.17g" % z], "scad")
    rr = scad.bbox3(ref)
    slope = max(1, abs(tw) / slices / h * 8 * slices * .02, )
    tot, ins, lay = geo.check_model(ctx, case, ref, r, [z], rho=8 * scad.PX)
    ctx.nt(ins > 0)
    ctx.label("level", "slices-%d" % slices)


# ------------------------------------------------------------- rotation
@st.composite
def rot(draw):
    p = {}
    k = draw(st.integers(0, 3))
    if k: p["angle"] = draw(st.one_of(st.sampled_from([30, 45, 60, 90, 120, 135, 180, 270, 300, 330, 360, 400]), st.integers(5, 359),
                                      st.integers(100, 3599).map(lambda i: i / 10)))
    k = draw(st.integers(0, 6))
    if k: p["$fn"] = draw(st.one_of(*[st.integers(1, 24)] * 7, st.integers(25, 100))) if k > 3 else draw(st.integers(3, 10))
    kids = [draw(gen.csg2(draw(st.integers(0, 2)))) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    off = draw(st.sampled_from([0, 0, .5, 1, 2]))
    neg = draw(st.integers(0, 3)) == 0
    if draw(st.booleans()):
        kids = [["translate", {"v": [draw(st.integers(-2, 6)), 0]}, kids]]
    clip = ["translate", {"v": [off, -30] if not neg else [-60 - off, -30]}, [["square", {"size": [60, 60]}]]]
    n = ["rotate_extrude", p, [["intersection", {}, [clip, ["union", {}, kids]]]]]
    return dict(node=around(draw, n), t=draw(zpos()), fmt=draw(st.sampled_from(["scad", "stl"])))


@st.composite
def rot_simple(draw):
    """Profiles of plain primitives, not clipped."""
    p = {}
    k = draw(st.integers(0, 2))
    if k: p["angle"] = draw(st.one_of(st.sampled_from([30, 45, 60, 90, 120, 180, 270, 360]), st.integers(5, 359)))
    if draw(st.integers(0, 5)): p["$fn"] = draw(st.one_of(*[st.integers(1, 16)] * 9, st.integers(17, 100)))
    k = draw(st.integers(0, 3))
    x = draw(st.sampled_from([0, 0, .5, 1, 2.25]))
    if k == 0:
        kid = ["translate", {"v": [x, draw(gen.coord(-2, 2))]}, [["square", {"size": [draw(gen.length(.5, 4)), draw(gen.length(.5, 4))]}]]]
    elif k == 1:
        r = draw(gen.length(.5, 3))
        kid = ["translate", {"v": [r + x, 0]}, [["circle", {"r": r, "$fn": draw(st.integers(3, 9))}]]]
    elif k == 2:
        kid = ["translate", {"v": [x, 0]}, [["polygon", {"points": [[0, 0], [2, 1], [0, 2], [1, 1]]}]]]
    else:
        kid = ["translate", {"v": [x, 0]}, [["difference", {}, [["square", {"size": [4, 4]}],
                                                                   ["translate", {"v": [1, 1]}, [["square", {"size": draw(st.integers(1, 3))}]]]]]]]
    if draw(st.integers(0, 3)) == 0:
        kid = ["mirror", {"v": [1, 0]}, [kid]]
    return dict(node=around(draw, ["rotate_extrude", p, [kid]]), t=draw(zpos()))


# ----------------------------------------------------------------- rejects
@st.composite
def rejects(draw):
    k = draw(st.integers(0, 11))
    sq = ["square", {"size": 2}]
    L = draw(gen.length(.5, 4))
    if k == 0: n = ["linear_extrude", {"height": 0}, [sq]]
    elif k == 1: n = ["linear_extrude", {"height": 2, "slices": 0}, [sq]]
    elif k == 2: n = ["linear_extrude", {"height": L, "scale": [0, L]}, [sq]]
    elif k == 3: n = ["linear_extrude", {"height": L, "scale": [L, 0]}, [sq]]
    elif k == 4: n = ["linear_extrude", {"height": L, "scale": draw(st.sampled_from([-1, [-1, 1], [1, -1], [-2, -2]]))}, [sq]]
    elif k == 5: n = ["rotate_extrude", {"angle": draw(st.sampled_from([0, -30]))}, [sq]]
    elif k == 6: n = ["rotate_extrude", {}, [["translate", {"v": [-draw(st.integers(1, 7)) / 4, 0]}, [sq]]]]
    elif k == 7: n = ["rotate_extrude", {"angle": 90, "$fn": 4}, [["square", {"size": L, "center": True}]]]
    elif k == 8: n = ["linear_extrude", {}, [sq]]
    elif k == 9: n = ["linear_extrude", {"height": draw(st.sampled_from(["a", [1], [1, 2]]))}, [sq]]
    elif k == 10: n = ["linear_extrude", {"height": L, "scale": draw(st.sampled_from(["a", [1], [1, 2, 3]]))}, [sq]]
    else: n = ["linear_extrude", {"height": L}, [["cube", {"size": L}]]]
    return dict(node=n)


def run_rej(case, ctx):
    ctx.write("m.scad", scad.program([case["node"]]))
    r = ctx.hob3l(["m.scad", "-q", "-o", "o.stl"], outs=["o.stl"])
    if r.rc != 1 or not r.err.strip():
        raise Violation("invalid %s is not rejected with an error: status %d, %r" % (scad.text(case["node"]), r.rc, r.err[:300]))
    ctx.nt(True)
    ctx.label("reject-" + case["node"][0])


PARTS = [Part("linear", lin, run_any, quick=5000),
         Part("twist", twist, run_any, quick=5000),
         Part("levels", levels, run_levels, quick=2500),
         Part("rotate", rot, run_any, quick=5000),
         Part("rotate-simple", rot_simple, run_any, quick=3000),
         Part("reject", rejects, run_rej, quick=400)]
