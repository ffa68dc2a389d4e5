"""C13: 2D subtrees."""
import hypothesis.strategies as st
from hv import cells, gen, geo, scad
from hv.run import Part

PROP = "C13"
TECHNIQUE = "property-based testing (Hypothesis): random 2D CSG trees, extruded, against a point-membership reference evaluator"
NOTE = "Random search; points within 6 grid units of an outline are not judged."
RULE = ("A case is a linear_extrude of a random 2D tree (square, circle, polygon with several paths, transformations, union, difference, "
        "intersection, projection(cut=true) of 3D trees, hull), depth <= 4, possibly combined with other 3D objects.  "
        "Part 'big': up to 144 objects or paths, polygons of 300 points.  Part 'cells': trees of up to hundreds of rectangles on a lattice, each unit square is judged.  "
        "Non-trivial: some certain point is inside.")
ASSUMPTIONS = ["reference evaluator written from doc/scadformat.md"]


@st.composite
def trees(draw, depth, leaf):
    kids = [draw(gen.csg2(depth, leaf())) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    n = ["linear_extrude", {"height": draw(st.sampled_from([1, 2, .5]))}, kids]
    k = draw(st.integers(0, 5))
    if k == 0:
        n = draw(gen.xform(st.just([n])))
    nodes = [n]
    if k == 1:
        nodes = [["difference", {}, [n, draw(gen.csg3(0))]]]
    if k == 2:
        nodes = [["intersection", {}, [draw(gen.csg3(0)), n]]]
    return dict(nodes=nodes, t=draw(st.integers(3, 97)) / 100, fmt=draw(st.sampled_from(["scad", "stl"])))


@st.composite
def bigs(draw):
    n = ["linear_extrude", {"height": draw(st.sampled_from([1, 2, .5]))}, [draw(gen.big2())]]
    if draw(st.integers(0, 3)) == 0:
        n = draw(gen.xform(st.just([n])))
    return dict(nodes=[n], t=draw(st.integers(3, 97)) / 100, fmt=draw(st.sampled_from(["scad", "stl"])))


def run(case, ctx):
    nodes = case["nodes"]
    e = [x for x in scad.walk(nodes) if x[0] == "linear_extrude"]
    top = nodes
    while top[0][0] in ("difference", "intersection"):
        top = [c for c in top[0][2] if any(x[0] == "linear_extrude" for x in scad.walk([c]))]
    box = scad.bbox3(top)
    if box is None or box[1][2] - box[0][2] < .05 or abs(box).max() > 5000:
        return ctx.label("flat")
    z = box[0][2] + (box[1][2] - box[0][2]) * case["t"]
    r = geo.run_layers(ctx, scad.program(nodes), ["-q", "--z=%.17g" % z], case["fmt"])
    tot, ins, lay = geo.check_model(ctx, case, nodes, r, [z], npts=200)
    ctx.nt(ins > 0)
    kinds = {x[0] for x in scad.walk(e)}
    ctx.label("inside" if ins else "all-empty", *(k for k in ("projection", "hull", "polygon", "difference", "intersection") if k in kinds))


PARTS = [Part("big", bigs, run, quick=500),
         Part("plain", lambda: trees(3, gen.prim2), run, quick=5000),
         Part("nested", lambda: trees(2, gen.leaf2x), run, quick=5000),
         Part("cells", lambda: cells.cases(2), lambda case, ctx: cells.run(case, ctx, 2), quick=8000)]
