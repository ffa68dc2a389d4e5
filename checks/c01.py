"""C01: every printed layer is the CSG cross-section of the model."""
import hypothesis.strategies as st
from hv import cells, gen, geo, scad
from hv.run import Part, Violation, Discard

PROP = "C01"
TECHNIQUE = "property-based testing (Hypothesis): random CSG trees against a point-membership reference evaluator"
NOTE = ("Randomised search over generated models; every layer printed is compared with an independent evaluator at sampled points, "
        "not proved.  Points within 6 grid units of any surface are not judged.")
RULE = ("A case is a random CSG tree (cube, cylinder, sphere, polyhedron; transformations; union, difference, "
        "intersection, depth<=4) with slice options, printed as STL or layered SCAD.  The printed region of each layer is compared "
        "with a point-membership evaluator at points beside every printed edge, beside every primitive's section, and "
        "at random.  Part 'voxels': trees of up to hundreds of boxes on a lattice; each unit square of a layer is judged, and all "
        "corners must be on the lattice.  Part 'big': up to 144 objects, 72 nesting levels, polygons of 300 points.  Non-trivial: at least two primitives, and some layer has certain points inside the model.")
ASSUMPTIONS = ["points nearer than 6 grid units to any primitive's surface are not judged",
               "reference evaluator written from doc/scadformat.md, in /verif/hv/scad.py"]


@st.composite
def models(draw, depth=3):
    nodes = [draw(gen.csg3(depth)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    zs = draw(st.lists(gen.coord(-5, 6), min_size=1, max_size=3, unique=True))
    return dict(nodes=nodes, z=sorted(zs)[0], step=draw(st.integers(5, 300)) / 100, cnt=draw(st.integers(1, 4)),
                fmt=draw(st.sampled_from(["stl", "scad", "stlb"])))


def run(case, ctx):
    nodes = case["nodes"]
    z0 = case["z"] + 0.0137
    zs = [z0 + i * case["step"] for i in range(case["cnt"])]
    rho = 6 * scad.PX
    regions = geo.run_layers(ctx, scad.program(nodes),
                             ["-q", "--min=%r" % z0, "--step=%r" % case["step"], "--max=%r" % (zs[-1] + case["step"] / 8)], case["fmt"])
    tot, ins, lay = geo.check_model(ctx, case, nodes, regions, zs, rho=rho)
    nprim = sum(1 for n in scad.walk(nodes) if n[0] in scad.PRIM3 or n[0] in ("square", "circle", "polygon"))
    ctx.nt(nprim >= 2 and ins > 0)
    ctx.label("inside" if ins else "all-empty", "fmt-" + case["fmt"], "layers-%d" % lay)


@st.composite
def bigs(draw):
    nodes = draw(gen.big())
    c = draw(models(0))
    c["nodes"] = nodes
    box = scad.bbox3(nodes)
    if box is not None:
        c["z"] = round(float(box[0][2] + (box[1][2] - box[0][2]) * draw(st.integers(0, 95)) / 100), 3)
        c["step"] = draw(st.integers(5, 50)) / 100
    return c


PARTS = [Part("big", bigs, run, quick=500), Part("tree", models, run, quick=4000), Part("voxels", lambda: cells.cases(3), lambda case, ctx: cells.run(case, ctx, 3), quick=12000)]
