"""C04: triangulation."""
from hv import sweep
from hv.run import Part

PROP = "C04"
TECHNIQUE = "property-based testing (Hypothesis): exact tiling and outline-flag invariants of the triangulation of random regions"
NOTE = ("Random search; per case the check is exact: integer areas, pairing of directed triangle sides, outline sides equal to the "
        "region's edges, and winding number 1 inside / 0 outside next to every outline edge, which together imply a tiling.")
RULE = ("Cases as for C03; the resulting region is triangulated.  Non-trivial: at least 2 triangles.")
ASSUMPTIONS = ["coordinates within +-2^29"]


def run(case, ctx, san=False):
    a = sweep.call(ctx, case, 2 | (1 if len(case["stages"]) == 1 else 0), "sweep:san" if san else "sweep")
    segs = sweep.check_tris(a)
    sweep.check_sides(segs, "triangulation")
    n = len(a.tri[3])
    ctx.nt(n >= 2)
    ctx.label("class-" + case["cls"], "tri-%s" % ("0" if n == 0 else "1" if n == 1 else "2+" if n < 10 else "10+"))


PARTS = [Part("tri", sweep.cases, run, quick=24000, need=("sweep",)),
         Part("tri-san", sweep.cases, lambda c, x: run(c, x, True), quick=4000, need=("sweep:san",))]
