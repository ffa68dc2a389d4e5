"""C05: paths."""
from hv import sweep
from hv.run import Part

PROP = "C05"
TECHNIQUE = "property-based testing (Hypothesis): invariants of the path construction for random regions"
NOTE = ("Random search; per case the check is exact: loops are simple, use exactly the region's edges, and have the region on their "
        "right-hand side everywhere (outer loops clockwise, holes counter-clockwise).")
RULE = ("Cases as for C03; paths are constructed from the resulting region.  Non-trivial: at least 2 paths or 8 edges.")
ASSUMPTIONS = ["coordinates within +-2^29"]


def run(case, ctx, san=False):
    a = sweep.call(ctx, case, 1 | (2 | 4 if len(case["stages"]) == 1 else 0), "sweep:san" if san else "sweep")
    segs = sweep.check_paths(a)
    sweep.check_sides(segs, "paths")
    n = len(a.poly[2])
    ctx.nt(n >= 2 or len(segs) >= 8)
    ctx.label("class-" + case["cls"], "paths-%s" % (n if n < 3 else "3+"))


PARTS = [Part("paths", sweep.cases, run, quick=24000, need=("sweep",)),
         Part("paths-san", sweep.cases, lambda c, x: run(c, x, True), quick=4000, need=("sweep:san",))]
