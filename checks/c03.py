"""C03: the sweep engine computes boolean combinations."""
import numpy as np
from hv import geom, sweep
from hv.geo import rng_for
from hv.run import Part, Violation

PROP = "C03"
TECHNIQUE = "property-based testing (Hypothesis): random outlines and truth tables against an even-odd point evaluator, invariants on edges"
NOTE = ("Random search; result region compared at sampled points (exactly for octilinear input, otherwise outside of a rounding "
        "tolerance), the crossing-freeness and closedness of the result edges is decided exactly per case.")
RULE = ("A case is 1..4 closed chains of integer points per stage (octilinear on a small even grid, or free with coordinate ranges from 4 to 2^29, up to 160 edges through one point, "
        "with coincident vertices and repeated outlines) with member masks, a truth table over 1..4 variables, optionally a second "
        "stage fed with the first one's result.  Non-trivial: the result has at least 3 edges.")
ASSUMPTIONS = ["the truth table maps 'in no polygon' to outside", "coordinates within +-2^29 (the tool limits to 30 bits)"]


def run(case, ctx, san=False):
    a = sweep.call(ctx, case, 0, "sweep:san" if san else "sweep")
    if bool(a.empty) != (len(a.edges) == 0):
        raise Violation("emptiness answer is wrong")
    sweep.check_edges(a)
    tol = 0 if case["cls"] == "exact" else 1.6 * len(case["stages"])
    P = sweep.sample(case, rng_for(case), tol or .3)
    if tol == 0:
        P = np.floor(P) + [0.37, 0.21]
    want = sweep.expected(case, P)
    cert = geom.dist(sweep.all_edges(case), P) > tol
    got = geom.parity(a.edges.astype(float), P)
    bad = cert & (want != got)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation("point (%.6g,%.6g) is %s but the result has it %s (%d of %d certain points differ)"
                        % (P[i, 0], P[i, 1], "inside" if want[i] else "outside", "inside" if got[i] else "outside",
                           bad.sum(), cert.sum()))
    ctx.nt(len(a.edges) >= 3)
    ctx.label("class-" + case["cls"], "stages-%d" % len(case["stages"]), "empty" if not len(a.edges) else "nonempty")


PARTS = [Part("boolean", sweep.cases, run, quick=24000, need=("sweep",)),
         Part("boolean-san", sweep.cases, lambda c, x: run(c, x, True), quick=6000, need=("sweep:san",))]
