"""C19: which layers are sliced."""
import math, re
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, out, scad
from hv.run import Part, Violation, Discard

PROP = "C19"
TECHNIQUE = ("property-based testing (Hypothesis): random models and z options; the heights of the printed layers, the announced range and the bounding box "
             "against a reference computation; metamorphic: every layer sliced alone is identical")
NOTE = "Random search over models and options."
RULE = ("Part 'range': random CSG trees with random --min/--max/--step (or defaults); the announced range must follow from the options and the exact "
        "bounding box, printed layers must lie on it, and the first, last and some middle layers must have the model's region.  Part 'alone': each of up to 3 "
        "layers sliced with --z must be identical to the one sliced together with the others.  Part 'face': slices exactly at horizontal faces (bottom in, top "
        "out).  Non-trivial: at least two layers and material.")
ASSUMPTIONS = ["--min not above --max; step larger than the layer gap of 0.01"]


def bbox(nodes, max_fn=scad.MAX_FN):
    """Exact bounding box by the documented reading: union, intersection, base object of a difference."""
    def rec(n, M):
        if scad.skip(n):
            return None
        f, p = n[0], n[1]
        ch = [c for c in (n[2] if len(n) > 2 else []) if not scad.ignored(c)]
        if f in scad.XFORM:
            return union(ch, M @ scad.matrix(f, p))
        if f in scad.PRIM3:
            t = scad.prim3_tris(n, max_fn)
            if t is None:
                ext = np.abs(scad.sph_r(p)) * np.linalg.norm(M[:3, :3], axis=1)
                return np.array([M[:3, 3] - ext, M[:3, 3] + ext])
            q = scad.apply(M, t.reshape(-1, 3))
            return np.array([q.min(axis=0), q.max(axis=0)])
        if f == "linear_extrude":
            q = scad.apply(M, scad.linext_tris(scad.prim2_paths(ch[0], max_fn), p).reshape(-1, 3))
            return np.array([q.min(axis=0), q.max(axis=0)])
        if f == "difference":
            return union(ch[:1], M)
        if f == "intersection":
            b = None
            for c in ch:
                x = rec(c, M)
                if x is None:
                    return None
                b = x if b is None else np.array([np.maximum(b[0], x[0]), np.minimum(b[1], x[1])])
                if (b[0] > b[1]).any():
                    return None
            return b
        return union(ch, M)

    def union(ns, M):
        b = [x for x in (rec(n, M) for n in ns) if x is not None]
        return np.array([np.min([x[0] for x in b], axis=0), np.max([x[1] for x in b], axis=0)]) if b else None
    return union(nodes, np.eye(4))


def leaf():
    ext = st.builds(lambda h, p: ["linear_extrude", {"height": h}, [p]], gen.length(.5, 4), st.one_of(gen.square(), gen.circle(), gen.polygon(multi=False)))
    return st.one_of(gen.prim3(), gen.prim3(), gen.sphere(), ext)


@st.composite
def ranges(draw):
    nodes = [draw(gen.csg3(draw(st.integers(0, 3)), leaf())) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    c = dict(nodes=nodes, min=None, max=None, step=None, fmt=draw(st.sampled_from(["scad", "scad", "stl"])))
    if draw(st.booleans()):
        c["step"] = draw(st.one_of(st.integers(1, 8).map(lambda i: i / 8), st.integers(20, 3000).map(lambda i: i / 1000)))
    if draw(st.integers(0, 2)) == 0:
        c["min"] = draw(gen.coord(-5, 6))
    if draw(st.integers(0, 2)) == 0:
        c["max"] = (c["min"] if c["min"] is not None else 0) + draw(st.one_of(st.integers(0, 64).map(lambda i: i / 8), st.integers(0, 6000).map(lambda i: i / 1000)))
    c["order"] = draw(st.integers(0, 1))
    return c


INFO = re.compile(rb"Info: Z: min=(\S+), step=(\S+), layer_cnt=(\d+), max=(\S+), grid=(\S+)")


def g6(a, b):
    return abs(a - b) <= 2e-5 * max(1, abs(a), abs(b))


def run_range(case, ctx):
    nodes = case["nodes"]
    box = bbox(nodes)
    step = case["step"] or .2
    if box is None and (case["min"] is None or case["max"] is None):
        raise Discard("empty")
    lo = case["min"] if case["min"] is not None else box[0][2] + step / 2
    hi = case["max"] if case["max"] is not None else box[1][2]
    if lo > hi - 1e-6 and lo != hi:
        raise Discard("no layer")
    n = 1 if lo == hi else (hi - lo) / step
    if n > 3000:
        raise Discard("many")
    if n > 60:
        step = (hi - lo) / 40.3
        if case["min"] is None:
            lo = box[0][2] + step / 2
        if lo >= hi - 1e-6:
            raise Discard("no layer")
        n = (hi - lo) / step
        case = dict(case, step=step)
    # 2D outlines are rounded to the grid before they are extruded
    tol = 2e-4 if any(x[0] == "linear_extrude" for x in scad.walk(nodes)) else 1e-6
    e = 1e-3 + 2 * tol / step
    cnts = {max(1, math.ceil(n - e)), max(1, math.ceil(n + e))} if n != 1 else {1}
    exact = case["min"] is not None and case["max"] is not None
    if exact and n > 1 and abs(n - round(n)) < 1e-9:
        cnts = {round(n)}               # the end of the range itself is not sliced
    opts = []
    if case["step"]: opts.append("--step=%.17g" % case["step"])
    if case["min"] is not None: opts.append("--min=%.17g" % case["min"])
    if case["max"] is not None: opts.append("--max=%.17g" % case["max"])
    if case["order"]:
        opts.reverse()
    ctx.write("m.scad", scad.program(nodes))
    o = "o." + case["fmt"]
    r = ctx.hob3l(opts + ["m.scad", "-o", o], outs=[o])
    if r.rc != 0:
        raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:500]))
    m = INFO.search(r.err)
    if not m:
        raise Violation("no range announced: %r" % r.err[:300])
    zmin, zstep, cnt, zmax = float(m[1]), float(m[2]), int(m[3]), float(m[4])
    if not (g6(zmin, lo) or abs(zmin - lo) < tol) or not g6(zstep, step):
        raise Violation("range starts at %g with step %g; options and bounding box say %.9g and %.9g" % (zmin, zstep, lo, step))
    if cnt not in cnts:
        raise Violation("%d layers in [%.9g,%.9g) with step %.9g, expected %s" % (cnt, lo, hi, step, sorted(cnts)))
    if not g6(zmax, lo + (cnt - 1) * step) and abs(zmax - lo - (cnt - 1) * step) > tol:
        raise Violation("last layer announced at %g, expected %.9g" % (zmax, lo + (cnt - 1) * step))
    reg = out.stl_regions(r.files[o]) if case["fmt"] == "stl" else out.scad_regions(r.files[o])
    zs = [lo + i * step for i in range(cnt)]
    for z, s in reg:
        if not any(abs(z - w) < 1e-5 + tol for w in zs):
            raise Violation("layer printed at z=%.9g, which is not in the range" % z)
    sel = sorted({0, cnt // 3, cnt - 1})
    ins = 0
    for i in sel:
        z = zs[i]
        z = next((w for w, s in reg if abs(w - z) < 1e-5 + tol), z)
        ins += geo.check_model(ctx, case, nodes, [(w, s) for w, s in reg if abs(w - z) < 1e-5], [z], npts=60)[1]
    ctx.nt(ins > 0 and cnt > 1)
    ctx.label("min" if case["min"] is not None else "auto-min", "max" if case["max"] is not None else "auto-max", "layers-%s" % ("1" if cnt == 1 else "2-9" if cnt < 10 else "10+"))


@st.composite
def alone(draw):
    nodes = [draw(gen.csg3(2, leaf())) for _ in range(draw(st.sampled_from([1, 2])))]
    return dict(nodes=nodes, z0=draw(gen.coord(-3, 1)), step=draw(st.sampled_from([.25, .5, .3, .7])), cnt=draw(st.integers(2, 12)), pick=[draw(st.integers(0, 99)) for _ in range(2)],
                fmt=draw(st.sampled_from(["scad", "stl"])))


def run_alone(case, ctx):
    ctx.write("m.scad", scad.program(case["nodes"]))
    o = "o." + case["fmt"]

    def tri(opts):
        r = ctx.hob3l(["m.scad", "-q", "-o", o] + opts, outs=[o])
        if r.rc != 0:
            raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:500]))
        if case["fmt"] == "scad":
            return [(l["z"], sorted(tuple(map(tuple, l["points"][q])) for q in l["paths"])) for l in out.scad_layers(r.files[o])]
        n, v = out.stl_text(r.files[o])
        return [(l["z0"], sorted(tuple(map(tuple, t[:, :2])) for t in l["top"])) for l in out.stl_layers(v)]
    z0, step, cnt = case["z0"], case["step"], case["cnt"]
    both = tri(["--min=%.17g" % z0, "--step=%.17g" % step, "--max=%.17g" % (z0 + (cnt - .5) * step)])
    some = False
    for i in sorted({k % cnt for k in case["pick"]}):
        z = z0 + step * i
        a = [t for w, t in both if abs(w - z) < 1e-6]
        b = [t for w, t in tri(["--z=%.17g" % z, "--step=%.17g" % step]) if abs(w - z) < 1e-6]
        if a != b:
            raise Violation("layer z=%.17g differs when sliced alone: %d polygons/%d triangles together, %d/%d alone"
                            % (z, len(a), sum(map(len, a)), len(b), sum(map(len, b))))
        some |= any(map(len, a))
    ctx.nt(some)
    ctx.label("material" if some else "empty")


# --------------------------------------------------------- horizontal faces
@st.composite
def faces(draw):
    """Stacks of flat-faced bodies with dyadic heights, in CSG operations."""
    def body(d):
        k = draw(st.integers(0, 6 if d else 3))
        x, y, z = (draw(st.integers(-16, 16)) / 8 for _ in range(3))
        s = [draw(st.integers(1, 24)) / 8 for _ in range(3)]
        if k <= 1:
            return ["translate", {"v": [x, y, z]}, [["cube", {"size": s, "center": bool(k)}]]]
        if k == 2:
            return ["translate", {"v": [x, y, z]}, [["linear_extrude", {"height": s[2], "center": draw(st.booleans())}, [["square", {"size": s[:2]}]]]]]
        if k == 3:
            return ["translate", {"v": [x, y, z]}, [["cylinder", {"h": s[2], "r1": s[0], "r2": s[1], "$fn": 4}]]]
        return [["union", "difference", "intersection"][k - 4], {}, [body(d - 1), body(d - 1)]]
    return dict(nodes=[body(2) for _ in range(draw(st.sampled_from([1, 2])))], pick=[draw(st.integers(0, 99)) for _ in range(3)])


def run_faces(case, ctx):
    nodes = case["nodes"]
    zs = []

    def rec(ns, dz):
        for n in ns:
            d = dz + (n[1]["v"][2] if n[0] == "translate" else 0)
            if n[0] in ("cube", "cylinder", "linear_extrude"):
                h = n[1].get("h", n[1].get("height", (n[1].get("size") or [0, 0, 0])[2] if n[0] == "cube" else None))
                a = d - h / 2 if n[1].get("center") else d
                zs.extend([a, a + h])
            elif len(n) > 2:
                rec(n[2], d)
    rec(nodes, 0)
    zs = sorted(set(zs))
    ins = 0
    for z in sorted({zs[k % len(zs)] for k in case["pick"]}):
        # what holds at z is what holds just above z
        reg = geo.run_layers(ctx, scad.program(nodes), ["-q", "--z=%.17g" % z], "scad")
        reg = [(w + 2 * scad.PX, s) for w, s in reg]
        ins += geo.check_model(ctx, case, nodes, reg, [z + 2 * scad.PX], rho=2 * scad.PX, npts=100)[1] if True else 0
    ctx.nt(ins > 0)
    ctx.label("inside" if ins else "all-empty")


PARTS = [Part("range", ranges, run_range, quick=4000),
         Part("alone", alone, run_alone, quick=1500),
         Part("face", faces, run_faces, quick=3000)]
