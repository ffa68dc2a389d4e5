"""C28: the automatic grid."""
import math
import re
import numpy as np
import hypothesis.strategies as st
from checks import c19
from hv import gen, geo, out, scad
from hv.run import Part, Violation, Discard

PROP = "C28"
TECHNIQUE = ("property-based testing (Hypothesis): random models scaled and moved by powers of two, with huge invisible parts and all grid options; the announced "
             "grid against a reference computation, the vertices against that grid, and the layers against the model's exact sections")
NOTE = ("Random search over models, magnitudes (2^-5 to 2^18 times the usual size) and grid options.  2D subtrees are only tried at sizes that fit the grid "
        "asked for, because they are computed before the grid can be adjusted.")
RULE = ("A case is a random CSG tree, scaled by 2^k and moved, perhaps with a huge subtracted or intersected part or a high tower, a grid (default, 2^n, 0, "
        "--gran) and a mode.  Checked: the grid announced is what size and options ask for, all vertices lie on it and fit 24 (or 30) bits, text and "
        "binary STL have identical vertices where promised, and each layer is the model's section up to 6 grid units.  Runs without adjustment that do not fit "
        "30 bits may end with the overflow message.  Non-trivial: material in a layer and a grid other than the default.")
ASSUMPTIONS = ["coordinates between 2^30 and 2^31 may be rejected or not without automatic adjustment"]

INFO = c19.INFO


@st.composite
def cases(draw):
    nodes = [draw(gen.csg3(draw(st.integers(0, 2)), c19.leaf())) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    k = draw(st.sampled_from([-5, -2, -1, 0, 0, 3, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18]))
    c = dict(nodes=nodes, k=k, off=[draw(st.integers(-2, 2)) * draw(st.sampled_from([0, 1, 7, 100, 5000])) for _ in range(2)],
             huge=draw(st.sampled_from([None, None, "sub", "cut", "tower", "subz"])), hk=draw(st.integers(0, 20)), z0=draw(st.integers(-20, 20)) / 8 + .01,
             step=draw(st.sampled_from([.75, 1.3])), mode=draw(st.sampled_from(["", "", "--auto-grid", "--auto-grid-max", "--auto-grid-max", "--no-auto-grid"])))
    c["grid"] = draw(st.sampled_from([None, None, "2^%d", "0", "%d", "gran", "0"]))
    c["n"] = draw(st.integers(0, 26)) if any(n[0] == "linear_extrude" for n in scad.walk(nodes)) is False else draw(st.integers(4, 22))
    c["spell"] = draw(st.integers(0, 3))
    return c


def digits(x):
    return math.frexp(x)[1] if x else 0


def run(case, ctx):
    k, s = case["k"], 2.0 ** case["k"]
    off = [o * s for o in case["off"]]
    inner = [["translate", {"v": [off[0], off[1], 0]}, [["scale", {"v": [s, s, s]}, case["nodes"]]]]]
    H = 2.0 ** case["hk"]
    ref = case["nodes"]            # in units of s, without offset
    hs = H * .95
    extra = None
    if case["huge"] == "sub":
        full = [["difference", {}, [["union", {}, inner], ["translate", {"v": [H, H, -3]}, [["cube", {"size": hs}]]]]]]
        extra = [H + hs, H + hs, max(3, hs - 3)]
    elif case["huge"] == "subz":
        full = [["difference", {}, [["union", {}, inner], ["translate", {"v": [10 * s + 99 * abs(off[0]), 0, -H]}, [["cube", {"size": [s, s, H * 1.5]}]]]]]]
        extra = [11 * s + 99 * abs(off[0]), s, H]
    elif case["huge"] == "cut":
        full = [["intersection", {}, [["union", {}, inner], ["cube", {"size": H * 1.9, "center": True}]]]]
        extra = [H * .95] * 3
    elif case["huge"] == "tower":
        full = inner + [["translate", {"v": [off[0], off[1], H]}, [["cube", {"size": [s, s, H]}]]]]
        extra = [0, 0, 2 * H]
    else:
        full = inner
    box = c19.bbox(full)
    if box is None:
        raise Discard("empty")
    allbox = scad.bbox3(full)
    if case["huge"] and case["huge"] != "tower":
        b2 = scad.bbox3(inner)
    vis = float(np.abs(box[:, :2]).max())
    if vis == 0 or vis > 2 ** 29:
        raise Discard("size")
    # everything, also what is taken away
    tot = float(np.abs(np.array([scad.bbox3(full)])).max())
    if extra:
        tot = max(tot, max(extra))
    for n in scad.walk(case["nodes"]):
        pass
    has2 = any(n[0] == "linear_extrude" for n in scad.walk(case["nodes"]))
    tol = 2e-4 * s if has2 else 1e-9 * max(1, tot)
    # grid asked for
    args = []
    g = 8192.0
    if case["grid"] == "2^%d":
        g = 2.0 ** case["n"]
        args = ["--grid=2^%d" % case["n"]]
    elif case["grid"] == "%d":
        g = float(2 ** case["n"] if case["spell"] else 3 * 2 ** min(case["n"], 20))
        args = ["--grid", "%d" % g]
    elif case["grid"] == "gran":
        g = 2.0 ** case["n"]
        args = [["--gran=1/%d" % g], ["--gran=2^%d" % -case["n"]], ["--gran=0x1p-%d" % case["n"]], ["--gran", "%.20g" % (1 / g)]][case["spell"]]
    elif case["grid"] == "0":
        g = 0
        args = ["--grid=0"]
    if case["mode"]:
        args.append(case["mode"])
    zs = [(case["z0"] + i * case["step"]) for i in range(3)]
    args += ["--min=%.17g" % (zs[0] * s), "--max=%.17g" % ((zs[2] + .1) * s), "--step=%.17g" % (case["step"] * s), "--layer-gap=%.17g" % (s / 128)]
    ctx.write("m.scad", scad.program(full))
    r = ctx.hob3l(["m.scad", "-o", "o.stl"] + args, outs=["o.stl"], crash_ok=True)
    auto = case["mode"] != "--no-auto-grid"
    if not auto and g == 0:
        if r.rc != 1 or b"--grid" not in r.err:
            raise Violation("--grid=0 without adjustment is not rejected: status %d, %r" % (r.rc, r.err[:300]))
        return ctx.label("grid 0")
    if r.rc != 0:
        if not auto and b"numeric overflow" in r.err and tot * g * (1 + 1e-6) >= 2 ** 30:
            return ctx.label("overflow")
        if has2 and b"numeric overflow" in r.err and 40 * (g or 8192) * (1 + 2 * (g > 8192)) >= 2 ** 30:
            return ctx.label("overflow 2D")
        raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:400]))
    m = INFO.search(r.err)
    got = m[5].decode()
    got = 2.0 ** int(got[2:]) if got.startswith("2^") else float(got)
    bits = 30 if case["mode"] == "--auto-grid-max" else 24
    if auto:
        exp = set()
        for e in (-1, 0, 1):
            v, t = abs(vis + e * tol), abs(tot + e * tol)
            best = min(bits - digits(v), 30 - digits(t))
            exp.add(2.0 ** best if g == 0 or math.frexp(g)[1] - 1 > best else g)
        # what is cut away may be counted in or not
        if got not in exp:
            raise Violation("the grid is %s, expected %s for extents %.9g (visible) and %.9g (all), asked for %g"
                            % (m[5].decode(), sorted(map(math.log2, exp)), vis, tot, g))
    elif got != g:
        raise Violation("the grid is %s, asked for %g without adjustment" % (m[5].decode(), g))
    d = r.files["o.stl"]
    n, v = out.stl_text(d)
    if len(v):
        q = v[:, :, :2] * got
        if np.abs(q - np.round(q)).max() > 1e-6 * max(1, np.abs(q).max() * 1e-7):
            raise Violation("a vertex is not on the grid %s" % m[5].decode())
        if auto and np.abs(q).max() > 2.0 ** bits + 1:
            raise Violation("a coordinate is %.17g grid units, but %d bits are promised" % (np.abs(q).max(), bits))
    if auto and bits == 24:
        r2 = ctx.hob3l(["m.scad", "-o", "o.stb", "-q"] + args, outs=["o.stb"])
        v2 = out.stl_bin(r2.files["o.stb"])[1] if r2.rc == 0 else None
        if v2 is None or len(v2) != len(v) or (len(v) and (v2[:, :, :2] != v[:, :, :2].astype(np.float32)).any()):
            raise Violation("binary STL does not have the vertices of the text STL")
    # geometry, in units of s
    reg = []
    for z, g2 in out.stl_regions(d):
        sg = (g2 - np.array([off[0], off[1], off[0], off[1]])) / s
        w = z / s
        w = min(zs, key=lambda a: abs(a - w)) if min(abs(a - w) for a in zs) < 1e-4 else w
        reg.append((w, sg))
    if case["huge"] == "tower" or case["huge"] == "cut":
        if case["huge"] == "cut":
            ref = [["intersection", {}, [["union", {}, ref], ["translate", {"v": [-off[0] / s, -off[1] / s, 0]}, [["cube", {"size": H * 1.9 / s, "center": True}]]]]]]
        else:
            ref = ref + [["translate", {"v": [0, 0, H / s]}, [["cube", {"size": [1, 1, H / s]}]]]]
    elif case["huge"]:
        if case["huge"] == "sub":
            ref = [["difference", {}, [["union", {}, ref], ["translate", {"v": [(H - off[0]) / s, (H - off[1]) / s, -3 / s]}, [["cube", {"size": hs / s}]]]]]]
        else:
            ref = [["difference", {}, [["union", {}, ref], ["translate", {"v": [10 + (99 * abs(off[0]) - off[0]) / s, -off[1] / s, -H / s]},
                                                            [["cube", {"size": [1, 1, H * 1.5 / s]}]]]]]]
    px = 1 / (got * s)
    rho = 6 * max(px, scad.PX if not has2 else max(scad.PX, 1 / (g or 8192)))
    if rho > .5:
        return ctx.label("coarse")
    a, b, lay = geo.check_model(ctx, case, ref, reg, zs, rho=rho, npts=50)
    ctx.nt(b > 0 and got != 8192)
    ctx.label("adjusted" if auto and got != g else "as asked", case["huge"] or "plain", case["mode"] or "default")


PARTS = [Part("grid", cases(), run, 2500, 50000)]
