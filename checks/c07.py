"""C07: JavaScript output."""
import math
import numpy as np
import hypothesis.strategies as st
from checks.c02 import check_mesh, slabs
from checks.c06 import grid, outline
from hv import gen, out, scad
from hv.run import Part, Violation

PROP = "C07"
TECHNIQUE = "property-based testing (Hypothesis): random models, invariants of the printed chunks, and differential comparison with the STL output"
NOTE = "Random search; each printed chunk is judged completely."
RULE = ("Part 'mesh': random model, slice options, grid and groups; chunks must be well-formed (equal numbers of vertices, normals and colours, "
        "<= 65535 vertices, indices in range, integer entries), their triangles must form closed slabs at the expected heights with right-hand unit "
        "normals, and have the same outlines as the STL output.  Part 'chunks': models that need several chunks.  Part 'ctxt': '!' with "
        "--js-keep-ctxt: the subtree's own geometry, and the surrounding transformation in 'xform', in metres.  "
        "Non-trivial: some triangle is printed.")


@st.composite
def models(draw):
    c = draw(gen.outmodel())
    c["grid"] = draw(st.sampled_from([None, None, None, "1024", "2^11", "0x1p16", "1000", "16384", "65536", "2^18"]))
    g = draw(st.lists(st.text("abcXYZ_09-", min_size=1, max_size=6), max_size=4))
    seps = [draw(st.sampled_from([",", ";", " ", ", ", " ;,"])) for _ in g]
    c["group"] = g
    c["gtext"] = "".join(a + b for a, b in zip(g, seps))
    c["split"] = draw(st.booleans())
    return c


def gridval(t):
    if t is None:
        return 8192.0
    if t.startswith("2^"):
        return 2.0 ** int(t[2:])
    return float.fromhex(t) if "x" in t else float(t)


def chunks(data, g, groups):
    ch = out.js(data)
    for c in ch:
        names = [x for x in c["group"].split(",") if x]
        want = ["'%s':true" % x for x in groups]
        if [x.strip() for x in names] != want:
            raise Violation("JS group is {%s}, expected %s" % (c["group"], want))
        if abs(c["scale"] - 1000 * g) > 1e-12 * g * 1000:
            raise Violation("JS scaleV=%r with grid %r" % (c["scale"], g))
        nn = c["n"]
        if (nn != nn[:, :1]).any():
            raise Violation("JS: the vertices of one triangle have different normals")
        if abs(np.linalg.norm(nn, axis=2) - 1).max() > 2.0 / c["scale"] + 1e-9:
            raise Violation("JS: normal %s has not length 1" % nn[0, 0].tolist())
    if not ch:
        return ch, np.zeros((0, 3)), np.zeros((0, 3, 3))
    return ch, np.concatenate([c["n"] for c in ch])[:, 0], np.concatenate([c["v"] for c in ch])


def go(ctx, args, o):
    r = ctx.hob3l(["m.scad", "-o", o] + args, outs=[o])
    if r.rc != 0 or r.files[o] is None:
        raise Violation("%s: valid model is not converted: status %d, %s" % (o, r.rc, r.err.decode("latin1")[:600]))
    return r.files[o]


def stl_outlines(ctx, a, zs, g):
    n, v = out.stl_text(go(ctx, a, "o.stl"))
    d = n[:, 2] < -.5
    r = {}
    for i, z in enumerate(zs):
        m = d & (abs(v[:, 0, 2] - z) < 1e-6)
        if m.any():
            r[i] = outline(grid(v[m][:, :, :2], g))
    return r


def mesh(case, ctx):
    a, zs = gen.outargs(case)
    ctx.write("m.scad", scad.program(case["nodes"]))
    if case["grid"]:
        a += ["--no-auto-grid", "--grid=" + case["grid"]]
    g = gridval(case["grid"])
    ga = []
    if case["group"]:
        ga = ["--js-group=" + case["gtext"]] if not case["split"] else ["--js-group=" + x for x in case["group"]]
    ch, n, v = chunks(go(ctx, a + ga, "o.js"), g, case["group"])
    gap = 0 if case["gap"] is None else case["gap"]
    zz = [(round(p * g) / g, round(q * g) / g) for p, q in slabs(zs, case["step"], gap)]
    if max(0, case["step"] - gap) * g < 2:
        zz = [(p, p) for p, q in zz]
    regs = check_mesh(n, v, zz, scale=g, what="JS: ", ntol=2.0 / (1000 * g) + 1e-6)
    # the same outlines as in STL
    ref = stl_outlines(ctx, a, zs, g)
    mine = {}
    for i, (p, q) in enumerate(zz):
        m = (n[:, 2] < -.5) & (abs(v[:, 0, 2] - p) < 1e-6)
        if m.any():
            mine[i] = outline(grid(v[m][:, :, :2], g))
    if set(mine) != set(ref):
        raise Violation("JS prints layers %s, STL %s" % (sorted(mine), sorted(ref)))
    for i in ref:
        if mine[i].shape != ref[i].shape or (mine[i] != ref[i]).any():
            raise Violation("layer z=%.9g: outlines in JS and STL differ" % zs[i])
    ctx.nt(len(v) > 0)
    ctx.label("chunks-%d" % len(ch), "layers-%d" % len(regs), "groups" if case["group"] else "no-groups")


@st.composite
def big(draw):
    k = draw(st.sampled_from(["layers", "plates", "both"]))
    fn = draw(st.integers(40, 100))
    if k == "layers":
        nodes = [["cylinder", {"h": 20, "r": 5, "$fn": fn}]]
        if draw(st.booleans()):
            nodes.append(["translate", {"v": [12, 0, 0]}, [["cylinder", {"h": 20, "r": 5, "$fn": fn}]]])
        cnt = draw(st.integers(30, 140))
    else:
        w = draw(st.integers(6, 20))
        nodes = [["translate", {"v": [3 * i, 3 * j, 0]}, [["cylinder", {"h": 20, "r": 1, "$fn": draw(st.integers(8, 40)) if i == 0 else fn // 2}]]]
                 for i in range(w) for j in range(draw(st.integers(6, 12)))]
        cnt = draw(st.integers(1, 10)) if k == "both" else 3
    return dict(nodes=nodes, z=.5, step=.12, cnt=cnt, gap=draw(st.sampled_from([None, .01, .05, .12])), grid=None, group=[], gtext="", split=False)


outside = st.one_of(gen.csg3(1), gen.csg3(0), gen.full(1, 1).map(lambda ns: ns[0] if isinstance(ns[0], list) else ns))


@st.composite
def kept(draw):
    inner = draw(gen.csg3(1))
    p = dict(inner[1])
    p["%"] = "!"
    inner = [inner[0], p] + inner[2:]
    n = inner
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(["x", "x", "x", "group", "group", "hull", "projection"]))
        if k == "x":
            n = draw(gen.xform(st.just([n])))
        elif k == "projection":
            n = draw(st.sampled_from([["linear_extrude", {"height": 2}], ["rotate_extrude", {}]])) + [[["projection", {"cut": True}, [n]]]]
        else:
            ch = [draw(outside) for _ in range(draw(st.integers(0, 2)))]
            ch.insert(draw(st.integers(0, len(ch))), n)
            n = [draw(st.sampled_from(["union", "difference", "intersection"])) if k == "group" else k, {}, ch]
    nodes = [n]
    if draw(st.booleans()):
        nodes.insert(draw(st.integers(0, 1)), draw(outside))
    return dict(nodes=nodes, t=draw(st.integers(5, 95)), keep=draw(st.sampled_from([True, True, True, False])))


def find(ns, M):
    for n in ns:
        if "!" in n[1].get("%", ""):
            return M, n
        if len(n) > 2:
            r = find(n[2], M @ scad.matrix(n[0], n[1]) if n[0] in scad.XFORM else M)
            if r:
                return r
    return None


def ctxt(case, ctx):
    M, n = find(case["nodes"], np.eye(4))
    p = dict(n[1])
    del p["%"]
    alone = [[n[0], p] + n[2:]]
    box = scad.bbox3(alone)
    if box is None or box[1][2] - box[0][2] < .02:
        return ctx.label("flat")
    z = box[0][2] + (box[1][2] - box[0][2]) * case["t"] / 100
    a = ["-q", "--z=%.17g" % z]
    ctx.write("m.scad", scad.program(alone))
    ref = out.js(go(ctx, a, "o.js"))
    ctx.write("m.scad", scad.program(case["nodes"]))
    got = out.js(go(ctx, a + ["--js-keep-ctxt" if case["keep"] else "--js-no-keep-ctxt"], "o.js"))
    if len(ref) != len(got):
        raise Violation("%d chunks with '!', %d for the subtree alone" % (len(got), len(ref)))
    for r, g in zip(ref, got):
        if r["raw"].shape != g["raw"].shape or (r["raw"] != g["raw"]).any():
            raise Violation("'!' with --js-%skeep-ctxt: geometry differs from that of the subtree alone" % ("" if case["keep"] else "no-"))
        if not case["keep"]:
            if g["xform"] is not None:
                raise Violation("xform printed with --js-no-keep-ctxt")
            continue
        if g["xform"] is None:
            raise Violation("no xform printed with --js-keep-ctxt")
        X = g["xform"].reshape(4, 4).T
        W = M.copy()
        W[:3, 3] /= 1000
        if abs(X - W).max() > 1e-11 * max(1, abs(W).max()) + 1e-12:
            raise Violation("xform is %s, expected %s" % (X.tolist(), W.tolist()))
        ctx.nt(True)
    ctx.label("keep" if case["keep"] else "no-keep", "moved" if not np.allclose(M, np.eye(4)) else "unmoved")


PARTS = [Part("mesh", models, mesh, quick=2500), Part("chunks", big, mesh, quick=60), Part("ctxt", kept, ctxt, quick=1500)]
