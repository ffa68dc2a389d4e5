"""C10: primitives."""
import math
import hypothesis.strategies as st
from hv import gen, geo, scad
from hv.run import Part, Violation

PROP = "C10"
TECHNIQUE = "property-based testing (Hypothesis): every parameter combination of the primitives against reference solids"
NOTE = ("Random search over documented parameter combinations of all primitives, judged at sampled points beside every printed and every "
        "expected edge; 3 grid units next to a surface are not judged.")
RULE = ("A case is one primitive with a random combination of documented parameters, positional or named, possibly transformed, "
        "sliced at 1-3 heights; or an invalid combination, which must be rejected.  Non-trivial: a layer has points inside the solid, or the "
        "case is a rejection.")
ASSUMPTIONS = ["sphere above max-fn: judged against the ellipse between the inscribed polygon's incircle and circumcircle"]

ORDER = {"cube": ["size", "center"], "square": ["size", "center"], "sphere": ["r"], "circle": ["r"],
         "cylinder": ["h", "r1", "r2", "center"], "polygon": ["points", "paths"], "polyhedron": ["points", "faces"]}


@st.composite
def spell(draw, f, p):
    """Some leading parameters become positional; the order of the others is random."""
    n = 0
    for k in ORDER[f]:
        if k not in p:
            break
        n += 1
    n = draw(st.integers(0, n))
    q = {}
    if n:
        q["_"] = [p[k] for k in ORDER[f][:n]]
    rest = [k for k in p if k not in ORDER[f][:n]]
    rest = draw(st.permutations(rest))
    for k in rest:
        q[k] = p[k]
    return [f, q]


def size():
    return st.one_of(gen.length(.1, 9), gen.length(.1, 9), gen.length(.1, 9).map(lambda x: -x), st.sampled_from([1, -1]))


def some_fn():
    return st.one_of(st.integers(3, 12), st.integers(3, 100), st.sampled_from([0, 3, 4, 99, 100, 101, 250]))


@st.composite
def prim(draw):
    f = draw(st.sampled_from(["cube", "cube", "sphere", "sphere", "cylinder", "cylinder", "cylinder", "square", "circle", "polygon",
                              "polyhedron"]))
    p = {}
    opt = lambda: draw(st.booleans())
    if f in ("cube", "square"):
        n = 3 if f == "cube" else 2
        k = draw(st.integers(0, 3))
        if k == 1:
            p["size"] = draw(size())
        elif k > 1:
            p["size"] = [draw(size()) for _ in range(n)]
        if opt(): p["center"] = draw(st.booleans())
    elif f in ("sphere", "circle"):
        k = draw(st.integers(0, 4))
        if k in (1, 2):
            p["r"] = draw(gen.length(.2, 6))
        elif k:
            p["d"] = draw(gen.length(.3, 11))
        if opt() or opt(): p["$fn"] = draw(some_fn()) if f == "circle" or draw(st.booleans()) else draw(st.integers(1, 20))
        if opt() and opt(): p["$fa"] = draw(st.integers(1, 30))
        if opt() and opt(): p["$fs"] = draw(st.integers(1, 9)) / 4
    elif f == "cylinder":
        L = lambda: draw(gen.length(.2, 6))
        if opt() or opt(): p["h"] = L()
        k = draw(st.integers(0, 9))
        if k == 1: p["r"] = L()
        elif k == 2: p["d"] = L()
        elif k == 3: p["r1"], p["r2"] = L(), L()
        elif k == 4: p["d1"], p["d2"] = L(), L()
        elif k == 5: p["r1"], p["d2"] = L(), L()
        elif k == 6: p["d1"], p["r2"] = L(), L()
        elif k == 7: p["r1" if opt() else "d1"] = L()
        elif k == 8: p["r2" if opt() else "d2"] = L()
        elif k == 9:
            a, b = draw(st.sampled_from([("r1", "r2"), ("r2", "r1"), ("d1", "d2"), ("d2", "d1"), ("r1", "d2"), ("r2", "d1")]))
            p[a], p[b] = 0, L()
            if b in ("r2", "r1") and opt():
                p.pop(b)           # other one defaults to 1
        if opt(): p["center"] = draw(st.booleans())
        if opt() or opt(): p["$fn"] = draw(some_fn())
    elif f == "polygon":
        p = draw(gen.polygon())[1]
    else:
        p = draw(gen.prism_polyhedron())[1]
        if draw(st.integers(0, 3)) == 0:
            p = {"points": p["points"], "triangles": p["faces"]}
    if f in ("polygon", "polyhedron") and draw(st.integers(0, 3)) == 0:
        p = dict(p, convexity=draw(st.integers(1, 10)))
    # positional prefix needs the keys in order
    p2 = {k: p[k] for k in ORDER[f] if k in p}
    p2.update(p)
    return draw(spell(f, p2))


@st.composite
def cases(draw):
    n = draw(prim())
    if n[0] in scad.PRIM2:
        n = ["linear_extrude", {"height": draw(gen.length(.5, 4))}, [n]]
    if draw(st.integers(0, 2)) == 0:
        n = draw(gen.xform(st.just([n])))
    return dict(node=n, t=[draw(st.integers(2, 98)) / 100 for _ in range(draw(st.integers(1, 3)))],
                fmt=draw(st.sampled_from(["stl", "scad"])))


def check(case, ctx, node, max_fn=scad.MAX_FN):
    box = scad.bbox3([node])
    lo, hi = box[0][2], box[1][2]
    nin = 0
    for t in sorted(set(case["t"])):
        z = lo + (hi - lo) * t
        reg = geo.run_layers(ctx, scad.program([node]), ["-q", "--z=%.17g" % z], case["fmt"])
        tot, ins, lay = geo.check_model(ctx, case, [node], reg, [z], rho=3 * scad.PX, npts=200)
        nin += ins
    return nin


def run(case, ctx):
    n = case["node"]
    ins = check(case, ctx, n)
    base = [x for x in scad.walk([n]) if x[0] in ORDER][0]
    ctx.nt(ins > 0)
    ctx.label(base[0], "moved" if n[0] in scad.XFORM else "plain",
              *(["cone"] if base[0] == "cylinder" and 0 in scad.cyl_radii(base[1]) else []),
              *(["ball"] if base[0] == "sphere" and scad.prim3_tris(base, scad.MAX_FN) is None else []))


# ------------------------------------------------------------ extents
@st.composite
def extents(draw):
    """The solid reaches exactly up to its documented top and bottom."""
    n = draw(prim())
    if n[0] in scad.PRIM2:
        n = ["linear_extrude", {"height": draw(gen.length(.5, 4))}, [n]]
    return dict(node=n)


def run_ext(case, ctx):
    """Just below the top and just above the bottom there is material, outside there is none."""
    n = case["node"]
    lo, hi = scad.bbox3([n])[:, 2]
    ball = n[0] == "sphere" and scad.prim3_tris(n, scad.MAX_FN) is None
    pointed = ball or (n[0] == "cylinder" and 0 in scad.cyl_radii(n[1])) or n[0] == "polyhedron"
    d = max((hi - lo) * (.05 if pointed else .001), 4 * scad.PX)
    for z, want in ((lo - d, False), (lo + d, True), (hi - d, True), (hi + d, False)):
        reg = geo.run_layers(ctx, scad.program([n]), ["-q", "--z=%.17g" % z], "scad")
        got = len(geo.at(reg, z)) > 0
        if got != want:
            # tiny sections may vanish in the grid
            raise Violation("%s at z=%.9g: layer is %s, solid spans [%.9g,%.9g]" % (n[0], z, "not empty" if got else "empty", lo, hi))
    ctx.nt(True)
    ctx.label(n[0])


# ------------------------------------------------------------- rejects
def bad():
    L = gen.length(.3, 5)
    pos = st.integers(1, 9)

    def d(f, **kw):
        return st.fixed_dictionaries(kw).map(lambda p: [f, {k.replace("_S", "$"): v for k, v in p.items()}])
    z = st.sampled_from([0, 0.0])
    neg = L.map(lambda x: -x)
    return st.one_of(
        d("cylinder", r=L, r1=L), d("cylinder", r=L, r2=L), d("cylinder", d=L, d1=L), d("cylinder", d=L, d2=L), d("cylinder", d=L, r=L),
        d("cylinder", r1=L, d1=L), d("cylinder", r2=L, d2=L), d("cylinder", h=L, r1=z, r2=z), d("cylinder", h=z, r=L), d("cylinder", h=neg, r=L),
        d("cylinder", r=z), d("cylinder", d=z), d("cylinder", r=neg),
        d("sphere", r=L, d=L), d("sphere", r=z), d("sphere", d=z),
        d("circle", r=L, d=L), d("circle", r=z),
        d("cube", size=z), d("cube", size=st.tuples(L, L, z)), d("cube", size=st.tuples(L, z, L)), d("cube", size=st.tuples(z, L, L)),
        d("cube", size=st.tuples(L, L)), d("cube", size=st.tuples(L, L, L, L)), d("cube", size=st.just("a")),
        d("square", size=z), d("square", size=st.tuples(L, z)), d("square", size=st.tuples(z, L)), d("square", size=st.tuples(L, L, L)),
        d("sphere", r=st.just([1])), d("sphere", r=st.just("x")), d("cylinder", h=st.just([1, 2])), d("circle", r=st.just([1])),
        d("polygon", points=st.just([[0, 0], [1, 0]])), d("polygon", points=st.just([[0, 0], [1, 0], [1, 1, 1]])),
        d("polygon", points=st.just([[0, 0], [1, 0], [1, 1]]), paths=st.just([[0, 1, 3]])),
        d("polygon", points=st.just([[0, 0], [1, 0], [1, 1], [0, 0]])),
        d("polygon", points=st.just([[0, 0], [1, 0], [1, 1]]), paths=st.just([[0, 1]])),
        d("polyhedron", points=st.just([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]), faces=st.just([[0, 1, 2], [0, 3, 1], [1, 3, 2]])),
        d("polyhedron", points=st.just([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])),
        d("polyhedron", points=st.just([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]), faces=st.just([[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]),
          triangles=st.just([[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]])),
        d("sphere", r=L, _S_fn=st.just(-1)).map(lambda n: [n[0], {"r": n[1]["r"], "$fn": -1}]),
    )


@st.composite
def rejects(draw):
    n = draw(bad())
    n = draw(st.just(n))
    keys = draw(st.permutations(list(n[1])))
    n = [n[0], {k: n[1][k] for k in keys}]
    around = draw(st.integers(0, 2))
    return dict(node=n, around=around)


def run_rej(case, ctx):
    n = case["node"]
    two = n[0] in scad.PRIM2
    good = ["square", {"size": 2}] if two else ["cube", {"size": 2}]
    nodes = [n]
    if case["around"] == 1:
        nodes = [good, n]
    elif case["around"] == 2:
        nodes = [["union", {}, [good, ["translate", {"v": [1, 0, 0]}, [n]]]]]
    if two:
        nodes = [["linear_extrude", {"height": 1}, nodes]]
    ctx.write("m.scad", scad.program(nodes))
    r = ctx.hob3l(["m.scad", "-q", "-o", "o.stl"], outs=["o.stl"])
    if r.rc != 1 or not r.err.strip():
        raise Violation("invalid %s is not rejected with an error: status %d, message %r" % (scad.text(n).strip(), r.rc, r.err[:200]))
    ctx.nt(True)
    ctx.label("reject-" + n[0])


PARTS = [Part("solid", cases, run, quick=5000),
         Part("extent", extents, run_ext, quick=1000),
         Part("reject", rejects, run_rej, quick=1500)]
