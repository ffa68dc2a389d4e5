"""C08: the SCAD and the CSG3 dump read back."""
import re
import hypothesis.strategies as st
from hv import gen, geo, out, scad, spell
from hv.run import Part, Violation, Discard
from checks.c30 import copy_with_mark

PROP = "C08"
TECHNIQUE = ("property-based testing (Hypothesis): round trip (the dump is read back; its layers equal those of the original, dumping it again "
             "gives the same bytes)")
NOTE = ("Random search; layers are compared by points more than 6 grid units away from both outlines.  The CSG3 dump is judged for models "
        "without intersecting 2D paths in linear_extrude (documented XOR node); truly round spheres come back faceted and are compared with "
        "a tolerance of 0.6 % of their size, up to 80 % of their height.")
RULE = ("A case is a random model over all functors (all primitives, transformations, colours, extrusions, projection, hull, imported STL, "
        "modifiers, text), spelt with named or positional parameters; it is dumped, the dump is dumped again and both are sliced at the same "
        "heights in a random format.  Non-trivial: the compared layers have material.")


def heights():
    return st.lists(st.integers(-300, 900).map(lambda i: i / 100 + .000317), min_size=2, max_size=4, unique=True)


STL = b"""solid x
%s
endsolid x
"""


def tetra(s, x, y):
    v = [(0, 0, 0), (s, 0, 0), (0, s, 0), (0, 0, s)]
    t = b""
    for f in ((0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)):
        t += b"facet normal 0 0 0\nouter loop\n%s\nendloop\nendfacet\n" % b"\n".join(
            b"vertex %r %r %r" % (v[i][0] + x, v[i][1] + y, v[i][2]) for i in f).replace(b"'", b"")
    return STL % t


STRS = st.one_of(st.sampled_from(["Hello", "a\\\"b", "x\\\\y", "t\\tab", "n\\n", "\u00e4\u00df", ""]),
                 st.text(st.sampled_from("ab /*<>{};%&'"), max_size=8))


@st.composite
def extra(draw):
    k = draw(st.integers(0, 5))
    if k < 3:
        n = ["import", {"file": draw(st.sampled_from(["a.stl", "b c.stl", "d/e.stl", "q'\\\"%s.stl"]))}, []][:2]
        for q in draw(st.lists(st.sampled_from(["convexity", "$fn", "$fa", "$fs"]), max_size=3, unique=True)):
            n[1][q] = draw(st.integers(1, 9))
        if draw(st.integers(0, 3)) == 0:
            n[1] = {"_": [n[1]["file"]]}
        return n
    if k == 3:
        p = {"text": draw(STRS)}
        for q in draw(st.lists(st.sampled_from(["size", "font", "halign", "valign", "spacing", "direction", "language", "script", "tracking",
                                                "$fn"]), unique=True, max_size=5)):
            p[q] = draw({"size": st.integers(1, 20), "font": STRS, "halign": st.sampled_from(["left", "center", "right"]),
                         "valign": st.sampled_from(["top", "center", "baseline", "bottom"]), "spacing": st.integers(1, 30).map(lambda i: i / 7),
                         "direction": st.sampled_from(["ltr", "rtl", "ttb", "btt"]), "language": st.sampled_from(["en", "de"]),
                         "script": st.sampled_from(["latin", "arabic"]), "tracking": st.integers(-20, 40).map(lambda i: i / 8),
                         "$fn": st.integers(0, 30)}[q])
        return ["linear_extrude", {"height": 1}, [["text", p]]]
    if k == 4:
        d = {"$fn": draw(st.integers(0, 12))}
        for q in draw(st.lists(st.sampled_from(["$fa", "$fs"]), min_size=1, max_size=2, unique=True)):
            d[q] = draw(st.one_of(st.integers(1, 30), st.integers(1, 9999999).map(lambda i: i / 123457)))
        return draw(st.sampled_from([["sphere", {"r": 2}], ["cylinder", {"r": 2, "h": 3}], ["linear_extrude", {"height": 2}, [["circle", {"r": 2}]]]])
                    .map(lambda n: [n[0], dict(n[1], **d)] + n[2:]))
    c = draw(st.one_of(st.lists(st.integers(0, 1000).map(lambda i: i / 1000), min_size=3, max_size=4),
                       st.lists(st.integers(0, 255).map(lambda i: i / 255), min_size=3, max_size=4), st.none()))
    p = {"c": c}
    if c is None or len(c) == 3:
        if draw(st.booleans()):
            p["alpha"] = draw(st.integers(0, 1000)) / 1000
    return ["color", p, [draw(gen.cube())]]


def unround(n):
    """No truly round sphere."""
    m = [n[0], dict(n[1])]
    if n[0] == "sphere" and not 0 < m[1].get("$fn", 0) <= 100:
        m[1]["$fn"] = 8
    if len(n) > 2:
        m.append([unround(c) for c in n[2]])
    return m


@st.composite
def model(draw, most=3):
    ns = draw(gen.full(2, most))
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        n = draw(extra())
        if draw(st.booleans()):
            n = draw(gen.xform(st.just([n])))
        ns.insert(draw(st.integers(0, len(ns))), n)
    if draw(st.integers(0, 5)) == 0:
        ns = copy_with_mark(ns, [draw(st.integers(0, len(ns) - 1))])
    return ns


@st.composite
def scadcase(draw):
    return dict(nodes=draw(model()), z=draw(heights()), fmt=draw(st.sampled_from(["scad", "stl", "stlb"])))


@st.composite
def syncase(draw):
    return dict(nodes=draw(model()), feats=draw(st.integers(0, 1)), seed=draw(st.integers(0, 1 << 30)))


@st.composite
def two(draw):
    """2D trees below an extrusion, and rotated extrusions with any angle."""
    if draw(st.integers(0, 2)) == 0:
        n = draw(gen.rotext())
        n[1]["angle"] = draw(st.sampled_from([359.99991, 359.9995, 90.000123, 12.3456789, 270.00021, 180.00009, 1e-1, 720, -90, 33.3333333]))
        return dict(nodes=[n], z=draw(heights()), fmt=draw(st.sampled_from(["scad", "stl"])))
    n = draw(gen.big2()) if draw(st.integers(0, 7)) == 0 else draw(gen.csg2(draw(st.integers(1, 3)), gen.leaf2x()))
    n = ["linear_extrude", {"height": draw(st.integers(1, 40)) / 7, "center": draw(st.booleans())}, [n]]
    return dict(nodes=[n], z=draw(heights()), fmt=draw(st.sampled_from(["scad", "stl"])))


def files(ctx):
    for k, v in (("a.stl", tetra(4, 0, 0)), ("b c.stl", tetra(3, -4, 1)), ("d/e.stl", tetra(2, 3, 3)), ("q'\"%s.stl", tetra(2, -3, -3))):
        ctx.write(k, v)


def dump(ctx, name, mode):
    r = ctx.hob3l(["-q", name, mode])
    return r


def layers(ctx, name, z, fmt):
    o, extra = geo.FORMATS[fmt]
    res = []
    for q in z:
        r = ctx.hob3l(["-q", name, "-o", o, "--z=%.17g" % q] + extra, outs=[o])
        if r.rc:
            return r.err
        d = r.files[o]
        g = out.scad_regions(d) if fmt == "scad" else out.stl_regions(d, fmt == "stlb")
        import numpy as np
        s = [b for _, b in g]
        res.append(np.vstack(s) if s else np.zeros((0, 4)))
    return res


def nearby(ctx, name, z, fmt):
    # a coordinate rounded differently moves the edge of an almost level face far
    import numpy as np
    r = [layers(ctx, name, [z + d * scad.PX], fmt) for d in (-3, 3)]
    return [np.zeros((0, 4)) if isinstance(s, bytes) else s[0] for s in r]


def compare(ctx, case, a, b, what):
    la, lb = layers(ctx, a, case["z"], case["fmt"]), layers(ctx, b, case["z"], case["fmt"])
    if isinstance(la, bytes):
        raise Discard("the original is not converted: " + la.decode("latin1")[:80])
    if isinstance(lb, bytes):
        raise Violation("the original is converted, but not its %s: %s" % (what, lb.decode("latin1")[:400]))
    ins = 0
    for z, x, y in zip(case["z"], la, lb):
        ins += geo.same_region(x, y, geo.rng_for(case), case.get("rho", 6 * scad.PX), what="layer z=%.9g of the model vs. its %s: " % (z, what),
                               near=lambda z=z: nearby(ctx, a, z, case["fmt"]))
    return ins


def run_scad(case, ctx):
    files(ctx)
    ctx.write("m.scad", scad.program(case["nodes"]))
    r = dump(ctx, "m.scad", "--dump-scad")
    if r.rc:
        raise Violation("--dump-scad fails: " + r.err.decode("latin1")[:400])
    ctx.write("d.scad", r.out)
    r2 = dump(ctx, "d.scad", "--dump-scad")
    if r2.rc:
        raise Violation("the SCAD dump is not accepted: " + r2.err.decode("latin1")[:400])
    if r2.out != r.out:
        a, b = r.out.split(b"\n"), r2.out.split(b"\n")
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        raise Violation("dumping the SCAD dump again changes line %d: %r becomes %r" % (i + 1, a[i:i + 1], b[i:i + 1]))
    ctx.nt(compare(ctx, case, "m.scad", "d.scad", "SCAD dump") > 0)
    for n in scad.walk(case["nodes"]):
        if n[0] in ("import", "text", "color", "hull", "projection", "rotate_extrude"):
            ctx.label(n[0])


NUM = re.compile(rb"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)")


def same_text(a, b):
    """Equal except for the last digit of numbers (the dump prints 16 digits)."""
    if a == b:
        return True
    if NUM.sub(b"#", a) != NUM.sub(b"#", b):
        return False
    return all(x == y or abs(float(x) - float(y)) <= 4e-15 * abs(float(x)) for x, y in zip(NUM.findall(a), NUM.findall(b)))


def run_syn(case, ctx):
    files(ctx)
    if case["feats"]:
        ctx.write("m.scad", spell.spell(case["nodes"], spell.FEATURES, case["seed"])[0])
    else:
        ctx.write("m.scad", scad.program(case["nodes"]))
    r = dump(ctx, "m.scad", "--dump-syn")
    if r.rc:
        raise Violation("--dump-syn fails: " + r.err.decode("latin1")[:400])
    ctx.write("d.scad", r.out)
    r2 = dump(ctx, "d.scad", "--dump-syn")
    if r2.rc:
        raise Violation("the syntax dump is not accepted: " + r2.err.decode("latin1")[:400])
    if r2.out != r.out:
        raise Violation("dumping the syntax dump again changes it")
    a, b = dump(ctx, "m.scad", "--dump-scad"), dump(ctx, "d.scad", "--dump-scad")
    if a.rc != b.rc or not same_text(a.out, b.out):
        x, y = a.out.split(b"\n"), b.out.split(b"\n")
        i = next((i for i in range(min(len(x), len(y))) if not same_text(x[i], y[i])), min(len(x), len(y)))
        raise Violation("the syntax dump means something else: SCAD dump line %d is %r, was %r (status %d, was %d)"
                        % (i + 1, y[i:i + 1], x[i:i + 1], b.rc, a.rc))
    ctx.nt(len(a.out) > 0)


@st.composite
def csg3case(draw):
    ns = [unround(n) for n in draw(model(2))]
    ns = [n for n in ns]

    def rec(n):
        if n[0] == "linear_extrude":
            return [n[0], {k: v for k, v in n[1].items()}, [draw(onepath())]]
        return [n[0], n[1]] + ([[rec(c) for c in n[2]]] if len(n) > 2 else [])
    return dict(nodes=[rec(n) for n in ns], z=draw(heights()), fmt=draw(st.sampled_from(["scad", "stl"])))


@st.composite
def onepath(draw):
    n = draw(st.one_of(gen.square(), gen.circle(), gen.star().map(lambda p: ["polygon", {"points": p}])))
    return draw(gen.xform(st.just([n]), three=False)) if draw(st.booleans()) else n


def run_csg3(case, ctx):
    files(ctx)
    ctx.write("m.scad", scad.program(case["nodes"]))
    r = dump(ctx, "m.scad", "--dump-csg3")
    if r.rc:
        r1 = ctx.hob3l(["-q", "m.scad", "-o", "o.scad", "--z=1"], outs=["o.scad"])
        if r1.rc == 0:
            raise Violation("--dump-csg3 fails: " + r.err.decode("latin1")[:400])
        raise Discard("the original is not converted")
    ctx.write("d.scad", r.out)
    if b"hob3l_xor" in r.out:
        raise Discard("uses XOR")
    ctx.nt(compare(ctx, case, "m.scad", "d.scad", "CSG3 dump") > 0)
    r2 = dump(ctx, "d.scad", "--dump-csg3")
    if r2.rc:
        raise Violation("--dump-csg3 of the CSG3 dump fails: " + r2.err.decode("latin1")[:400])


@st.composite
def roundcase(draw):
    n = ["sphere", dict(draw(st.sampled_from([{"r": 1}, {"r": 2.5}, {"d": 3}, {"r": .4}, {}])), **draw(st.sampled_from([{}, {"$fn": 0}, {"$fn": 101}])))]
    for _ in range(draw(st.integers(0, 3))):
        n = draw(gen.xform(st.just([n])))
    return dict(nodes=[n], h=draw(st.lists(st.integers(-80, 80).map(lambda i: i / 100), min_size=2, max_size=4, unique=True)),
                fmt=draw(st.sampled_from(["scad", "stl"])))


def run_round(case, ctx):
    # a perfectly round sphere comes back as a sphere of 100 facets
    import numpy as np
    M, n = np.eye(4), case["nodes"][0]
    while n[0] != "sphere":
        M, n = M @ scad.matrix(n[0], n[1]), n[2][0]
    A = M[:3, :3] * scad.sph_r(n[1])
    s = np.linalg.svd(A, compute_uv=False)
    if s[2] < .05:
        raise Discard("flat")
    up = np.linalg.norm(A[2])
    ctx.write("m.scad", scad.program(case["nodes"]))
    r = dump(ctx, "m.scad", "--dump-csg3")
    if r.rc:
        raise Violation("--dump-csg3 fails: " + r.err.decode("latin1")[:400])
    ctx.write("d.scad", r.out)
    case = dict(case, z=[float(M[2, 3] + h * up) for h in case["h"]], rho=.006 * float(s[0]) + 6 * scad.PX)
    ctx.nt(compare(ctx, case, "m.scad", "d.scad", "CSG3 dump") > 0)


PARTS = [
    Part("scad", scadcase(), run_scad, 1200, 24000),
    Part("scad-2d", two(), run_scad, 500, 10000),
    Part("syn", syncase(), run_syn, 1000, 20000),
    Part("csg3", csg3case(), run_csg3, 1000, 20000),
    Part("round", roundcase(), run_round, 400, 8000),
]
