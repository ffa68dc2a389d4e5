"""C11: transformations."""
import math
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, geom, out, scad
from hv.run import Part, Violation

PROP = "C11"
TECHNIQUE = "property-based testing (Hypothesis): transformation chains against independently computed matrices"
NOTE = ("Random search over chains of transformations.  Vertices in the CSG3 dump are compared with an independently computed matrix product "
        "(relative 1e-9; exactly for exactly representable chains), layers at sampled points.")
RULE = ("A case is a chain of 1-5 nested transformations around a primitive (3D, including exact spheres, or 2D inside an extrusion), or an invalid "
        "transformation, which must be rejected.  Non-trivial: two or more transformations, a tilted ellipsoid that is hit, or a rejection.")
ASSUMPTIONS = ["the CSG3 dump prints the transformed polyhedron vertices with 16 digits"]


def asym():
    """Objects without symmetry."""
    return st.sampled_from([
        ["polyhedron", {"points": [[0, 0, 0], [3, 0, 0], [0, 2, 0], [0.5, 0.25, 1.5]], "faces": [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]}],
        ["translate", {"v": [1, 0.5, 0.25]}, [["cube", {"size": [3, 2, 1]}]]],
        ["translate", {"v": [1, 2, 0]}, [["cylinder", {"h": 2, "r1": 1, "r2": 0.5, "$fn": 5}]]],
        ["translate", {"v": [.5, 1, 2]}, [["sphere", {"r": 1.5, "$fn": 7}]]]])


@st.composite
def chain(draw, leaf, three, lo=1, hi=5):
    n = draw(leaf)
    for _ in range(draw(st.integers(lo, hi))):
        n = draw(gen.xform(st.just([n]), three))
    return n


def prod(n):
    """-> (matrix, leaf)"""
    M = np.eye(4)
    while n[0] in scad.XFORM:
        M = M @ scad.matrix(n[0], n[1])
        n = n[2][0]
    return M, n


def poly_of(ctx, text):
    ctx.write("m.scad", text)
    r = ctx.hob3l(["m.scad", "-q", "--dump-csg3"])
    if r.rc != 0:
        raise Violation("valid model is rejected: status %d, %s" % (r.rc, r.err.decode("latin1")[:400]))
    d = out.scad_generic(r.out)
    d = [x for x in d]
    if len(d) != 1 or d[0][0] != "polyhedron":
        raise Violation("CSG3 dump has %r instead of one polyhedron" % [x[0] for x in d])
    a = d[0][1]
    return np.array(a["points"], float), [[int(i) for i in f] for f in a["faces"]]


def volume(pts, faces):
    v = 0.0
    for f in faces:
        for i in range(1, len(f) - 1):
            v += float(np.dot(pts[f[0]], np.cross(pts[f[i]], pts[f[i + 1]])))
    return v / 6


def match(got, want, tol, what):
    if len(got) != len(want):
        raise Violation("%s: %d vertices, expected %d" % (what, len(got), len(want)))
    d = np.abs(got[:, None, :] - want[None, :, :]).max(axis=2)
    for i in range(len(want)):
        j = int(np.argmin(d[:, i]))
        if not d[j, i] <= tol:
            raise Violation("%s: expected vertex %s is missing (nearest %s)" % (what, want[i].tolist(), got[j].tolist()))
        d[j, :] = np.inf


def verts(leaf):
    t = scad.prim3_tris(leaf, scad.MAX_FN).reshape(-1, 3)
    return np.unique(t, axis=0)


def v3():
    @st.composite
    def c(draw):
        return dict(node=draw(chain(asym(), True)), z=[draw(st.integers(5, 95)) / 100 for _ in range(2)])
    return c()


def run3(case, ctx):
    n = case["node"]
    M, leaf = prod(n)
    pts, faces = poly_of(ctx, scad.program([n]))
    want = geom.apply(M, verts(leaf))
    scale = max(1.0, np.abs(want).max(), np.abs(M).max())
    match(pts, want, 1e-9 * scale * (1 + np.linalg.cond(M[:3, :3])), "vertices")
    if volume(pts, faces) >= 0:
        raise Violation("the faces of the transformed polyhedron are not clockwise from outside")
    nx = sum(1 for x in scad.walk([n]) if x[0] in scad.XFORM)
    lo, hi = want[:, 2].min(), want[:, 2].max()
    if hi - lo > 1e-2 and np.abs(want).max() < 500:
        rho = 3 * scad.PX
        for t in case["z"]:
            z = lo + (hi - lo) * t
            reg = geo.run_layers(ctx, scad.program([n]), ["-q", "--z=%.17g" % z], "scad")
            geo.check_model(ctx, case, [n], reg, [z], rho=rho, npts=100)
    ctx.nt(nx >= 2)
    ctx.label("mirrored" if np.linalg.det(M[:3, :3]) < 0 else "upright", "chain-%d" % nx)


# ------------------------------------------------- exact spheres (ellipsoids)
@st.composite
def ell_cases(draw):
    n = ["sphere", {"r": draw(st.sampled_from([1, 2, 2.5]))}]
    if draw(st.booleans()):
        n = ["translate", {"v": [draw(st.integers(-3, 3)) for _ in range(3)]}, [n]]
    for _ in range(draw(st.integers(1, 4))):
        n = draw(gen.xform(st.just([n]), True))
    return dict(node=n, z=[draw(st.integers(2, 98)) / 100 for _ in range(2)], fmt=draw(st.sampled_from(["stl", "scad"])))


@st.composite
def big_cases(draw):
    """Large and very different radii."""
    n = ["sphere", {"r": 1}]
    sc = st.one_of(st.integers(20, 700), st.integers(200, 20000).map(lambda i: i / 10))
    n = ["scale", {"v": [draw(sc) for _ in range(3)]}, [n]]
    for _ in range(draw(st.integers(0, 2))):
        n = draw(gen.xform(st.just([n]), True))
    n = ["rotate", {"a": [draw(st.integers(-90, 90)) for _ in range(3)]}, [n]]
    return dict(node=n, z=[draw(st.integers(2, 98)) / 100 for _ in range(2)], fmt=draw(st.sampled_from(["stl", "scad"])), big=8000)


def run_ell(case, ctx):
    n = case["node"]
    big = case.get("big", 500)
    M, leaf = prod(n)
    h = np.linalg.norm(M[2, :3]) * leaf[1]["r"]
    lo, hi = M[2, 3] - h, M[2, 3] + h
    if h < 1e-2 or np.linalg.norm(M[:3], 2) * 3 > big or np.linalg.norm(M, 2) > big:
        return ctx.label("too-flat-or-large")
    any_in = 0
    for t in case["z"]:
        z = lo + (hi - lo) * t
        reg = geo.run_layers(ctx, scad.program([n]), ["-q", "--z=%.17g" % z], case["fmt"])
        tot, ins, lay = geo.check_model(ctx, case, [n], reg, [z], rho=6 * scad.PX * max(1, big / 1000), npts=120)
        any_in += ins
    L = M[:3, :3] / np.cbrt(abs(np.linalg.det(M[:3, :3])))
    tilted = abs(L @ L.T - np.diag(np.diag(L @ L.T))).max() > .05
    ctx.nt(any_in > 0 and tilted)
    ctx.label("tilted-ellipsoid" if tilted else "axis-parallel")


# ---------------------------------------------------------- exact chains
def step_exact():
    i = st.integers(-9, 9)
    r90 = st.one_of(st.integers(-8, 8), st.integers(-20000000, 20000000)).map(lambda k: 90 * k)
    ax = st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, 0, -1], [0, 2, 0], [0, 0, 5], [-3, 0, 0]])
    sc = st.sampled_from([1, 2, 3, -1, -2, .5, -.25, 4])
    mm = st.tuples(st.permutations([0, 1, 2]), st.tuples(sc, sc, sc), st.tuples(i, i, i), st.integers(0, 3))

    def mk(t):
        p, s, tr, k = t
        m = [[0] * 4 for _ in range(4)]
        m[3][3] = 1
        for r in range(3):
            m[r][p[r]] = s[r]
            m[r][3] = tr[r]
        if k == 1:
            return m[:3]
        if k == 2:
            return [r[:3] for r in m[:3]]
        if k == 3 and p[2] == 2 and s[2] == 1:
            return [r[:2] for r in m[:2]]
        return m
    return st.one_of(
        st.tuples(i, i, i).map(lambda v: ["translate", {"v": list(v)}]),
        st.tuples(i, i).map(lambda v: ["translate", {"v": list(v)}]),
        st.tuples(r90, r90, r90).map(lambda v: ["rotate", {"a": list(v)}]),
        st.tuples(r90, ax).map(lambda v: ["rotate", {"a": v[0], "v": v[1]}]),
        ax.map(lambda v: ["mirror", {"v": v}]),
        st.sampled_from([[1, 0], [0, 1], [-1, 0], [0, 3]]).map(lambda v: ["mirror", {"v": v}]),
        sc.map(lambda v: ["scale", {"v": v}]),
        st.tuples(sc, sc).map(lambda v: ["scale", {"v": list(v)}]),
        st.tuples(sc, sc, sc).map(lambda v: ["scale", {"v": list(v)}]),
        mm.map(lambda t: ["multmatrix", {"m": mk(t)}]))


@st.composite
def exact_cases(draw):
    n = ["polyhedron", {"points": [[0, 0, 0], [3, 0, 0], [0, 2, 0], [1, 1, 4]], "faces": [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]}] \
        if draw(st.booleans()) else ["cube", {"size": [3, 2, 1]}]
    for _ in range(draw(st.integers(1, 5))):
        f, p = draw(step_exact())
        k = list(p)
        if draw(st.booleans()):
            p = {"_": [p[x] for x in k]}     # positional
        n = [f, p, [n]]
    return dict(node=n)


def run_exact(case, ctx):
    n = case["node"]
    M, leaf = prod(n)
    M = np.round(M * 2 ** 30) / 2 ** 30
    pts, faces = poly_of(ctx, scad.program([n]))
    want = geom.apply(M, verts(leaf))
    match(pts, want, 0.0, "exact vertices")
    if volume(pts, faces) >= 0:
        raise Violation("the faces of the transformed polyhedron are not clockwise from outside")
    nx = sum(1 for x in scad.walk([n]) if x[0] in scad.XFORM)
    ctx.nt(nx >= 2)
    ctx.label("exact-chain-%d" % nx)


# ------------------------------------------------------------------ sin/cos
# exact values at multiples of 30 degrees where rational
def run_angle(case, ctx):
    a = case["a"]
    x, y = case["p"]
    text = "rotate(%s,[0,0,%d]) translate([%d,%d,0]) cube([2,4,2]);" % (scad.num(a), case["v"], x, y)
    pts, _ = poly_of(ctx, text)
    c, s = geom.cosd(a), geom.sind(a) * case["v"]
    want = np.array([[u * c - v * s, u * s + v * c, w] for u in (x, x + 2) for v in (y, y + 4) for w in (0, 2)])
    match(pts, want, 2e-14 * (abs(x) + abs(y) + 9), "rotated vertices")
    ctx.nt(a % 90 != 0)
    ctx.label("mod30" if a % 30 == 0 else "other")


@st.composite
def angle_cases(draw):
    a = draw(st.one_of(st.integers(-24, 24).map(lambda k: 30 * k), st.integers(-2 ** 24, 2 ** 24), st.integers(-72000000, 72000000).map(lambda k: 30 * k),
                       st.integers(-7200, 7200).map(lambda k: k / 16)))
    return dict(a=a, v=draw(st.sampled_from([1, -1])), p=[draw(st.integers(-3, 9)), draw(st.integers(-3, 9))])


# --------------------------------------------------------------------- 2D
@st.composite
def v2(draw):
    leaf = st.sampled_from([
        ["polygon", {"points": [[0, 0], [3, 0], [3, 1], [1, 1], [1, 2.5], [0, 2.5]]}],
        ["translate", {"v": [1, .5]}, [["square", {"size": [2, 1]}]]],
        ["translate", {"v": [1, .5]}, [["circle", {"r": 1, "$fn": 5}]]]])
    return dict(node=["linear_extrude", {"height": 2}, [draw(chain(leaf, False))]])


def run2(case, ctx):
    n = case["node"]
    M, _ = prod(n[2][0])
    if np.abs(M).max() > 400:
        ctx.nt(False)
        return
    reg = geo.run_layers(ctx, scad.program([n]), ["-q", "--z=1.01"], "scad")
    k = max(1.0, np.linalg.norm(M[:2, :2], 2))
    tot, ins, lay = geo.check_model(ctx, case, [n], reg, [1.01], rho=3 * scad.PX)
    nx = sum(1 for x in scad.walk([n]) if x[0] in scad.XFORM)
    ctx.nt(nx >= 2 and ins > 0)
    ctx.label("2d-chain-%d" % nx)


# ----------------------------------------------------------------- rejects
@st.composite
def rejects(draw):
    i = st.integers(-5, 5)
    nz = i.filter(bool)
    k = draw(st.integers(0, 14))
    if k == 0: x = ["scale", {"v": 0}]
    elif k == 14: x = ["rotate", {"a": draw(st.sampled_from([0, 30, 90, -45])), "v": draw(st.sampled_from([[0, 0, 0], [0, 0, 1e-6], [1e-5, 0, 0]]))}]
    elif k == 1:
        v = [draw(nz) for _ in range(draw(st.integers(2, 3)))]
        v[draw(st.integers(0, len(v) - 1))] = 0
        x = ["scale", {"v": v}]
    elif k == 2: x = ["mirror", {"v": [0] * draw(st.integers(2, 3))}]
    elif k == 3:
        # rows linearly dependent
        a, b = [[draw(i) for _ in range(3)] for _ in range(2)]
        s, t = draw(i), draw(i)
        c = [s * u + t * v for u, v in zip(a, b)]
        rows = draw(st.permutations([a, b, c]))
        x = ["multmatrix", {"m": [list(r) + [draw(i)] for r in rows]}]
    elif k == 4:
        m = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]
        j = draw(st.integers(0, 3))
        m[3][j] += draw(nz)
        x = ["multmatrix", {"m": m}]
    elif k == 5: x = ["multmatrix", {"m": draw(st.sampled_from([5, True, [1, 2], [[1]], [[1, 0, 0], [0, 1, 0], 3], [], [[1, 0], [0, "a"]],
                                                                [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0, 1], [0, 0, 0, 0]]]))}]
    elif k == 6: x = ["translate", {"v": draw(st.sampled_from([3, [1], [1, 2, 3, 4], "a", True, []]))}]
    elif k == 7: x = ["rotate", {"a": draw(st.sampled_from([[1, 2], [1], [1, 2, 3, 4], [], "a"]))}]
    elif k == 8: x = ["rotate", {"a": 30, "v": draw(st.sampled_from([1, [1, 2], "a", [1, 2, 3, 4]]))}]
    elif k == 9: x = ["mirror", {"v": draw(st.sampled_from([1, [1], [1, 2, 3, 4], "a"]))}]
    elif k == 10: x = [draw(st.sampled_from(["scale", "translate", "mirror", "multmatrix", "rotate"])), {}]
    elif k == 11: x = ["scale", {"v": draw(st.sampled_from([[1], [1, 2, 3, 4], "a", []]))}]
    elif k == 12: x = ["rotate", {"a": [1, 2, 3], "v": [0, 0, 1]}]
    else: x = ["multmatrix", {"m": [[1, 2, 0], [2, 4, 0], [0, 0, 1]]}]
    return dict(x=x, good=draw(st.booleans()))


def run_rej(case, ctx):
    f, p = case["x"]
    ctx.write("m.scad", scad.program([[f, p, [["cube", {"size": 2}]]]]))
    r = ctx.hob3l(["m.scad", "-q", "-o", "o.stl"], outs=["o.stl"])
    if r.rc != 1 or not r.err.strip():
        raise Violation("invalid %s(%s) is not rejected with an error: status %d, %r" % (f, p, r.rc, r.err[:300]))
    ctx.nt(True)
    ctx.label("reject-" + f)


PARTS = [Part("chain", v3, run3, quick=2500),
         Part("ellipsoid", ell_cases, run_ell, quick=1500),
         Part("big", big_cases, run_ell, quick=800),
         Part("exact", exact_cases, run_exact, quick=2500),
         Part("angle", angle_cases, run_angle, quick=1500),
         Part("chain2d", v2, run2, quick=1500),
         Part("reject", rejects, run_rej, quick=800)]
