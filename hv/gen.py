"""Hypothesis strategies for SCAD models (JSON-able trees, see scad.py)."""
import hypothesis.strategies as st

# lengths and coordinates: a mix of round numbers (coincidences are wanted) and odd ones
def coord(lo=-6, hi=6):
    return st.one_of(
        st.integers(lo, hi),
        st.integers(lo * 2, hi * 2).map(lambda i: i / 2),
        st.integers(lo * 8, hi * 8).map(lambda i: i / 8),
        st.integers(lo * 1000, hi * 1000).map(lambda i: i / 1000))


def length(lo=0.2, hi=8):
    a = max(1, int(lo))
    return st.one_of(
        st.sampled_from([x for x in (1, 2, .5) if lo <= x <= hi] or [hi]),
        st.integers(a, int(hi)),
        st.integers(int(lo * 4) or 1, int(hi * 4)).map(lambda i: i / 4),
        st.integers(int(lo * 1000), int(hi * 1000)).map(lambda i: i / 1000))


ANGLES = [0, 30, 45, 60, 90, 120, 135, 180, 210, 225, 270, 300, 330, 360, -30, -45, -90, -180, -270]


def angle():
    return st.one_of(st.sampled_from(ANGLES), st.integers(-360, 360),
                     st.integers(-36000, 36000).map(lambda i: i / 100))


def fn(lo=0, hi=16):
    return st.one_of(st.integers(3, 8), st.integers(lo, hi))


@st.composite
def cube(draw):
    p = {}
    k = draw(st.integers(0, 2))
    if k == 0:
        p["size"] = draw(length())
    elif k == 1:
        p["size"] = [draw(length()) for _ in range(3)]
    else:
        p["size"] = [draw(length()) for _ in range(3)]
    if draw(st.booleans()):
        p["center"] = draw(st.booleans())
    return ["cube", p]


@st.composite
def sphere(draw, maxfn=16, round_=True):
    p = {}
    if draw(st.booleans()):
        p["r"] = draw(length(0.3, 5))
    else:
        p["d"] = draw(length(0.6, 10))
    k = draw(st.integers(0, 5))
    if k == 0 and round_:
        if draw(st.booleans()):
            p["$fn"] = draw(st.sampled_from([0, 101, 1000]))
    else:
        p["$fn"] = draw(st.integers(3, maxfn))
    return ["sphere", p]


@st.composite
def cylinder(draw, maxfn=16):
    p = {"h": draw(length())}
    k = draw(st.integers(0, 5))
    if k == 0:
        p["r"] = draw(length(0.3, 5))
    elif k == 1:
        p["d"] = draw(length(0.6, 10))
    elif k == 2:
        p["r1"], p["r2"] = draw(length(0.3, 5)), draw(length(0.3, 5))
    elif k == 3:
        p["d1"], p["d2"] = draw(length(0.6, 8)), draw(length(0.6, 8))
    elif k == 4:
        p["r1"], p["r2"] = draw(st.sampled_from([(0, 1), (1, 0)])), 0
        r = draw(length(0.3, 5))
        p["r1"], p["r2"] = (0, r) if p["r1"] == (0, 1) else (r, 0)
    else:
        p["r1"] = draw(length(0.3, 5))
    if draw(st.booleans()):
        p["center"] = draw(st.booleans())
    p["$fn"] = draw(st.integers(3, maxfn))
    return ["cylinder", p]


def _box_poly(x, y, z, v):
    """A general hexahedron-ish polyhedron: prism over a polygon."""


@st.composite
def prism_polyhedron(draw):
    """Polyhedra: prisms/pyramids over random star-shaped polygons, faces clockwise from outside."""
    n = draw(st.integers(3, 7))
    import math
    radii = [draw(st.integers(4, 40)) / 10 for _ in range(n)]
    h = draw(length(0.5, 6))
    base = [[round(r * math.cos(2 * math.pi * i / n), 3), round(r * math.sin(2 * math.pi * i / n), 3), 0]
            for i, r in enumerate(radii)]
    if draw(st.booleans()):
        ax, ay = draw(coord(-2, 2)), draw(coord(-2, 2))
        pts = base + [[ax, ay, h]]
        faces = [list(range(n))] + [[i, n, (i + 1) % n] for i in range(n)]
    else:
        dx, dy = draw(coord(-2, 2)), draw(coord(-2, 2))
        pts = base + [[x + dx, y + dy, h] for x, y, _ in base]
        faces = [list(range(n)), [n + i for i in range(n)][::-1]]
        faces += [[i, n + i, n + (i + 1) % n, (i + 1) % n] for i in range(n)]
    return ["polyhedron", {"points": pts, "faces": faces}]


def prim3(round_=True):
    return st.one_of(cube(), cube(), cylinder(), sphere(round_=round_), prism_polyhedron())


def nz(lo, hi):
    return coord(lo, hi).filter(lambda x: abs(x) > 0.2)


@st.composite
def xform(draw, child, three=True):
    k = draw(st.sampled_from(["translate"] * 4 + ["rotate"] * 3 + ["scale", "mirror", "multmatrix"]))
    ch = draw(child)
    if k == "translate":
        n = draw(st.sampled_from([3, 3, 3, 2])) if three else draw(st.sampled_from([2, 3]))
        v = [draw(coord()) for _ in range(n)]
        if not three and n == 3:
            v[2] = 0
        return ["translate", {"v": v}, ch]
    if k == "rotate":
        if not three:
            if draw(st.booleans()):
                return ["rotate", {"a": [0, 0, draw(angle())]}, ch]
            return ["rotate", {"a": draw(angle()), "v": [0, 0, draw(st.sampled_from([1, -1, 2]))]}, ch]
        if draw(st.booleans()):
            return ["rotate", {"a": [draw(angle()) for _ in range(3)]}, ch]
        v = [draw(st.integers(-3, 3)) for _ in range(3)]
        if v == [0, 0, 0]:
            v = [0, 0, 1]
        return ["rotate", {"a": draw(angle()), "v": v}, ch]
    sc = st.one_of(st.integers(2, 16).map(lambda i: i / 8), st.integers(-16, -2).map(lambda i: i / 8))
    if k == "scale":
        n = draw(st.integers(1, 3))
        if n == 1:
            return ["scale", {"v": draw(sc)}, ch]
        v = [draw(sc) for _ in range(n)]
        if not three and n == 3:
            v[2] = 1
        return ["scale", {"v": v}, ch]
    if k == "mirror":
        n = draw(st.sampled_from([3, 2])) if three else draw(st.sampled_from([2, 2, 3]))
        v = [draw(st.integers(-3, 3)) for _ in range(n)]
        if not three and n == 3:
            v[2] = 0
        if not any(v):
            v[0] = 1
        return ["mirror", {"v": v}, ch]
    # multmatrix: unit + shear + scale, well-conditioned
    m = [[1.0 if i == j else 0.0 for j in range(4)] for i in range(4)]
    rng = range(3) if three else range(2)
    for i in rng:
        m[i][i] = draw(sc)
        m[i][3] = draw(coord(-3, 3))
    a, b = draw(st.sampled_from([(i, j) for i in rng for j in rng if i != j]))
    m[a][b] = draw(st.integers(-8, 8)) / 8
    if draw(st.booleans()):
        m = m[:3]
        if draw(st.booleans()) and all(r[3] == 0 for r in m):
            m = [r[:3] for r in m]
    return ["multmatrix", {"m": m}, ch]


@st.composite
def csg3(draw, depth=3, leaf=None, width=4):
    """One 3D node."""
    if leaf is None:
        leaf = prim3()
    if depth <= 0:
        return draw(leaf)
    k = draw(st.sampled_from(["leaf", "xform", "xform", "union", "difference", "difference", "intersection"]))
    if k == "leaf":
        return draw(leaf)
    if k == "xform":
        n = draw(st.sampled_from([1, 1, 1, 2]))
        return draw(xform(st.lists(csg3(depth - 1, leaf, width), min_size=n, max_size=n)))
    n = draw(st.integers(1 if k == "union" else 2, width))
    ch = [draw(csg3(depth - 1, leaf, width)) for _ in range(n)]
    if k == "union":
        k = draw(st.sampled_from(["union", "union", "group", "render"]))
    return [k, {}, ch]


# ---------------------------------------------------------------- 2D

@st.composite
def square(draw):
    p = {"size": draw(st.one_of(length(), st.tuples(length(), length()).map(list)))}
    if draw(st.booleans()):
        p["center"] = draw(st.booleans())
    return ["square", p]


@st.composite
def circle(draw, maxfn=16):
    p = {"$fn": draw(st.integers(3, maxfn))}
    if draw(st.booleans()):
        p["r"] = draw(length(0.3, 5))
    else:
        p["d"] = draw(length(0.6, 9))
    return ["circle", p]


@st.composite
def star(draw, lo=3, hi=9, scale=10.0):
    """A star-shaped simple polygon, either orientation."""
    import math
    n = draw(st.integers(lo, hi))
    cx, cy = draw(coord(-3, 3)), draw(coord(-3, 3))
    pts = []
    for i in range(n):
        r = draw(st.integers(5, 40)) / scale
        pts.append([round(cx + r * math.cos(2 * math.pi * i / n), 3),
                    round(cy + r * math.sin(2 * math.pi * i / n), 3)])
    if draw(st.booleans()):
        pts = pts[::-1]
    return pts


@st.composite
def polygon(draw, multi=True):
    k = draw(st.integers(0, 2)) if multi else 0
    if k < 2:
        return ["polygon", {"points": draw(star())}]
    # several paths, XORed (may overlap, hole, anything)
    ps = [draw(star()) for _ in range(draw(st.integers(1, 3)))]
    pts, paths = [], []
    for q in ps:
        q = [v for v in q if v not in pts]
        if len(q) < 3:
            continue
        paths.append(list(range(len(pts), len(pts) + len(q))))
        pts += q
    return ["polygon", {"points": pts, "paths": paths}]


def prim2():
    return st.one_of(square(), circle(), polygon())


@st.composite
def csg2(draw, depth=2, leaf=None, width=3):
    if leaf is None:
        leaf = prim2()
    if depth <= 0:
        return draw(leaf)
    k = draw(st.sampled_from(["leaf", "xform", "xform", "union", "difference", "difference", "intersection"]))
    if k == "leaf":
        return draw(leaf)
    if k == "xform":
        n = draw(st.sampled_from([1, 1, 2]))
        return draw(xform(st.lists(csg2(depth - 1, leaf, width), min_size=n, max_size=n), three=False))
    n = draw(st.integers(1 if k == "union" else 2, width))
    ch = [draw(csg2(depth - 1, leaf, width)) for _ in range(n)]
    return [k, {}, ch]


@st.composite
def projection(draw, depth=1):
    dz = draw(st.sampled_from([0, -.37, -1.13, .81, -2.7]))
    ch = [["translate", {"v": [draw(coord(-3, 3)), draw(coord(-3, 3)), dz]}, [draw(csg3(depth, width=3))]]]
    return ["projection", draw(st.sampled_from([{"cut": True}, {"_": [True]}, {"cut": True, "convexity": 3}])), ch]


@st.composite
def hull_prims(draw):
    """hull of primitives moved around: what the reference evaluator can do."""
    ch = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(prim2())
        if draw(st.booleans()):
            n = draw(xform(st.just([n]), three=False))
        ch.append(n)
    if draw(st.integers(0, 3)) == 0:
        ch = [["union", {}, ch[:1]]] + ch[1:]
    return ["hull", {}, ch]


def leaf2x():
    return st.one_of(prim2(), prim2(), projection(), hull_prims())


# ---------------------------------------------------------------- many parts

def _grid(n, m, f, d=1.5):
    return [f(i, j, round((i - n / 2) * d, 3), round((j - m / 2) * d, 3)) for i in range(n) for j in range(m)]


@st.composite
def big2(draw):
    """One 2D node of many parts."""
    import math
    k = draw(st.sampled_from(["paths", "paths", "many", "holes", "star", "star", "circle", "cut"]))
    n, m = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    w = draw(st.integers(2, 13)) / 10
    if k == "paths":
        pts, paths = [], []
        for x, y in _grid(n, m, lambda i, j, x, y: (x, y)):
            paths.append([len(pts) + q for q in range(4)])
            pts += [[x, y], [round(x + w, 3), y], [round(x + w, 3), round(y + w, 3)], [x, round(y + w, 3)]]
        if draw(st.booleans()):
            paths.insert(draw(st.sampled_from([0, len(paths)])), [len(pts) + q for q in range(4)])
            a, b = n * .75 + 1, m * .75 + 1
            pts += [[-a, -b], [a, -b], [a, b], [-a, b]]
        return ["polygon", {"points": pts, "paths": paths}]
    if k == "star":
        q = draw(st.integers(20, 300))
        rs = draw(st.lists(st.integers(20, 80), min_size=1, max_size=7))
        return ["polygon", {"points": [[round(rs[i % len(rs)] / 10 * math.cos(2 * math.pi * i / q), 3), round(rs[i % len(rs)] / 10 * math.sin(2 * math.pi * i / q), 3)]
                                       for i in range(q)]}]
    if k == "circle":
        return ["circle", {"r": draw(length(2, 8)), "$fn": draw(st.integers(17, 100))}]
    kinds = draw(st.lists(st.sampled_from(["square", "circle", "turned"]), min_size=1, max_size=3))

    def one(i, j, x, y):
        q = kinds[(i * m + j) % len(kinds)]
        c = ["circle", {"r": w / 2, "$fn": 5 + (i + j) % 4}] if q == "circle" else ["square", {"size": w, "center": True}]
        return ["translate", {"v": [x, y, 0]}, [["rotate", {"a": [0, 0, 7 * i + 3 * j]}, [c]] if q == "turned" else c]]
    if k == "cut":
        return ["intersection", {}, [["rotate", {"a": [0, 0, 3 * i]}, [["square", {"size": [9, 7 + i % 3], "center": True}]]] for i in range(n * m // 2)]]
    parts = _grid(n, m, one)
    if k == "many":
        return ["union", {}, parts]
    return ["difference", {}, [["square", {"size": [n * 1.5 + 2, m * 1.5 + 1], "center": True}]] + parts]


@st.composite
def big(draw):
    """3D nodes of many parts."""
    k = draw(st.sampled_from(["ext", "ext", "ext", "dots", "plate", "tower", "nest", "poly", "round", "cut", "flat"]))
    n, m = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    w = draw(st.integers(2, 13)) / 10
    h = draw(st.integers(1, 6))
    if k == "ext":
        return [["linear_extrude", {"height": h}, [draw(big2())]]]
    kinds = draw(st.lists(st.sampled_from(["cube", "cylinder", "turned"]), min_size=1, max_size=3))

    def one(i, j, x, y, z=0):
        q = kinds[(i * m + j) % len(kinds)]
        c = ["cylinder", {"r": w / 2, "h": 2 + (i + j) % 3, "$fn": 5 + (i + j) % 4}] if q == "cylinder" else ["cube", {"size": [w, w, 2 + j % 4]}]
        return ["translate", {"v": [x, y, z]}, [["rotate", {"a": [7 * i, 0, 3 * j]}, [c]] if q == "turned" else c]]
    if k == "dots":
        return _grid(n, m, one)
    if k == "flat":
        return [["union", {}, _grid(n, m, one)]]
    if k == "plate":
        return [["difference", {}, [["translate", {"v": [-n * .75 - 1, -m * .75 - 1, 0]}, [["cube", {"size": [n * 1.5 + 2, m * 1.5 + 2, h]}]]]]
                 + _grid(n, m, lambda i, j, x, y: one(i, j, x, y, h - 2))]]
    if k == "tower":
        return [["translate", {"v": [0, 0, round(i * .3, 3)]}, [["cube", {"size": [1 + i % 5, 1 + i % 3, .3], "center": i % 2 == 0}]]] for i in range(n * m)]
    if k == "nest":
        r = ["cube", {"size": [w, 1, h]}]
        for i in range(n * m // 2):
            r = ["translate", {"v": [.125, 0, .0625]}, [["union", {}, [r, ["cube", {"size": [.5, 1 + i % 3, 1]}]]]]]
        return [r]
    if k == "cut":
        return [["intersection", {}, [["rotate", {"a": [0, 0, 3 * i]}, [["cube", {"size": [9, 7 + i % 3, 3 + i % 2], "center": True}]]] for i in range(n * m // 2)]]]
    if k == "round":
        q = draw(st.integers(17, 100))
        return [draw(st.sampled_from([["cylinder", {"r": 3, "h": h, "$fn": q}], ["sphere", {"r": h, "$fn": q}], ["cylinder", {"r1": 3, "r2": 1, "h": h, "$fn": q}]]))]
    import math
    q = n * m
    base = [[round((3 + i % 3) * math.cos(2 * math.pi * i / q), 3), round((3 + i % 3) * math.sin(2 * math.pi * i / q), 3), 0] for i in range(q)]
    return [["polyhedron", {"points": base + [[x, y, h] for x, y, _ in base], "faces": [list(range(q)), [q + i for i in range(q)][::-1]]
                            + [[i, q + i, q + (i + 1) % q, (i + 1) % q] for i in range(q)]}]]


@st.composite
def outmodel(draw, depth=2, maxcnt=4, bigs=1):
    """A model plus slice options: dict(nodes,z,step,cnt,gap)."""
    k = draw(st.sampled_from(["csg"] * 8 + ["ext"] * 6 + ["pile"] * 2 + ["far"] * 2 + ["big"] * bigs))
    if k == "big":
        nodes = draw(big())
    elif k == "csg":
        nodes = [draw(csg3(depth)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    elif k == "ext":
        nodes = [["linear_extrude", {"height": draw(st.sampled_from([1, 3, 8])), "center": draw(st.booleans())},
                  [draw(csg2(depth)) for _ in range(draw(st.sampled_from([1, 2])))]]]
        if draw(st.integers(0, 3)) == 0:
            nodes.append(draw(csg3(1)))
    elif k == "pile":
        # cubes on an integer grid: touching edges and corners, coplanar faces
        nodes = [["translate", {"v": [draw(st.integers(-3, 3)) for _ in range(3)]},
                  [["cube", {"size": [draw(st.integers(1, 3)) for _ in range(3)]}]]] for _ in range(draw(st.integers(2, 7)))]
        if draw(st.booleans()):
            nodes = [["difference", {}, nodes]]
    else:
        nodes = [["translate", {"v": [draw(st.integers(-900, 900)), draw(st.integers(-900, 900)), draw(st.sampled_from([0, 0, 500]))]},
                  [draw(csg3(1))]]]
    box = None
    from . import scad
    box = scad.bbox3(nodes)
    lo, hi = (box[0][2], box[1][2]) if box is not None else (0, 1)
    t = draw(st.integers(0, 95)) / 100
    z = round(lo + (hi - lo) * t, 3) + draw(st.sampled_from([0.0137, 0.0137, 0.1, 1 / 64, 0]))
    step = draw(st.one_of(st.integers(2, 250).map(lambda i: i / 100), st.sampled_from([0.25, 0.5, 1, 2, 0.125, 1 / 3])))
    cnt = draw(st.integers(1, maxcnt))
    if draw(st.integers(0, 19)) == 0:
        # many thin layers
        z = round(lo, 3) + .0137
        cnt = draw(st.integers(10, 90))
        step = max(.01, round((hi - lo) / cnt, 3))
    gap = draw(st.one_of(st.none(), st.none(), st.sampled_from([0, 0.002, 0.005, "half", "same", "more"]),
                         st.integers(0, 9).map(lambda i: "0.%d" % i)))
    if gap == "half":
        gap = step / 2
    elif gap == "same":
        gap = step
    elif gap == "more":
        gap = step * 2
    elif isinstance(gap, str):
        gap = step * float(gap)
    return dict(nodes=nodes, z=z, step=step, cnt=cnt, gap=gap)


def outargs(case):
    """(options, layer heights) of an outmodel case."""
    zs = [case["z"] + i * case["step"] for i in range(case["cnt"])]
    a = ["-q", "--min=%r" % case["z"], "--step=%r" % case["step"], "--max=%r" % (zs[-1] + case["step"] / 8)]
    if case.get("gap") is not None:
        a.append("--layer-gap=%r" % case["gap"])
    return a, zs


# ---------------------------------------------------------------- everything

@st.composite
def linext(draw, depth=1, leaf=None):
    p = {"height": draw(length(.5, 6))}
    for k in draw(st.lists(st.sampled_from(["center", "slices", "twist", "scale", "convexity"]), unique=True, max_size=3)):
        p[k] = draw({"center": st.booleans(), "slices": st.integers(1, 6), "convexity": st.integers(0, 9),
                     "twist": st.one_of(st.sampled_from([0, 10, 45, -30, 90]), st.integers(-60, 60)),
                     "scale": st.one_of(st.integers(1, 16).map(lambda i: i / 8), st.just(0),
                                        st.lists(st.integers(1, 16).map(lambda i: i / 8), min_size=2, max_size=2))}[k])
    return ["linear_extrude", p, [draw(csg2(depth, leaf)) for _ in range(draw(st.sampled_from([1, 1, 2])))]]


@st.composite
def rotext(draw):
    p = {}
    if draw(st.booleans()):
        p["angle"] = draw(st.one_of(st.sampled_from([360, 90, 180, 270]), st.integers(10, 360)))
    p["$fn"] = draw(st.integers(3, 14))
    ch = [["translate", {"v": [draw(st.integers(5, 9)), draw(coord(-3, 3))]}, [draw(st.one_of(
        square(), circle(8), star(3, 7).map(lambda q: ["polygon", {"points": [[x / 2, y] for x, y in q]}])))]]]
    if ch[0][2][0][0] == "square" and draw(st.booleans()):
        ch = [["square", {"size": [draw(length(.5, 5)), draw(length(.5, 5))]}]]
    return ["rotate_extrude", p, ch]


def leaf3x():
    """Any 3D object."""
    return st.one_of(prim3(), prim3(), linext(leaf=leaf2x()), rotext())


@st.composite
def full(draw, depth=2, most=3):
    """A list of 3D nodes using every functor."""
    if draw(st.integers(0, 24)) == 0:
        return draw(big())
    ns = [draw(csg3(depth, leaf3x(), 3)) for _ in range(draw(st.integers(1, most)))]

    def rec(n):
        m = [n[0], n[1]] + ([[rec(c) for c in n[2]]] if len(n) > 2 else [])
        k = draw(st.integers(0, 11))
        if k == 0:
            m = ["color", {"c": draw(st.sampled_from(["red", "Blue", "aliceblue", [.5, 1, 0], [.25, 0, 1, .5], None]))}, [m]]
        elif k == 1:
            m = ["{}", {}, [m]]
        elif k == 2:
            m = [m[0], dict(m[1], **{"%": draw(st.sampled_from(["#", "#", "%", "*"]))})] + m[2:] if m[0] != "{}" else m
        return m
    return [rec(n) for n in ns]
