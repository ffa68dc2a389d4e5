"""C16: SVG import."""
import random
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, geom, out, scad, svg
from hv.run import Part, Violation, Discard

PROP = "C16"
TECHNIQUE = ("property-based testing (Hypothesis): random SVG drawings in random spellings are imported, and the sliced region is compared by point "
             "membership with a reference interpretation of the SVG specification")
NOTE = "Random search over drawings, units, viewBoxes, transformations and spellings; regions are compared at sampled points off the outlines."
RULE = ("Part 'drawing': random trees of groups, nested svg, shapes and paths with all commands, units, viewBox, preserveAspectRatio, transformations, layer, "
        "center, dpi and $fn.  Part 'path': one path of many commands.  Part 'broken': errors in path data (drawn up to there), bad or unknown elements (left out).  Part 'same': two random spellings (numbers, separators, quotes, entities, comments, prefixes, foreign content) of a drawing must give the same bytes.  Non-trivial: at least one sampled point is inside.")
ASSUMPTIONS = ["width and height of the toplevel are given both or none", "transform on a nested svg only without x and y",
               "center only with an alignment that centres", "curves are compared up to the sag of the documented number of segments",
               "transformation lists are regular"]

TAGS = ["rect", "rect", "circle", "ellipse", "polygon", "polyline", "path", "path", "path", "line"]


def k64(lo, hi):
    return st.integers(lo, hi).map(lambda i: i / 64)


@st.composite
def dimn(draw, U, lo, hi, units=True, pc=True):
    v = draw(k64(lo, hi)) * U
    if not units or draw(st.integers(0, 3)):
        return v
    u = draw(st.sampled_from(["px", "mm", "cm", "in", "pt", "pc"] + (["%"] if pc else [])))
    if u == "%":
        return [round(v / U * 100, 3), "%"]
    return [float("%.6g" % (v / svg.UNIT[u])), u]


@st.composite
def transform(draw, U):
    L = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        n = draw(st.sampled_from(["translate", "translate", "scale", "rotate", "rotate", "skewX", "skewY", "matrix"]))
        f = lambda lo, hi: draw(k64(lo, hi))
        if n == "translate":
            a = [f(-32, 32) * U for _ in range(draw(st.integers(1, 2)))]
        elif n == "scale":
            a = [draw(st.sampled_from([.5, .75, 1, 1.5, -1, 2])) for _ in range(draw(st.integers(1, 2)))]
        elif n == "rotate":
            a = [draw(st.one_of(st.sampled_from([90, -90, 180, 45, 30]), st.integers(-400, 400)))]
            if draw(st.booleans()):
                a += [f(0, 64) * U, f(0, 64) * U]
        elif n in ("skewX", "skewY"):
            a = [draw(st.integers(-40, 40))]
        else:
            a = [draw(st.sampled_from([1, .75, -1, 1.5])), f(-20, 20), f(-20, 20), draw(st.sampled_from([1, 1.25, -1])), f(-20, 20) * U, f(-20, 20) * U]
        L.append([n, a])
    return L


@st.composite
def path_d(draw, U, most=8):
    d = []
    P = lambda: draw(k64(-4, 68)) * U
    D = lambda: draw(k64(-32, 32)) * U
    for s in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        rel = draw(st.booleans())
        V = D if rel and s else P
        d.append(["m" if rel else "M", [[V(), V()]] + [[(D if rel else P)() for _ in range(2)] for _ in range(draw(st.sampled_from([0, 0, 1, 3])))]])
        for _ in range(draw(st.integers(0 if draw(st.integers(0, 9)) == 0 else 2, most))):
            c = draw(st.sampled_from("LLLHVQTCSAA"))
            rel = draw(st.booleans())
            V = D if rel else P
            args = []
            for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
                if c == "A":
                    a = [draw(k64(0, 40)) * U, draw(k64(0, 40)) * U, draw(st.sampled_from([0, 0, 30, 45, 90, -60, 200])), draw(st.integers(0, 1)), draw(st.integers(0, 1)), V(), V()]
                    if draw(st.integers(0, 2)) == 0:
                        a[1] = a[0]
                else:
                    a = [V() for _ in range(svg.ARITY[c])]
                args.append(a)
            d.append([c.lower() if rel else c, args])
            if c in "QCST" and draw(st.integers(0, 3)) == 0:        # a segment that draws nothing ends a smooth chain too
                d.append(draw(st.sampled_from([["l", [[0, 0]]], ["h", [[0]]], ["v", [[0]]], ["a", [[5 * U / 64, 4 * U / 64, 0, 0, 1, 0, 0]]]])))
                d.append([draw(st.sampled_from("sS" if c in "CS" else "tT")), [[draw(k64(-32 if rel else -4, 32 if rel else 68)) * U for _ in range(4 if c in "CS" else 2)]]])
        k = draw(st.integers(0, 3))
        if k:
            d.append([draw(st.sampled_from("zZ")), []])
            if draw(st.integers(0, 3)) == 0:
                d.append(["l", [[D(), D()], [D(), D()]]])      # goes on at the start of the subpath
    return d


@st.composite
def shape(draw, U, pc):
    t = draw(st.sampled_from(TAGS))
    a = {}
    sz = lambda lo, hi: draw(dimn(U, lo, hi, pc=pc))
    opt = lambda k, v: a.__setitem__(k, v) if draw(st.integers(0, 4)) else None
    if t == "rect":
        opt("x", sz(-4, 48)); opt("y", sz(-4, 48))
        a["width"], a["height"] = sz(2, 40), sz(2, 40)
        if draw(st.booleans()):
            for k in draw(st.sampled_from([["rx"], ["ry"], ["rx", "ry"], ["ry", "rx"]])):
                a[k] = sz(1, 24)
    elif t == "circle":
        opt("cx", sz(0, 60)); opt("cy", sz(0, 60))
        a["r"] = sz(2, 24)
    elif t == "ellipse":
        opt("cx", sz(0, 60)); opt("cy", sz(0, 60))
        for k in draw(st.sampled_from([["rx"], ["ry"], ["rx", "ry"], ["rx", "ry"]])):
            a[k] = sz(2, 24)
    elif t in ("polygon", "polyline"):
        a["points"] = [draw(k64(-4, 68)) * U for _ in range(2 * draw(st.integers(3, 8)))]
    elif t == "path":
        a["d"] = draw(path_d(U))
    else:
        a = dict(x1=0, y1=0, x2=draw(k64(0, 60)) * U, y2=5)
    if draw(st.integers(0, 4)) == 0:
        a["transform"] = draw(transform(U))
    if draw(st.integers(0, 6)) == 0:
        a["id"] = draw(st.sampled_from(["a", "b", "layer1"]))
    return [t, a]


PAS = [None, None, "none", "xMidYMid", "xMinYMin meet", "xMaxYMax", "xMidYMin slice", "xMinYMax meet", "xMaxYMid slice", "xMidYMid slice", "xMaxYMin"]


@st.composite
def group(draw, U, depth, pc, sized):
    """A node; sized: whether the viewport's size is known"""
    k = draw(st.sampled_from(["s", "s", "s", "g", "g", "svg", "odd", "skip"])) if depth > 0 else "s"
    if k == "s":
        return draw(shape(U, pc))
    a = {}
    if draw(st.integers(0, 2)) == 0:
        a["transform"] = draw(transform(U))
    if draw(st.integers(0, 3)) == 0:
        a["id"] = draw(st.sampled_from(["a", "b", "layer1"]))
    n = draw(st.integers(1, 3))
    if k == "svg":
        if "transform" not in a:
            if draw(st.booleans()): a["x"] = draw(dimn(U, 0, 30, pc=sized))
            if draw(st.booleans()): a["y"] = draw(dimn(U, 0, 30, pc=sized))
        b = draw(st.booleans()) or not sized
        if b or draw(st.booleans()): a["width"] = draw(dimn(U, 16, 64, pc=sized))
        if b or draw(st.booleans()): a["height"] = draw(dimn(U, 16, 64, pc=sized))
        if draw(st.integers(0, 3)):
            U2 = draw(st.sampled_from([1, 10, 24, 100]))
            a["viewBox"] = [draw(k64(-16, 16)) * U2, draw(k64(-16, 16)) * U2, draw(k64(32, 64)) * U2, draw(k64(32, 64)) * U2]
            p = draw(st.sampled_from(PAS))
            if p: a["preserveAspectRatio"] = p
            U = U2
        return ["svg", a, [draw(group(U, depth - 1, True, True)) for _ in range(n)]]
    tag = "g" if k == "g" else draw(st.sampled_from(["a", "clip", "layer"])) if k == "odd" else draw(st.sampled_from(["defs", "symbol", "marker", "switch"]))
    return [tag, a, [draw(group(U, depth - 1, pc, sized)) for _ in range(n)]]


@st.composite
def top(draw, depth=2):
    U = draw(st.sampled_from([1, 10, 24, 24, 100, 512]))
    a = {}
    vb = draw(st.integers(0, 3)) > 0 or U in (1, 512)
    pas = None
    if vb:
        a["viewBox"] = [0, 0, U, U] if draw(st.booleans()) else [draw(k64(-32, 32)) * U, draw(k64(-32, 32)) * U, draw(k64(32, 96)) * U, draw(k64(32, 96)) * U]
        pas = draw(st.sampled_from(PAS))
        if pas: a["preserveAspectRatio"] = pas
    mm = draw(st.integers(10, 120))
    if U == 1 or draw(st.booleans()):
        u = draw(st.sampled_from(["mm", "mm", "", "px", "cm", "in", "pt"]))
        f = 25.4 / 96 * svg.UNIT[u] if u else 25.4 / 72
        for k in ("width", "height"):
            v = float("%.5g" % ((mm if k == "width" else draw(st.sampled_from([mm, mm, 40, 90]))) / f))
            a[k] = [v, u] if u else v
    elif vb and draw(st.integers(0, 3)) == 0:
        a["width"], a["height"] = [100, "%"], [100, "%"]
    if draw(st.integers(0, 5)) == 0:
        a["transform"] = draw(transform(10))
    if draw(st.integers(0, 9)) == 0:
        a["id"] = draw(st.sampled_from(["a", "layer1"]))
    ch = [draw(group(U, depth, vb, vb)) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    return ["svg", a, ch]


@st.composite
def imp(draw, root):
    p = {}
    if draw(st.integers(0, 2)) == 0: p["dpi"] = draw(st.sampled_from([96, 72, 90, 300, 25.4]))
    pas = root[1].get("preserveAspectRatio")
    if draw(st.integers(0, 2)) == 0 and (pas is None or pas.startswith(("none", "xMidYMid"))):
        p["center"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0: p["$fn"] = draw(st.sampled_from([0, 3, 8, 20, 60, 200]))
    if draw(st.integers(0, 3)) == 0: p["layer"] = draw(st.sampled_from(["a", "a", "b", "layer1", "nix", ""]))
    return p


@st.composite
def cases(draw, depth=2):
    root = draw(top(depth))
    c = dict(svg=root, p=draw(imp(root)), seed=draw(st.integers(0, 1 << 30)))
    if draw(st.integers(0, 3)) == 0:
        c["x"] = draw(st.sampled_from([["translate", [5, -3]], ["rotate", 30], ["scale", [2, .5]], ["mirror", [1, 0]]]))
    return c


@st.composite
def paths(draw):
    U = 32
    root = ["svg", {}, [["path", {"d": draw(path_d(U, 14))}]]]
    return dict(svg=root, p={"$fn": draw(st.sampled_from([0, 0, 0, 5, 30]))}, seed=draw(st.integers(0, 1 << 30)))


@st.composite
def longs(draw):
    """Many elements, subpaths, commands, points, or levels of nesting."""
    n, m = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    pos = [(6 * i, 6 * j) for i in range(n) for j in range(m)]
    k = draw(st.sampled_from(["elements", "subpaths", "commands", "points", "nested", "groups", "transform"]))
    U = 32

    def some(i, x, y):
        return [["rect", {"x": x, "y": y, "width": 4, "height": 3 + i % 3}], ["circle", {"cx": x + 2, "cy": y + 2, "r": 2}],
                ["polygon", {"points": [x, y, x + 5, y, x + 2, y + 4]}]][i % 3]
    if k == "elements":
        ch = [some(i, x, y) for i, (x, y) in enumerate(pos)]
    elif k == "subpaths":
        d = []
        for i, (x, y) in enumerate(pos):
            d += [["M", [[x, y]]]] + [[["H", [[x + 4]]], ["V", [[y + 4]]], ["L", [[x, y + 4 + i % 2]]]], [["l", [[4, 1], [-1, 3]]], ["h", [[-2]]]],
                                      [["q", [[4, 0, 4, 4]]], ["l", [[-4, 0]]]]][i % 3] + [["zZ"[i % 2], []]]
        ch = [["path", {"d": d}]]
    elif k == "commands":
        d, h = [["M", [[0, 0]]]], draw(st.lists(st.integers(1, 6), min_size=1, max_size=5))
        for i in range(n * m):
            d += [["v", [[h[i % len(h)]]]], ["h", [[2]]], ["v", [[-h[i % len(h)]]]], ["h", [[1]]]] if i % 3 else [["l", [[0, h[i % len(h)]], [2, 0], [0, -h[i % len(h)]], [1, 0]]]]
        ch = [["path", {"d": d + [["V", [[-5]]], ["H", [[0]]], ["z", []]]}]]
    elif k == "points":
        q = [v for i in range(n * m) for v in (3 * i, 8 + (i * 5) % 7)]
        ch = [["polygon", {"points": q + [3 * n * m - 3, 0, 0, 0]}]]
    elif k == "nested":
        ch = [some(0, 3, 3)]
        for i in range(n * m):
            ch = [["g", {"transform": [["translate", [1, .5]]]} if i % 3 else {}, ch + ([some(i, 6 * (i // 8), 6 * (i % 8))] if i % 4 == 0 else [])]]
    elif k == "groups":
        ch = [["g", {"transform": [["translate", [x, y]]]}, [some(i, 0, 0)]] for i, (x, y) in enumerate(pos)]
    else:
        ch = [["g", {"transform": [["translate", [.5, .25]] if i % 2 else ["rotate", [3]] for i in range(n * m)]}, [some(1, 9, 9), some(0, 20, 3)]]]
    return dict(svg=["svg", {"viewBox": [0, 0, 96, 96], "width": [draw(st.integers(20, 90)), "mm"], "height": [60, "mm"]}, ch], p={"$fn": draw(st.sampled_from([0, 5, 12]))},
                seed=draw(st.integers(0, 1 << 30)))


JUNK = [" L 5", "H", "H x", "C 1 2 3 4 5", "T 3", "A 5 5 0 2 0 3 3", "A 5 5 0", "X", "X 5 5 L 7 7", "M", "M 7", "Q 1 2 3", "S 1 2", "V z", "#", "L 9 nan", "l 3,4,", ", L 1 2",
        "L x 5 5", "m 4 4 l 5 z"]
BAD = [["circle", {"r": -3}], ["circle", {"r": -.01, "cx": 4}], ["circle", {}], ["ellipse", {"rx": -2, "ry": 3}], ["ellipse", {"rx": 2, "ry": -3}], ["rect", {"width": -4, "height": 5}],
       ["rect", {"width": 4, "height": -5}], ["rect", {"width": 4}], ["rect", {"height": 4}], ["polygon", {}], ["path", {}], ["path", {"d": [["?", "L 5 5 9 9 5 0"]]}], ["path", {"d": [["?", "5 5 9 9 5 0"]]}],
       ["hexagon", {"r": 5}], ["text", {"x": 5}], ["line", {"x1": 3, "y2": 4}], ["rect", {"width": 0, "height": 9}]]


@st.composite
def broken(draw):
    """What is in error is left out: the elements with bad values, and the rest of the path data."""
    U = 32
    a, b = [], []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.integers(0, 2)):
            d = draw(path_d(U, 4))
            j = draw(st.sampled_from(JUNK))
            a.append(["path", {"d": d}])
            b.append(["path", {"d": d + [["?", draw(st.sampled_from(["", " "])) + j]]}])
            if j == "l 3,4,":
                a[-1][1]["d"] = d + [["l", [[3, 4]]]]
        if draw(st.booleans()):
            b.insert(draw(st.integers(0, len(b))), draw(st.sampled_from(BAD)))
    return dict(svg=["svg", {}, a], text=["svg", {}, b], p={}, seed=draw(st.integers(0, 1 << 30)))


def outer(x):
    if not x:
        return np.eye(3)
    k, v = x
    if k == "translate":
        return svg.xl(*v)
    if k == "scale":
        return svg.sc(*v)
    if k == "mirror":
        return svg.sc(-1, 1)
    return svg.tmatrix([["rotate", [v]]])


def imptext(case, name="t.svg"):
    s = "import(%s)" % ", ".join(['file="%s"' % name] + ["%s = %s" % (k, scad.val(v) if not isinstance(v, str) else '"%s"' % v) for k, v in case["p"].items()])
    x = case.get("x")
    if x:
        s = "%s(%s) %s" % (x[0], scad.val(x[1]), s)
    return "linear_extrude(height=1) %s;\n" % s


def reference(case):
    p = case["p"]
    return svg.region(case["svg"], p.get("dpi", 72), p.get("center", False), p.get("layer") or None, p.get("$fn", 0), outer(case.get("x")))


def convert(case, ctx, data, name="t.svg"):
    ctx.write(name, data)
    ctx.write("m.scad", imptext(case, name))
    r = ctx.hob3l(["-q", "--z=0.5", "m.scad", "-o", "o.stl"], outs=["o.stl"])
    if r.rc != 0:
        raise Violation("valid drawing is not converted: status %d, %s\n%s" % (r.rc, r.err.decode("latin1")[:500], data.decode("utf8")[:1500]))
    reg = [s for z, s in out.stl_regions(r.files["o.stl"])]
    return (np.concatenate(reg) if reg else np.zeros((0, 4))), r


def check(case, ctx):
    ref = reference(case)
    allseg = np.concatenate([s for s, _ in ref]) if ref else np.zeros((0, 4))
    big = np.abs(allseg).max() if len(allseg) else 1
    if big > 20000:
        raise Discard("large")
    data = svg.text(case.get("text", case["svg"]), random.Random(case["seed"]))
    got, r = convert(case, ctx, data)
    both = np.vstack([allseg, got])
    if not len(both):
        return
    rng = geo.rng_for(case)
    q = both.reshape(-1, 2)
    lo, hi = q.min(axis=0) - 1, q.max(axis=0) + 1
    pix = 4 / 8192. + big * 2e-6
    P = [geo.points_for(s, rng, lo, hi, 40, t * 1.3 + pix) for s, t in ref]
    if len(got):
        P.append(geo.points_for(got, rng, lo, hi, 60, pix))
    P = np.vstack(P)
    exp, sure = np.zeros(len(P), bool), np.ones(len(P), bool)
    for s, t in ref:
        exp |= geom.parity(s, P)
    for s, t in ref:
        sure &= geom.dist(s, P) > t * 1.2 + pix
    have = geom.parity(got, P) if len(got) else np.zeros(len(P), bool)
    bad = sure & (exp != have)
    if len(got):
        bad &= geom.dist(got, P) > pix / 4
    if bad.any():
        i = P[int(np.argmax(bad))]
        raise Violation("point (%.9g,%.9g) is %s the drawing, but %s the imported region (%d of %d points)\n%s\n%s"
                        % (i[0], i[1], "inside" if exp[int(np.argmax(bad))] else "outside", "inside" if have[int(np.argmax(bad))] else "outside",
                           int(bad.sum()), int(sure.sum()), imptext(case), data.decode("utf8")[:1500]))
    ctx.nt(bool((exp & sure).any()))
    for n in walk(case["svg"]):
        ctx.label(n[0])
        if n[0] == "path":
            ctx.label(*{"path-" + c[0] for c in n[1].get("d", [])})
    return got


def walk(n):
    yield n
    for c in (n[2] if len(n) > 2 else []):
        yield from walk(c)


def same(case, ctx):
    r = random.Random(case["seed"])
    res = []
    for i in range(3):
        data = svg.text(case["svg"], r)
        ctx.write("t.svg", data)
        ctx.write("m.scad", imptext(case))
        q = ctx.hob3l(["-q", "--z=0.5", "m.scad", "-o", "o.stl"], outs=["o.stl"])
        if q.rc != 0:
            raise Violation("valid drawing is not converted: status %d, %s\n%s" % (q.rc, q.err.decode("latin1")[:500], data.decode("utf8")[:1500]))
        res.append((data, q.files["o.stl"]))
        if q.files["o.stl"] != res[0][1]:
            raise Violation("two spellings of a drawing give different output:\n%s\n----\n%s" % (res[0][0].decode("utf8")[:1500], data.decode("utf8")[:1500]))
    ctx.nt(b"facet" in res[0][1])


PARTS = [Part("drawing", cases(), check, 900), Part("path", paths(), check, 500), Part("long", longs(), check, 150), Part("broken", broken(), check, 250),
         Part("same", cases(), same, 150)]
