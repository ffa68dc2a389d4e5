"""C34: PostScript output."""
import math
import numpy as np
import hypothesis.strategies as st
from scipy.spatial import cKDTree
from checks import c19
from hv import gen, geo, geom, out, scad
from hv.run import Part, Violation, Discard

PROP = "C34"
TECHNIQUE = ("property-based testing (Hypothesis): random models and combinations of PostScript options; every page is compared with the layered SCAD output "
             "of the same model, projected by a reference transformation")
NOTE = "Random search over models and options; numbers are compared to the six digits PostScript prints."
RULE = ("Part 'pages': a random model is printed as PostScript with random scale, rotation, perspective, single page, colour, line width and drawing options; "
        "pages, titles, triangles, paths, vertices, marks, colours and the bounding box must be those computed from the layered SCAD output.  Part 'fit': the "
        "fitting scales against the reference bounding box (with and without subtracted parts).  Non-trivial: something is drawn.")
ASSUMPTIONS = ["perspective is judged for models that stay in front of the camera",
               "the perspective parameter p divides coordinates by 1 - p*z/1000"]

MM = 72 / 25.4
PX, PY, MARGIN = 595, 842, 56
DEFCOL = dict(path=(0, 0, 0), tri=(0, 153, 153), fill=(204, 204, 204), vertex=(255, 0, 0), mark=(0, 0, 255))


@st.composite
def psopts(draw, plain=False):
    o = []
    if draw(st.booleans()) and not plain:
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(["rot-x", "rot-y", "rot-z", "scale", "persp"]))
            if k == "scale":
                v = draw(st.sampled_from(["2", "1/2", "0.75", "-1", "1.5", "2^2", "0.1"]))
            elif k == "persp":
                v = draw(st.sampled_from(["1", "0.5", "2", "-1", "5", "1/3"]))
            else:
                v = draw(st.one_of(st.sampled_from(["90", "-90", "180", "45", "30", "360"]), st.integers(-400, 400).map(str)))
            o.append([k, v])
    for k in ("no-tri", "no-path", "no-mark", "no-wire", "single-page"):
        if draw(st.integers(0, 4)) == 0:
            o.append([k, None])
    for k in DEFCOL:
        if draw(st.integers(0, 3)) == 0:
            o.append(["color-" + k, draw(st.one_of(st.integers(0, 0xffffff).map(lambda i: "%06x" % i), st.sampled_from(["FF8000", "0xff", "0", "7f"])))])
    if draw(st.integers(0, 2)) == 0:
        o.append(["line-width", draw(st.sampled_from(["1", "0.1", "2.5", "1/4"]))])
    return draw(st.permutations(o))


@st.composite
def pages(draw):
    c = draw(gen.outmodel(depth=draw(st.integers(1, 2)), bigs=4))
    c["ps"] = draw(psopts())
    c["order"] = draw(st.integers(0, 2))
    return c


@st.composite
def fits(draw):
    nodes = [draw(gen.csg3(draw(st.integers(0, 3)), c19.leaf())) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    return dict(nodes=nodes, fit=draw(st.sampled_from(["fit", "max"])), t=draw(st.integers(1, 15)) / 16, ps=draw(psopts(plain=True)))


def num(s):
    if "/" in s:
        a, b = s.split("/")
        return float(a) / float(b)
    if "^" in s:
        a, b = s.split("^")
        return float(a) ** float(b)
    return float(s)


def rot(ax, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    M = np.eye(4)
    i, j = dict(x=(1, 2), y=(2, 0), z=(0, 1))[ax]
    M[i, i], M[i, j], M[j, i], M[j, j] = c, -s, s, c
    return M


def view(opts):
    M, p = np.eye(4), 0.
    for k, v in opts:
        if k.startswith("rot-"):
            M = rot(k[-1], num(v)) @ M
        elif k == "scale":
            M = np.diag([num(v)] * 3 + [1]) @ M
        elif k == "persp":
            p = num(v)
    return M, p


def style(opts):
    s = dict(tri=True, path=True, mark=True, single=False, lw=.4, col=dict(DEFCOL))
    for k, v in opts:
        if k in ("no-tri", "no-wire"): s["tri"] = False
        if k in ("no-path", "no-wire"): s["path"] = False
        if k in ("no-mark", "no-wire"): s["mark"] = False
        if k == "single-page": s["single"] = True
        if k == "line-width": s["lw"] = num(v)
        if k.startswith("color-"):
            w = int(v, 16)
            s["col"][k[6:]] = (w >> 16 & 255, w >> 8 & 255, w & 255)
    return s


def argv(opts):
    return ["--ps-" + k + ("" if v is None else "=" + v) for k, v in opts]


def project(V, M, p):
    """Points (n,3) -> (n,2) in model units before the page transformation"""
    q = np.c_[V, np.ones(len(V))] @ M.T
    w = 1 - p * q[:, 2] / 1000
    if len(w) and w.min() < .05:
        raise Discard("behind the camera")
    return q[:, :2] / w[:, None]


def layers(data):
    """[(z, triangles (T,2), points)] from layered SCAD"""
    r = []
    for l in out.scad_layers(data):
        q = np.array(l["paths"], int).reshape(-1, 3)
        T = np.asarray(l["points"], float).reshape(-1, 2)[q]
        if r and abs(r[-1][0] - l["z"]) < 1e-9:
            r[-1] = (r[-1][0], np.concatenate([r[-1][1], T]))
        else:
            r.append((l["z"], T))
    return r


def match(A, B, tol, what):
    """Two sets of triangles (n,3,2), in any order and orientation"""
    if len(A) != len(B):
        raise Violation("%s: %d triangles drawn, layer has %d" % (what, len(B), len(A)))
    if not len(A):
        return
    f = B.reshape(len(B), 6)
    perms = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]]
    t = cKDTree(np.concatenate([B[:, p].reshape(-1, 6) for p in perms]))
    d, _ = t.query(A.reshape(-1, 6))
    if d.max() > tol:
        raise Violation("%s: triangle %s is not drawn (nearest is %.6g away, allowed %.3g)" % (what, A[int(d.argmax())].round(4).tolist(), d.max(), tol))
    t = cKDTree(np.concatenate([A[:, p].reshape(-1, 6) for p in perms]))
    d, _ = t.query(f)
    if d.max() > tol:
        raise Violation("%s: triangle %s is drawn, the layer has nothing like it" % (what, B[int(d.argmax())].tolist()))


def cloud(A, B, tol, what):
    if not len(A) and not len(B):
        return
    if not len(A) or not len(B):
        raise Violation("%s: %d drawn, %d expected" % (what, len(B), len(A)))
    for x, y, s in ((A, B, "missing"), (B, A, "drawn, but not in the layer")):
        d, _ = cKDTree(y).query(x)
        if d.max() > tol:
            raise Violation("%s at %s is %s" % (what, x[int(d.argmax())].round(5).tolist(), s))


def colour(have, want, what):
    for s in have:
        v = [float(x) for x in s.split()]
        if any(abs(a - b / 255) > 1e-5 for a, b in zip(v, want)):
            raise Violation("%s drawn in %s, asked for %s" % (what, s, [round(x / 255, 5) for x in want]))
    if len(have) > 1:
        raise Violation("%s drawn in %d colours" % (what, len(have)))


def segs(paths):
    return np.concatenate([np.c_[p, np.roll(p, -1, axis=0)] for p in paths]) if paths else np.zeros((0, 4))


def boundary(T):
    """Edges of triangles not shared by two, exactly"""
    s = {}
    for t in T.tolist():
        for i in range(3):
            a, b = tuple(t[i]), tuple(t[(i + 1) % 3])
            if a != b:
                k = (min(a, b), max(a, b))
                s[k] = s.get(k, 0) + 1
    return np.array([k[0] + k[1] for k, c in sorted(s.items()) if c % 2]).reshape(-1, 4)


def judge(case, ctx, P, ref, proj, s, mirror, what=""):
    """ref: [(z, zi or None, T (n,3,2))] in page order; proj(V) -> page coordinates"""
    want = [(z, proj(np.c_[T.reshape(-1, 2), np.full(3 * len(T), z)]).reshape(-1, 3, 2)) for z, T in ref]
    if s["single"]:
        if len(P["pages"]) != 1:
            raise Violation("%d pages with --ps-single-page" % len(P["pages"]))
        i = 0
        for z, t in want:       # bottom to top
            match(t, P["pages"][0]["tri"][i:i + len(t)], 2.5e-5 * max(1, np.abs(t).max()), "single page, layer z=%g" % z)
            i += len(t)
        want = [(None, np.concatenate([t for _, t in want]) if want else np.zeros((0, 3, 2)))]
    pg = P["pages"]
    if not s["single"]:
        got = [p for p in pg if len(p["tri"])]
        if [1 for p in pg if p["z"] is None]:
            raise Violation("page without title")
        if len(got) != len(want):
            raise Violation("%d pages with drawings, the model has %d layers" % (len(got), len(want)))
        pg = got
    allp = []
    for (z, T), p in zip(want, pg):
        n = "page z=%s: " % z
        if z is not None and abs(p["z"] - z) > 1e-5 * (1 + abs(z)):
            raise Violation("page titled z=%g where layer z=%.9g is expected" % (p["z"], z))
        big = max(np.abs(T).max() if len(T) else 1, 1)
        tol = 2.5e-5 * big
        match(T, p["tri"], tol, n + "triangles")
        colour(p["fill"], s["col"]["fill"], n + "triangles")
        if s["tri"] and len(T):
            if None in p["stroke"]:
                raise Violation(n + "triangle without outline")
            colour(p["stroke"], s["col"]["tri"], n + "triangle outlines")
        elif p["stroke"] - {None}:
            raise Violation(n + "triangle outlines with --ps-no-tri")
        if abs(p["lw"] - s["lw"]) > 1e-5:
            raise Violation(n + "line width %g, asked for %g" % (p["lw"], s["lw"]))
        if not s["path"]:
            if p["paths"] or len(p["dots"]) or len(p["marks"]):
                raise Violation(n + "paths, points or marks with --ps-no-path")
        else:
            cloud(p["tri"].reshape(-1, 2), p["dots"].reshape(-1, 2), tol, n + "point")
            colour(p["dcol"], s["col"]["vertex"], n + "points")
            colour(p["pcol"], s["col"]["path"], n + "paths")
            sp = segs(p["paths"])
            if not s["single"] and len(sp):
                # a layer without paths is as good, it is triangles that are filled; even-odd region of the paths = triangles
                rng = geo.rng_for([case, z])
                geo.same_region(boundary(p["tri"]), sp, rng, tol * 2 + .02, 60 + min(500, 2 * len(sp)), n + "triangles and paths: ")
            if s["mark"]:
                m = p["marks"].reshape(-1, 4)
                if len(m) != len([q for q in p["paths"] if len(q) > 1]):
                    raise Violation(n + "%d marks for %d paths" % (len(m), len(p["paths"])))
                colour(p["mcol"], s["col"]["mark"], n + "marks")
                for q, k in zip(p["paths"], m):
                    e = q[1] - q[0]
                    l = np.hypot(*e)
                    mid = (q[0] + q[1]) / 2
                    if np.abs(mid - k[:2]).max() > tol:
                        raise Violation(n + "mark at %s is not on the middle of the first edge %s %s" % (k.tolist(), q[0].tolist(), q[1].tolist()))
                    d = k[2:] - k[:2]
                    if l > 100 * tol and (abs(np.hypot(*d) - 2) > .05 + 6 * tol or abs(d @ e) / l > .05 + 6 * tol):
                        raise Violation(n + "mark %s is not normal to its edge" % k.tolist())
                    if s["single"] or mirror:
                        continue
                    t = np.array([mid + d * .3, mid - d * .3])
                    oth = sp[~((np.abs(sp[:, :2] - q[0]).max(axis=1) < 1e-9) & (np.abs(sp[:, 2:] - q[1]).max(axis=1) < 1e-9))]
                    if l > 4 and (not len(oth) or geom.dist(oth, t).min() > .7) and 10 * tol < .3:
                        i = geom.parity(sp, t)
                        ctx.label("mark-judged")
                        if not (i[0] and not i[1]):
                            raise Violation(n + "mark %s points away from the polygon" % k.tolist())
            elif len(p["marks"]):
                raise Violation(n + "marks with --ps-no-mark")
        allp += [p["tri"].reshape(-1, 2), p["dots"].reshape(-1, 2)] + p["paths"]
    A = np.vstack([np.zeros((0, 2))] + allp)
    b = P["bbox"]
    if len(A):
        lo, hi = A.min(axis=0), A.max(axis=0)
        t = 1e-5 * max(1, np.abs(A).max())
        if b[0] > lo[0] + t or b[1] > lo[1] + t or b[2] < hi[0] - t or b[3] < hi[1] - t:
            raise Violation("bounding box %s does not contain the drawing %s %s" % (b, lo, hi))
        if np.abs(A).max() < 99000 and (b[0] < lo[0] - 1 - t or b[1] < lo[1] - 1 - t or b[2] > hi[0] + 1 + t or b[3] > hi[1] + 1 + t):
            raise Violation("bounding box %s is larger than the drawing %s %s" % (b, lo, hi))
    return len(A), A


def run_pages(case, ctx):
    a, zs = gen.outargs(case)
    ctx.write("m.scad", scad.program(case["nodes"]))
    r = ctx.hob3l(["m.scad", "-o", "o.csg"] + a, outs=["o.csg"])
    if r.rc != 0:
        raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:600]))
    ref = layers(r.files["o.csg"])
    M, p = view(case["ps"])
    s = style(case["ps"])
    proj = lambda V: project(V, M, p) * MM + [PX // 2, PY // 2]
    for z, T in ref:
        proj(np.c_[T.reshape(-1, 2), np.full(3 * len(T), z)])
    v = argv(case["ps"])
    v = [v + ["m.scad", "-o", "o.ps"] + a, a + ["-o", "o.ps", "m.scad"] + v, a + ["--dump-ps", "m.scad"] + v][case["order"]]
    r = ctx.hob3l(v, outs=["o.ps"])
    if r.rc != 0:
        raise Violation("PostScript: status %d, %s" % (r.rc, r.err.decode("latin1")[:600]))
    P = out.ps(r.out if case["order"] == 2 else r.files["o.ps"])
    n, _ = judge(case, ctx, P, ref, proj, s, np.linalg.det(M[:2, :2]) < 1e-3)
    for q in P["pages"]:
        if q["zi"] is not None and (not 0 <= q["zi"] < len(zs) or abs(zs[q["zi"]] - q["z"]) > 1e-5 * (1 + abs(q["z"]))):
            raise Violation("page titled z=%g zi=%d, the layers are at %s" % (q["z"], q["zi"], zs))
    ctx.nt(n > 0)
    ctx.label(*(["single"] if s["single"] else []), *(["persp"] if p else []), *(["view"] if (M != np.eye(4)).any() else []))


def run_fit(case, ctx):
    nodes = case["nodes"]
    box = c19.bbox(nodes)
    if box is None:
        raise Discard("empty")
    z = box[0][2] + (box[1][2] - box[0][2]) * case["t"]
    a = ["-q", "--z=%.17g" % z]
    ctx.write("m.scad", scad.program(nodes))
    r = ctx.hob3l(["m.scad", "-o", "o.csg"] + a, outs=["o.csg"])
    if r.rc != 0:
        raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:600]))
    ref = layers(r.files["o.csg"])
    s = style(case["ps"])
    r = ctx.hob3l(a + argv(case["ps"]) + ["--ps-scale-" + case["fit"], "m.scad", "-o", "o.ps"], outs=["o.ps"])
    if r.rc != 0:
        raise Violation("PostScript: status %d, %s" % (r.rc, r.err.decode("latin1")[:600]))
    P = out.ps(r.files["o.ps"])
    V = np.vstack([T.reshape(-1, 2) for _, T in ref] + [np.zeros((0, 2))])
    D = np.vstack([p["tri"].reshape(-1, 2) for p in P["pages"]] + [np.zeros((0, 2))])
    if len(V) != len(D):
        raise Violation("%d triangles drawn, layer has %d" % (len(D) // 3, len(V) // 3))
    if not len(V):
        return
    # both print triangles; the page must be one scaling and translation of the layer
    ev, ed = V.max(axis=0) - V.min(axis=0), D.max(axis=0) - D.min(axis=0)
    i = int(ev.argmax())
    m = ed[i] / ev[i]
    add = D.min(axis=0) - m * V.min(axis=0)
    judge(case, ctx, P, ref, lambda q: q[:, :2] * m + add, s, False)
    # rounded coordinates: relative error of m
    em = 1.2e-5 * max(np.abs(D).max(), 1) / ed[i] + 3e-4 / ev[i]
    if m <= 0:
        raise Violation("drawing is mirrored")
    page = np.array([PX - MARGIN, PY - MARGIN])
    tol = 1e-3 * m + 1
    c = np.array([PX / 2, PY / 2])
    if case["fit"] == "fit" or not has_sub(nodes):
        ext = (box[1] - box[0])[:2]
        tol += 2 * em * np.abs(c).max()
        if ext.min() > 1e-3:
            w = (page / ext).min()
            if abs(m - w) > em * w + 2e-3 * w * (1 / ext.min()) * .2:
                raise Violation("scale is %.6g, but model of size %s fits the page %s with scale %.6g" % (m, ext, page, w))
        lo, hi = m * box[0][:2] + add, m * box[1][:2] + add
        if (lo < c - page / 2 - tol).any() or (hi > c + page / 2 + tol).any():
            raise Violation("model is drawn in %s..%s, outside of the margins" % (lo, hi))
        mid = (lo + hi) / 2
        if np.abs(mid - c).max() > tol + 1:
            raise Violation("model is not centred: %s" % mid)
    else:
        if D.min() < -1 or (D > [PX + 1, PY + 1]).any():
            raise Violation("the drawing %s..%s is not on the page" % (D.min(axis=0), D.max(axis=0)))
        full = c19.bbox(plus(nodes))
        ext = (full[1] - full[0])[:2]
        w = (page / ext).min()
        if m > w * (1 + em) + 1e-3 * w / ext.min():
            raise Violation("scale %.6g, but with the subtracted parts of size %s only scale %.6g fits" % (m, ext, w))
        if not any(n[0] == "intersection" for n in scad.walk(nodes)):
            if ext.min() > 1e-3 and abs(m - w) > em * w + 4e-4 * w / ext.min():
                raise Violation("scale is %.6g, but the model with the subtracted parts of size %s fits with scale %.6g" % (m, ext, w))
            lo, hi = m * full[0][:2] + add, m * full[1][:2] + add
            if np.abs((lo + hi) / 2 - c).max() > tol + 1 + 2 * em * np.abs(c).max():
                raise Violation("model with the subtracted parts is not centred: %s" % ((lo + hi) / 2))
        ctx.label("subtracted")
    ctx.nt(True)


def has_sub(nodes):
    return any(n[0] in ("difference", "intersection") for n in scad.walk(nodes))


def plus(nodes):
    """The union of what is in the model (intersections and differences replaced)"""
    return [[("union" if n[0] in ("difference",) else n[0]), n[1], plus(n[2])] if len(n) > 2 and n[0] != "linear_extrude" else n for n in nodes]


PARTS = [Part("pages", pages(), run_pages, 1500), Part("fit", fits(), run_fit, 800)]
