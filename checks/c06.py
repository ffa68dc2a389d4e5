"""C06: all output formats describe the same layers and polygons."""
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, geom, out, scad
from hv.run import Part, Violation

PROP = "C06"
TECHNIQUE = "property-based testing (Hypothesis): differential comparison of the output formats of one model, and of the ways of selecting a format"
NOTE = ("Random search.  STL, binary STL, JS and SCAD are compared exactly (outline edges on the grid), PostScript by area and by membership of "
        "sampled points, because it prints six digits only.")
RULE = ("Part 'formats': a random model and slice options printed as text STL, binary STL, JS, layered SCAD and PostScript; layers, heights and the "
        "outline edges of each layer must be the same.  Part 'select': the same output selected by suffix, by dump option, to a file, to standard "
        "output, with --stl-bin; bytes must be equal.  Part 'many': up to 140000"
        " triangles; STL, binary STL, JS and SCAD must contain the same ones.  Non-trivial: at least one layer has material ('many': more than 65535 triangles).")

K = 72 / 25.4


def outline(r2):
    """Boundary of integer triangles (T,3,2), all of one orientation: sorted unique directed edges."""
    if len(r2) == 0:
        return np.zeros((0, 4), np.int64)
    a = (r2[:, 1, 0] - r2[:, 0, 0]) * (r2[:, 2, 1] - r2[:, 0, 1]) - (r2[:, 1, 1] - r2[:, 0, 1]) * (r2[:, 2, 0] - r2[:, 0, 0])
    r2 = np.where((a < 0)[:, None, None], r2[:, ::-1], r2)
    E = np.concatenate([np.concatenate([r2[:, i], r2[:, (i + 1) % 3]], axis=1) for i in range(3)])
    E = E[(E[:, :2] != E[:, 2:]).any(axis=1)]
    s = {}
    for e in map(tuple, E.tolist()):
        r = e[2:] + e[:2]
        if s.get(r, 0):
            s[r] -= 1
        else:
            s[e] = s.get(e, 0) + 1
    L = sorted(e for e, c in s.items() for _ in range(c))
    return np.array(L, np.int64).reshape(-1, 4)


def layers_of(z, v2, zs, tol, what):
    """Groups triangles (T,3,2) with heights z by requested layer: {index: triangles}."""
    r = {}
    if len(z) == 0:
        return r
    zs = np.asarray(zs)
    k = np.abs(z[:, None] - zs[None, :]).argmin(axis=1)
    e = np.abs(z - zs[k])
    if e.max() > tol:
        raise Violation("%s: material at z=%.9g, which was not asked for" % (what, z[int(e.argmax())]))
    for i in np.unique(k):
        r[int(i)] = v2[k == i]
    return r


def grid(v, scale=8192.0):
    r = np.rint(v * scale)
    if len(v) and np.abs(v * scale - r).max() > .05:
        raise Violation("vertex off the grid")
    return r.astype(np.int64)


def formats(case, ctx):
    a, zs = gen.outargs(case)
    ctx.write("m.scad", scad.program(case["nodes"]))
    res = {}
    for o in ("o.stl", "o.stb", "o.js", "o.csg", "o.ps"):
        r = ctx.hob3l(["m.scad", "-o", o] + a, outs=[o])
        if r.rc != 0 or r.files[o] is None:
            raise Violation("%s: valid model is not converted: status %d, %s" % (o, r.rc, r.err.decode("latin1")[:600]))
        res[o[2:]] = r.files[o]
    n, v = out.stl_text(res["stl"])
    d = n[:, 2] < -.5
    base = {k: grid(t) for k, t in layers_of(v[d][:, 0, 2], v[d][:, :, :2], zs, 1e-6, "stl").items()}
    ref = {k: outline(t) for k, t in base.items()}
    got = {}
    nb, vb = out.stl_bin(res["stb"])
    d = nb[:, 2] < -.5
    far = np.abs(vb[:, :, :2]).max() > 500 if len(vb) else False
    if len(nb) != len(n):
        raise Violation("text STL has %d facets, binary %d" % (len(n), len(nb)))
    if not far:
        got["binary stl"] = layers_of(vb[d][:, 0, 2], grid(vb[d][:, :, :2]), zs, 1e-4, "stb")
    # JS
    ch = out.js(res["js"])
    if ch:
        nn, vv = np.concatenate([c["n"] for c in ch])[:, 0], np.concatenate([c["v"] for c in ch])
    else:
        nn, vv = np.zeros((0, 3)), np.zeros((0, 3, 3))
    d = nn[:, 2] < -.5
    got["js"] = layers_of(vv[d][:, 0, 2], grid(vv[d][:, :, :2]), zs, 1e-4, "js")
    # SCAD
    tz, tv = [], []
    gap = 0 if case["gap"] is None else case["gap"]
    for l in out.scad_layers(res["csg"]):
        if abs(l["h"] - max(0, case["step"] - gap)) > 1e-9:
            raise Violation("csg: layer at z=%.9g has height %.9g, expected %.9g" % (l["z"], l["h"], max(0, case["step"] - gap)))
        for q in l["paths"]:
            if len(q) != 3:
                raise Violation("csg: polygon with a path of %d vertices" % len(q))
            tz.append(l["z"])
            tv.append(l["points"][q])
    got["csg"] = layers_of(np.array(tz), grid(np.array(tv).reshape(-1, 3, 2)), zs, 1e-6, "csg")
    for k, g in got.items():
        if set(g) != set(base):
            raise Violation("stl prints layers %s, %s prints %s" % (sorted(base), k, sorted(g)))
        for i, t in g.items():
            o = outline(t)
            if o.shape != ref[i].shape or (o != ref[i]).any():
                A, B = set(map(tuple, ref[i].tolist())), set(map(tuple, o.tolist()))
                raise Violation("layer z=%.9g: outlines of stl and %s differ: only stl %s, only %s %s"
                                % (zs[i], k, sorted(A - B)[:3], k, sorted(B - A)[:3]))
    # PostScript
    P = out.ps(res["ps"])
    pg = {}
    for p in P["pages"]:
        if p["zi"] is None:
            raise Violation("ps: page without a title")
        if not 0 <= p["zi"] < len(zs) or abs(p["z"] - zs[p["zi"]]) > 1e-5 * (1 + abs(p["z"])):
            raise Violation("ps: page z=%r zi=%r, layers are at %s" % (p["z"], p["zi"], zs))
        if p["zi"] in pg:
            raise Violation("ps: two pages for zi=%d" % p["zi"])
        pg[p["zi"]] = (p["tri"] - [297, 421]) / K
    if set(k for k in pg if len(pg[k])) != set(base):
        raise Violation("stl prints layers %s, ps prints %s" % (sorted(base), sorted(pg)))
    if [p["zi"] for p in P["pages"]] != sorted(pg):
        raise Violation("ps: pages out of order: %s" % [p["zi"] for p in P["pages"]])
    for i, t in base.items():
        segs = ref[i] / 8192.0
        T = pg[i]
        m = np.abs(np.concatenate([segs.reshape(-1, 2)] + [[[1, 1]]])).max()
        eps = 6e-6 * (m * K + 450) / K      # six digits
        a1 = np.abs(geom.area(segs))
        u, w = T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]
        a2 = np.abs(u[:, 0] * w[:, 1] - u[:, 1] * w[:, 0]).sum() / 2
        peri = np.linalg.norm(segs[:, 2:] - segs[:, :2], axis=1).sum() + sum(np.linalg.norm(T[:, j] - T[:, j - 1], axis=1).sum() for j in range(3))
        if abs(a1 - a2) > peri * eps + eps:
            raise Violation("layer z=%.9g: area %.9g in stl, %.9g in ps" % (zs[i], a1, a2))
        ps = out.tri_segs(T)
        rng = geo.rng_for([case, i])
        lo, hi = segs.reshape(-1, 2).min(axis=0) - 1, segs.reshape(-1, 2).max(axis=0) + 1
        rho = max(eps * 1.5, scad.PX)
        Q = np.vstack([geo.points_for(segs, rng, lo, hi, 80, rho), geo.points_for(ps, rng, lo, hi, 40, rho)])
        sure = (geom.dist(segs, Q) > 2 * eps) & (geom.dist(ps, Q) > 2 * eps)
        bad = sure & (geom.parity(segs, Q) != geom.parity(ps, Q))
        if bad.any():
            q = Q[int(np.argmax(bad))]
            raise Violation("layer z=%.9g: stl and ps disagree at (%.9g,%.9g)" % (zs[i], q[0], q[1]))
    ctx.nt(len(base) > 0)
    ctx.label("layers-%d" % len(base))


SUFFIX = {"stl": ["--dump-stl"], "stb": ["--dump-stlb"], "stlb": ["--dump-stlb"], "scad": ["--dump-csg2"], "csg": ["--dump-csg2"],
          "js": ["--dump-js"], "ps": ["--dump-ps"]}


@st.composite
def selections(draw):
    c = draw(gen.outmodel(maxcnt=2))
    c["suf"] = draw(st.sampled_from(sorted(SUFFIX)))
    c["name"] = draw(st.sampled_from(["o.", "a.b.", "dir.ps/o.", ".", "x.stl.", "o-"])) + c["suf"]
    if c["name"].startswith("o-"):
        c["name"] = "o." + c["suf"]
    c["other"] = draw(st.sampled_from(["o.stl", "o.js", "o.xyz", "noext", "o.ps", "o.scad"]))
    c["bin"] = draw(st.sampled_from([[], [], ["--stl-bin"], ["--stl-txt"], ["--stl-bin", "--stl-txt"], ["--stl-txt", "--stl-bin"]]))
    return c


def select(case, ctx):
    a, zs = gen.outargs(case)
    ctx.write("m.scad", scad.program(case["nodes"]))
    ctx.write("dir.ps/keep", "")
    suf, name, other = case["suf"], case["name"], case["other"]
    want = list(SUFFIX[suf])
    if suf == "stl" and case["bin"] and case["bin"][-1] == "--stl-bin":
        want = ["--dump-stlb"]

    def go(args, o):
        r = ctx.hob3l(["m.scad"] + a + args, outs=[o] if o else [])
        if r.rc != 0:
            raise Violation("%s: status %d, %s" % (args, r.rc, r.err.decode("latin1")[:400]))
        return r.files[o] if o else r.out
    x = go(["-o", name] + case["bin"], name)
    y = go(want, None)
    z = go(want + ["-o", other], other)
    w = go(["-o=" + other] + want, other)
    for lab, q in (("standard output", y), ("file %s with %s" % (other, want), z), ("-o=%s before %s" % (other, want), w)):
        if q != x:
            raise Violation("output by suffix .%s %s differs from %s" % (suf, case["bin"], lab))
    if not x and suf not in ("scad", "csg", "js"):
        raise Violation("empty output file")
    if suf == "stb" and x[:5] == b"solid" or want == ["--dump-stl"] and x[:5] != b"solid":
        raise Violation(".%s: not the promised STL flavour" % suf)
    ctx.nt(len(x) > 200)
    ctx.label("suffix-" + suf)


# ---------------------------------------------------------------- many
@st.composite
def manys(draw):
    """Models with very many triangles: counters and indexes of the formats must not wrap."""
    k = draw(st.sampled_from(["layers", "rings", "plate"]))
    if k == "plate":
        w = draw(st.integers(8, 14))
        nodes = [["translate", {"v": [3 * i, 3 * j, 0]}, [["cylinder", {"h": 20, "r": 1, "$fn": draw(st.integers(12, 40)) if i == 0 else 24}]]]
                 for i in range(w) for j in range(w)]
        per = w * w * 90
    else:
        fn = draw(st.integers(60, 100))
        nodes = [["cylinder", {"h": 20, "r": 5, "$fn": fn}]]
        per = 4 * fn
        if k == "rings":
            nodes = [["difference", {}, nodes + [["translate", {"v": [0, 0, -1]}, [["cylinder", {"h": 30, "r": 4, "$fn": fn}]]]]]]
            per = 8 * fn
    total = draw(st.sampled_from([30000, 66000, 70000, 80000, 100000, 140000]))
    return dict(nodes=nodes, cnt=min(900, max(1, total // per)), step=.02)


def many(case, ctx):
    ctx.write("m.scad", scad.program(case["nodes"]))
    a = ["-q", "--min=.1", "--step=%r" % case["step"], "--max=%r" % (.1 + case["step"] * (case["cnt"] - .5)), "--layer-gap=.01"]
    res = {}
    for o in ("o.stl", "o.stb", "o.js", "o.csg"):
        r = ctx.hob3l(["m.scad", "-o", o] + a, outs=[o], timeout=60)
        if r.rc != 0 or r.files[o] is None:
            raise Violation("%s: valid model is not converted: status %d, %s" % (o, r.rc, r.err.decode("latin1")[:600]))
        res[o[2:]] = r.files[o]
    nb, vb = out.stl_bin(res["stb"])
    w = [l[12:] for l in res["stl"].split(b"\n") if l.startswith(b"      vertex")]
    v = np.array(b" ".join(w).split(), float).reshape(-1, 3, 3)
    if len(v) != len(vb):
        raise Violation("%d triangles in the text STL, %d in the binary STL" % (len(v), len(vb)))
    if np.abs(v - vb).max() > 1e-5:
        raise Violation("the vertices of the text and the binary STL differ")
    bot = int((nb[:, 2] < -.5).sum())
    n = sum(int((c["n"][:, 0, 2] < -.5).sum()) for c in out.js(res["js"]))
    if n != bot:
        raise Violation("%d bottom triangles in the STL, %d in JS" % (bot, n))
    m = res["csg"].count(b"polygon(")
    n = sum(len(l["paths"]) for l in out.scad_layers(res["csg"])) if len(res["csg"]) < 3e6 else None
    if n is not None and n != bot:
        raise Violation("%d bottom triangles in the STL, %d paths in SCAD" % (bot, n))
    if m == 0:
        raise Violation("no polygon in the SCAD output")
    ctx.nt(len(v) > 65535)
    ctx.label("many")


PARTS = [Part("formats", lambda: gen.outmodel(maxcnt=3), formats, quick=2500), Part("select", selections, select, quick=1000),
         Part("many", manys, many, quick=24)]
