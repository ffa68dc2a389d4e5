"""C15: STL import."""
import random, struct
import numpy as np
import hypothesis.strategies as st
from checks import c26
from hv import gen, geo, geom, mesh, scad
from hv.run import Part, Violation, Discard

PROP = "C15"
TECHNIQUE = ("property-based testing (Hypothesis): generated closed triangle meshes written as text and binary STL in random legal spellings, "
             "against exact even-odd sections of the mesh; damaged files must be rejected")
NOTE = "Random search over meshes, spellings and damages."
RULE = ("A case is a closed triangle mesh, an STL encoding (text with random white space, number spelling, names, normals; binary with random header, "
        "attributes and normals) and an affine map around import().  Each layer is compared with the mesh's section at points beside every edge and at "
        "random.  In part 'reject' the file is truncated or edited.  Non-trivial: material at the slice height; in 'reject': always.")
ASSUMPTIONS = ["points nearer than 3 grid units to the section's edges are not judged", "text files start with 'solid', binary files do not"]


@st.composite
def tmesh(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        p = mesh.voxel_surface(mesh._fix(draw(cells()), 3, 3, 2), False)
        p = mesh.triangulated(draw, p)
    elif k == 1:
        p = draw(mesh.bumpy())
    elif k == 2:
        p = draw(mesh.torus())
    else:
        p = mesh.triangulated(draw, drop_floor(draw(mesh.terrain())))
    if draw(st.integers(0, 4)) == 0:
        p = mesh.join(p, mesh.move(p, [16, 1, .5]))
    if draw(st.integers(0, 24)) == 0:
        # many facets
        q, (n, m) = p, draw(st.tuples(st.integers(1, 5), st.integers(1, 5)))
        for i in range(n * m):
            if i:
                p = mesh.join(p, mesh.move(q, [40 * (i % n), 20 * (i // n), .25 * (i % 3)]))
    return p


def drop_floor(p):
    """The terrain's floor is one face with collinear corners: a fan from a mid corner would have flat triangles."""
    f = p["faces"][-1]
    P = p["points"]
    c = len(P)
    x = sum(P[i][0] for i in f) / len(f)
    y = sum(P[i][1] for i in f) / len(f)
    return dict(points=P + [[round(x * 64) / 64 , round(y * 64) / 64, 0]],
                faces=p["faces"][:-1] + [[f[i], f[(i + 1) % len(f)], c] for i in range(len(f))])


@st.composite
def cells(draw):
    b = draw(st.integers(1, (1 << 18) - 1))
    return {(x, y, z) for x in range(3) for y in range(3) for z in range(2) if b >> (x + 3 * (y + 3 * z)) & 1}


NAMES = ["", " x", " my part 1", " solid facet", "\tname_9", " endsolid", " \xc3\xa4\xff", " 1.5 normal", "  ", " vertex 1 2 3", " \"q\" //"]


@st.composite
def cases(draw):
    p = draw(tmesh())
    wrap = draw(st.sampled_from([None, None, "exact", "free"]))
    c = dict(poly=p, enc=draw(st.sampled_from(["text", "text", "bin"])), seed=draw(st.integers(0, 99999)),
             name=draw(st.sampled_from(NAMES)), style=draw(st.integers(0, 5)), num=draw(st.integers(0, 5)),
             nrm=draw(st.integers(0, 3)), flip=draw(st.sampled_from([0, 0, 1, 2])), m=None, wrap=None,
             t=[draw(st.integers(1, 99)) / 100 for _ in range(2)], lvl=draw(st.booleans()), fmt=draw(st.sampled_from(["stl", "scad"])))
    if wrap == "exact":
        c["m"] = draw(mesh.exact_map())
    elif wrap == "free":
        c["wrap"] = draw(gen.xform(st.just([["X"]])))
    return c


def facets(case, rnd):
    P = case["poly"]["points"]
    T = [[P[i] for i in f[::-1]] for f in case["poly"]["faces"]]      # right hand rule
    out = []
    for t in T:
        k = rnd.randrange(3)
        t = t[k:] + t[:k]
        a, b, c = (np.array(x, float) for x in t)
        n = np.cross(b - a, c - a)
        l = np.linalg.norm(n)
        n = n / l if l else n
        if case["flip"] == 1 or (case["flip"] == 2 and rnd.random() < .5):
            t = [t[0], t[2], t[1]]
        if case["nrm"] == 1:
            n = n * 0
        elif case["nrm"] == 2:
            n = n * 100
        out.append((list(n), t))
    rnd.shuffle(out)
    return out


def number(x, k, rnd):
    x = x + 0.0 if x else 0.0
    if k == 5:
        k = rnd.randrange(5)
    if k == 0:
        return "%.17g" % x
    if k == 1:
        return "%.9e" % x if float("%.9e" % x) == x else "%.17e" % x
    if k == 2:
        return ("+" if x >= 0 else "") + "%.17g" % x
    if k == 3:
        s = "%.17g" % x
        if s.startswith("0."):
            s = s[1:]
        elif s.startswith("-0."):
            s = "-" + s[2:]
        elif "." not in s and "e" not in s:
            s += "."
        return s
    return ("%.16E" % x).replace("E+", rnd.choice(["E", "E+", "e+0"]))


def text(case, rnd):
    style = case["style"]

    def ws(nl):
        if style == 0:
            return "\n" if nl else " "
        if style == 1:
            return "\r\n    " if nl else " "
        if style == 2:
            return " "
        if style == 3:
            return "\n"
        if style == 4:
            return rnd.choice(["\n", "\t", "  ", "\r\n", "\n\n \t"])
        return "\n\t" if nl else "\t"
    eol = rnd.choice(["\n", "\r\n"])
    s = "solid" + case["name"] + eol
    for n, t in facets(case, rnd):
        f = lambda v: (ws(0)).join(number(c, case["num"], rnd) for c in v)
        s += "facet" + ws(0) + "normal" + ws(0) + f(n) + ws(1) + "outer" + ws(0) + "loop" + ws(1)
        for v in t:
            s += "vertex" + ws(0) + f(v) + ws(1)
        s += "endloop" + ws(1) + "endfacet" + ws(1)
    s += "endsolid" + rnd.choice(["", case["name"]]) + rnd.choice(["", eol])
    return s.encode("latin1")


def binary(case, rnd):
    h = bytes(rnd.randrange(256) for _ in range(80)) if case["style"] % 2 else b"exported".ljust(80, b" " if case["style"] == 2 else b"\0")
    if h[:5] == b"solid" or h[:1] == b"<":
        h = b"x" + h[1:]
    fs = facets(case, rnd)
    d = h + struct.pack("<I", len(fs))
    for n, t in fs:
        if case["nrm"] == 3:
            n = [float("nan")] * 3
        d += struct.pack("<12fH", *(list(n) + [c for v in t for c in v]), rnd.randrange(65536) if case["num"] % 2 else 0)
    return d


def encode(case):
    rnd = random.Random(case["seed"])
    return text(case, rnd) if case["enc"] == "text" else binary(case, rnd)


def run(case, ctx):
    t = np.array(mesh.tris(case["poly"]), float)
    node = ["import", {"file": "a.stl"}]
    M = np.eye(4)
    if case["m"]:
        M = np.vstack([case["m"], [0, 0, 0, 1]])
        node = ["multmatrix", {"m": case["m"]}, [node]]
    elif case["wrap"]:
        M = scad.matrix(case["wrap"][0], case["wrap"][1])
        node = [case["wrap"][0], case["wrap"][1], [node]]
    t = scad.apply(M, t.reshape(-1, 3)).reshape(-1, 3, 3)
    lo, hi = t[:, :, 2].min(), t[:, :, 2].max()
    if hi - lo < .01 or abs(t).max() > 5000:
        raise Discard("flat")
    hs = np.unique(t[:, :, 2])
    data = encode(case)
    ins = 0
    e = t[:, [1, 2, 0]] - t
    l2 = np.linalg.norm(e[:, :, :2], axis=2)
    exact = bool((np.round(t * 8192) == t * 8192).all())
    for k in case["t"]:
        z = lo + (hi - lo) * k
        if exact and case["lvl"]:
            z = float(hs[int(k * len(hs)) % len(hs)])
        elif np.abs(hs - z).min() < 4 * scad.PX:
            continue
        rho = 3 * scad.PX
        if not (exact and case["lvl"]):
            crossing = ((t[:, :, 2] > z) != (t[:, [1, 2, 0], 2] > z))
            slope = (l2 / np.maximum(abs(e[:, :, 2]), 1e-9))[crossing]
            if len(slope) and slope.max() > 200:
                continue
            rho += scad.PX * 2 * (slope.max() if len(slope) else 0)
        reg = geo.run_layers(ctx, scad.program([node]), ["-q", "--z=%.17g" % z], case["fmt"], files={"a.stl": data})
        ins += c26.compare(case, geo.at(reg, z), t, z, rho)
    ctx.nt(ins > 0)
    ctx.label(case["enc"], "name-" + ("none" if not case["name"].strip() else "some"))


@st.composite
def damages(draw):
    c = draw(cases())
    c["how"] = draw(st.sampled_from(["cut", "cut", "more", "word", "drop", "extra", "zerolen", "garbage", "count"]))
    c["i"] = draw(st.integers(0, 10 ** 7))
    return c


def run_reject(case, ctx):
    d = encode(case)
    i, how = case["i"], case["how"]
    if how == "cut":
        end = len(d) - 1 if case["enc"] == "bin" else d.rindex(b"endsolid", 0, len(d)) if d.rstrip().endswith(b"endsolid") else None
        if end is None:
            raise Discard("name may contain keyword")
        d = d[:i % end + (0 if case["enc"] == "bin" else 0)]
        if case["enc"] == "text" and end and d.strip() == b"":
            pass
    elif how == "zerolen":
        d = b"" if i & 1 else b"solid x\n"
    elif case["enc"] == "bin":
        if how == "count":
            n = len(case["poly"]["faces"])
            d = d[:80] + struct.pack("<I", n + 1 + i % 1000) + d[84:]
        else:
            d = d + b"x" * (1 + i % 49)          # size fits no number of triangles
    else:
        head, rest = d.split(b"\n", 1)
        body, tail = rest[:rest.rindex(b"endfacet")], rest[rest.rindex(b"endfacet"):]
        toks = body.split()
        k = i % len(toks)
        if how == "word":
            toks[k] = b"foo"
        elif how == "drop":
            del toks[k]
        elif how == "extra":
            toks.insert(k, toks[k])
        elif how == "count":
            toks[k] = toks[k] + b"x"
        elif how == "more":
            toks += [b"vertex", b"1", b"2", b"3"]
        else:
            tail = tail.replace(b"endsolid", b"endsolid\n solid", 1) if i & 1 else tail + b"\nfacet"
        d = head + b"\n" + b" ".join(toks) + b" " + tail
    ctx.write("a.stl", d)
    ctx.write("m.scad", 'cube(1);import("a.stl");')
    r = ctx.hob3l(["m.scad", "-q", "-o", "o.stl"], outs=["o.stl"])
    if r.rc != 1 or b"rror" not in r.err:
        raise Violation("damaged %s STL (%s) is not rejected: status %d, message %r" % (case["enc"], how, r.rc, r.err[:200]))
    ctx.nt(True)
    ctx.label("reject-%s-%s" % (case["enc"], how))


PARTS = [Part("import", cases, run, quick=12000),
         Part("reject", damages, run_reject, quick=6000)]
