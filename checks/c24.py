"""C24: what must not matter does not matter."""
import os
import hypothesis.strategies as st
import numpy as np
from hv import gen, geo, geom, out, scad
from hv.run import Part, Violation, Discard

PROP = "C24"
TECHNIQUE = ("property-based testing (Hypothesis): metamorphic; pairs of runs with options or algebraic rewritings that must not change the regions, and "
             "repeated runs that must not change a byte")
NOTE = "Random search over models, options and rewritings; regions are compared at sampled points more than 6 grid units away from both outlines."
RULE = ("Part 'repeat': the same model and options run twice, in different directories, environments and with standard output or a file: equal bytes in any of "
        "the 5 formats or dumps.  Part 'options': --max-simultaneous, -v/-q, --js-*/--ps-* given for other formats, "
        "--no-tri/--no-path/--no-diff, --opt-no-drop-collinear, --opt-no-skip-empty, finer --grid.  Part 'algebra': 1-3 rewritings (operand order, "
        "grouping, A-B-C / A-(B+C), A*B = A-(A-B), double mirror, back-and-forth transformations, duplicated operands, splitting "
        "an object at a plane, distributivity) at random nodes of a random tree.  Part 'shift': translation by grid multiples; disjoint parts alone and together.  "
        "Non-trivial: the layer has material and the two runs really differ in input or options.")
RHO = 6 * scad.PX


@st.composite
def model(draw, depth=2, most=2):
    k = draw(st.integers(0, 3))
    if k == 0:
        nodes = [["linear_extrude", {"height": 3}, [draw(gen.csg2(2, gen.leaf2x()))]]]
    elif k == 1:
        nodes = [draw(gen.csg3(depth + 1, width=4))]
    else:
        nodes = draw(gen.full(depth, most))
    return dict(nodes=nodes, t=[draw(st.integers(2, 98)) / 100.1 for _ in range(draw(st.integers(1, 2)))])


def heights(nodes, ts):
    b = scad.bbox3(nodes)
    if b is None:
        return sorted(set(ts))
    if np.abs(b).max() > 5000 or b[1][2] - b[0][2] < .01:
        raise Discard("size")
    return sorted(set(b[0][2] + (b[1][2] - b[0][2]) * t for t in ts))


def layers(ctx, nodes, zs, args=(), fmt="scad"):
    r = []
    t = scad.program(nodes)
    for z in zs:
        g = geo.run_layers(ctx, t, ["-q", "--z=%.17g" % z, "--empty=ignore", "--collapse=ignore"] + list(args), fmt)
        r.append(np.vstack([s for _, s in g]) if g else np.zeros((0, 4)))
    return r


def same(ctx, case, a, b, zs, rho=RHO, what=""):
    ins = 0
    for x, y, z in zip(a, b, zs):
        # a coordinate rounded differently moves the edge of an almost level face far: such points are not judged
        ins += geo.same_region(x, y, geo.rng_for([case, z]), rho, what="%slayer z=%.9g: " % (what, z),
                               near=lambda z=z: layers(ctx, case["nodes"], [z - 3 * scad.PX, z + 3 * scad.PX]))
    return ins


# ------------------------------------------------------------------ repeat
REP = ["o.stl", "o.stb", "o.js", "o.csg", "o.ps", "--dump-csg3", "--dump-scad", "--dump-syn"]


@st.composite
def repeats(draw):
    c = draw(model())
    c["fmt"] = draw(st.sampled_from(REP))
    c["step"] = draw(st.sampled_from([.3, .71, 1.3]))
    return c


def run_repeat(case, ctx):
    t = scad.program(case["nodes"])
    ctx.write("m.scad", t)
    ctx.write("sub/dir/other.scad", t)
    res = []
    f = case["fmt"]
    for i in range(2):
        env = None
        src, pre = "m.scad", ""
        if i:
            env = dict(os.environ, LANG="de_DE.UTF-8", LC_ALL="C.UTF-8", MALLOC_PERTURB_="165", TZ="Asia/Tokyo", HOME="/")
            src, pre = "sub/dir/other.scad", "sub/"
        a = [src, "-q", "--step=%g" % case["step"], "--empty=ignore", "--collapse=ignore"]
        if f.startswith("-"):
            r = ctx.hob3l(a + [f], env=env)
            res.append((r.rc, r.out, r.err.replace(b"sub/dir/other.scad", b"m.scad")))
        else:
            r = ctx.hob3l(a + ["-o", pre + f], outs=[pre + f], env=env)
            res.append((r.rc, r.files[pre + f], r.err.replace(b"sub/dir/other.scad", b"m.scad")))
    if res[0] != res[1]:
        raise Violation("two runs on the same input differ (%s): status %d/%d, %d/%d bytes" % (f, res[0][0], res[1][0], len(res[0][1] or b""), len(res[1][1] or b"")))
    ctx.nt(len(res[0][1] or b"") > 300)
    ctx.label(f)


# ----------------------------------------------------------------- options
EXACT = [["-v"], ["-q"], ["-q"], ["-q"], ["--no-auto-grid"], ["--js-group=x"], ["--js-color-rand=7"], ["--ps-rot-x=10"], ["--ps-no-tri"], ["--no-diff"],
         ["--no-tri"], ["--no-path"], ["--grid=8192"], ["--eps=1e-9"]]
REGION = [["--max-simultaneous=%d" % i] for i in range(2, 11)] * 2 + [["--opt-no-drop-collinear"], ["--opt-no-skip-empty"], ["--max-simultaneous=3", "--opt-no-drop-collinear"],
          ["--grid=65536"], ["--grid=16384", "--max-simultaneous=4"]]


@st.composite
def options(draw):
    c = draw(model(most=4))
    c["a"] = draw(st.sampled_from(EXACT + REGION * 2))
    # one layer, some, or fewer than one
    c["how"] = draw(st.sampled_from(["z", "z", "--step=.9", "--step=2.3", "--step=9", "--step=50", "--z-max=.3"]))
    c["fmt"] = draw(st.sampled_from(["stl", "stl", "stb", "js", "csg", "ps"]))
    return c


def run_options(case, ctx):
    zs = heights(case["nodes"], case["t"])
    if case["a"] in EXACT:
        t = scad.program(case["nodes"])
        ctx.write("m.scad", t)
        x = []
        how = case.get("how", "z")
        o = "o." + case.get("fmt", "stl")
        if case["a"][0].startswith("--js" if o == "o.js" else "--ps" if o == "o.ps" else "--none"):
            o = "o.stl"
        for a in ([], case["a"]):
            r = ctx.hob3l(["m.scad", "--z=%.17g" % zs[0] if how == "z" else how, "--empty=ignore", "-o", o, "--collapse=ignore"] + a, outs=[o])
            x.append((r.rc, r.files[o]))
        if x[0] != x[1]:
            raise Violation("%s changes the output %s" % (case["a"], o))
        ctx.nt(len(x[0][1] or b"") > 300)
    else:
        a = layers(ctx, case["nodes"], zs)
        b = layers(ctx, case["nodes"], zs, case["a"])
        ctx.nt(same(ctx, case, a, b, zs, what="%s changes the region: " % case["a"]))
    ctx.label(case["a"][0].split("=")[0])


# ----------------------------------------------------------------- algebra
G = ["union", "group", "render", "{}"]


def grp(ch, f="union"):
    return [f, {}, ch]


def rewrite(n, k, two, draw):
    """An equal tree; None if rule k does not apply to node n."""
    f, p = n[0], n[1]
    ch = [c for c in n[2]] if len(n) > 2 else None
    if p.get("%"):
        return None
    live = ch is not None and len(ch) >= 2 and not any(scad.ignored(c) for c in ch)
    if k == "perm" and live and f in ("union", "group", "render", "intersection", "{}"):
        i = draw(st.permutations(range(len(ch))))
        return [f, p, [ch[j] for j in i]]
    if k == "perm" and live and f == "difference" and len(ch) > 2:
        return [f, p, ch[:1] + ch[:0:-1]]
    if k == "nest" and live and f in ("union", "group", "render", "intersection"):
        i = draw(st.integers(1, len(ch) - 1))
        return [f, p, [[f, {}, ch[:i]], [f, {}, ch[i:]]]]
    if k == "subsum" and live and f == "difference":
        return [f, p, [ch[0], grp(ch[1:])]]
    if k == "subchain" and live and f == "difference" and len(ch) > 2:
        return [f, p, [["difference", {}, ch[:-1]], ch[-1]]]
    if k == "cutsub" and live and f == "intersection" and len(ch) == 2:
        return ["difference", p, [ch[0], ["difference", {}, ch]]]
    if k == "wrap":
        return [draw(st.sampled_from(G)), {}, [n]]
    if k == "dup":
        return [draw(st.sampled_from(["union", "intersection"])), {}, [n, n]]
    if k == "empty":
        return ["union", {}, [n, ["difference", {}, [n, n]]]]
    if k == "absorb":
        leaf = ["square", {"size": 3}] if two else ["cube", {"size": 3}]
        return draw(st.sampled_from([["union", {}, [n, ["intersection", {}, [leaf, n]]]], ["intersection", {}, [n, ["union", {}, [n, leaf]]]],
                                     ["difference", {}, [n, ["difference", {}, [leaf, n]]]],
                                     ["union", {}, [["difference", {}, [n, leaf]], ["intersection", {}, [n, leaf]]]],
                                     ["difference", {}, [["union", {}, [n, leaf]], ["difference", {}, [leaf, n]]]]]))
    if k == "mirror2":
        v = draw(st.sampled_from([[1, 0], [0, 1], [1, 1], [1, -2]] + ([] if two else [[0, 0, 1], [1, 0, 1], [1, 2, 3]])))
        return ["mirror", {"v": v}, [["mirror", {"v": v}, [n]]]]
    if k == "back":
        v = [draw(gen.coord(-3, 3)), draw(gen.coord(-3, 3))] + ([] if two else [draw(gen.coord(-3, 3))])
        a = draw(gen.angle())
        return draw(st.sampled_from([["translate", {"v": v}, [["translate", {"v": [-x for x in v]}, [n]]]],
                                     ["rotate", {"a": [0, 0, a]}, [["rotate", {"a": [0, 0, -a]}, [n]]]],
                                     ["scale", {"v": [2, .5]}, [["scale", {"v": [.5, 2]}, [n]]]],
                                     ["rotate", {"a": 360, "v": [0, 0, 1]}, [n]],
                                     ["scale", {"v": [-1, -1]}, [["rotate", {"a": [0, 0, 180]}, [n]]]],
                                     ["mirror", {"v": [1, 0]}, [["scale", {"v": [-1, 1]}, [n]]]],
                                     ["multmatrix", {"m": [[1, .5], [0, 1]]}, [["multmatrix", {"m": [[1, -.5], [0, 1]]}, [n]]]]]))
    if k == "push" and f in scad.XFORM and ch and len(ch) >= 1:
        return grp([[f, p, [c]] for c in ch])
    if k == "distr" and live and f == "intersection" and len(ch) == 2 and ch[1][0] in ("union", "group") and not ch[1][1].get("%") and len(ch[1][2]) > 1 \
            and not any(scad.ignored(c) for c in ch[1][2]):
        return grp([["intersection", {}, [ch[0], c]] for c in ch[1][2]])
    if k == "distr" and live and f == "difference" and ch[0][0] in ("union", "group") and not ch[0][1].get("%") and len(ch[0][2]) > 1 \
            and not any(scad.ignored(c) for c in ch[0][2]):
        return grp([["difference", {}, [c] + ch[1:]] for c in ch[0][2]])
    return None


RULES = ["perm", "perm", "nest", "subsum", "subchain", "cutsub", "wrap", "dup", "empty", "absorb", "absorb", "mirror2", "back", "push", "distr", "distr"]


def sites(ns, two=False, path=()):
    for i, n in enumerate(ns):
        if not scad.ignored(n):
            yield path + (i,), n, two
        if len(n) > 2 and n[0] != "hull" and not scad.skip(n):
            t = True if n[0] in ("linear_extrude", "rotate_extrude") else False if n[0] == "projection" else two
            yield from sites(n[2], t, path + (i,))


def replace(ns, path, new):
    i = path[0]
    n = new if len(path) == 1 else [ns[i][0], ns[i][1], replace(ns[i][2], path[1:], new)]
    return ns[:i] + [n] + ns[i + 1:]


@st.composite
def algebra(draw):
    c = draw(model())
    nodes = c["nodes"]
    if draw(st.booleans()):
        # more of what the rules need
        op = st.sampled_from(["difference", "intersection", "union"])
        q = [draw(gen.csg3(1)) for _ in range(draw(st.integers(2, 4)))]
        nodes = [[draw(op), {}, [[draw(op), {}, q]] + nodes]]
        c["nodes"] = nodes
    used = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(RULES))
        cand = [s for s in sites(nodes)]
        if not cand:
            break
        m = draw(st.integers(0, len(cand) - 1))
        for path, n, two in cand[m:] + cand[:m]:
            r = rewrite(n, k, two, draw)
            if r is not None:
                nodes = replace(nodes, path, r)
                used.append(k)
                break
    c["other"], c["used"] = nodes, used
    return c


def size(ns):
    return sum(1 for _ in scad.walk(ns))


def run_algebra(case, ctx):
    if size(case["other"]) > 120:
        raise Discard("big")
    zs = heights(case["nodes"], case["t"])
    a = layers(ctx, case["nodes"], zs)
    b = layers(ctx, case["other"], zs)
    ctx.nt(same(ctx, case, a, b, zs, 10 * scad.PX, "%s changes the region: " % ",".join(case["used"])) and case["used"])
    ctx.label(*case["used"])


# ------------------------------------------------------------------- shift
@st.composite
def shifts(draw):
    c = draw(model(depth=1))
    c["d"] = [draw(st.one_of(st.integers(-80, 80).map(lambda i: i / 8), st.integers(-3 * 8192, 3 * 8192).map(lambda i: i / 8192))) for _ in range(2)] + [draw(st.integers(-9, 9))]
    c["two"] = draw(st.booleans())
    return c


def run_shift(case, ctx):
    zs = heights(case["nodes"], case["t"])
    a = layers(ctx, case["nodes"], zs)
    d = case["d"]
    if case["two"]:
        # a copy far away does not change this one
        b = scad.bbox3(case["nodes"])
        if b is None:
            raise Discard("empty")
        far = float(np.ceil(b[1][0] - b[0][0]) + 7)
        both = [["union", {}, case["nodes"]], ["translate", {"v": [far, 0, 0]}, case["nodes"]]]
        if d[2] < 0:
            both = both[::-1]
        r = layers(ctx, both, zs)
        lim = b[1][0] + 3
        x = [s[(s[:, 0] < lim) & (s[:, 2] < lim)] for s in r]
        y = [s[(s[:, 0] > lim) & (s[:, 2] > lim)] - [far, 0, far, 0] for s in r]
        ins = same(ctx, case, a, x, zs, what="with a copy beside it, the object changes: ")
        same(ctx, case, a, y, zs, what="the copy beside the object differs from it: ")
    else:
        zz = [z + d[2] for z in zs]
        r = layers(ctx, [["translate", {"v": d}, case["nodes"]]], zz)
        ins = same(ctx, case, a, [s - [d[0], d[1], d[0], d[1]] for s in r], zs, what="translation by %s changes the region: " % d)
    ctx.nt(ins)
    ctx.label("two" if case["two"] else "shift")


PARTS = [Part("repeat", repeats, run_repeat, quick=500),
         Part("options", options, run_options, quick=1200),
         Part("algebra", algebra, run_algebra, quick=1800),
         Part("shift", shifts, run_shift, quick=800)]
