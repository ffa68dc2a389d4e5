"""C18: the error policy options."""
import re
import numpy as np
import hypothesis.strategies as st
from hv import gen, geo, scad
from hv.run import Part, Violation, Discard

PROP = "C18"
TECHNIQUE = ("property-based testing (Hypothesis): offending objects and parameters are planted into random models, run under random policies; the exit status and "
             "messages are predicted from the policies, and the region is compared with the pruned model's (metamorphic)")
NOTE = "Random search over models, offences, places and combinations of policies."
RULE = ("A random 3D or 2D tree gets 1-5 offenders of 7 classes (empty by own parameter, collapsed by a transformation, 2D object in 3D context, 3D object in 2D "
        "context, unsupported functor, unknown functor, unknown parameter) at random places; every option is random or default.  If an offender's class has policy error, the "
        "run must fail with one error message and no output; otherwise it must succeed with exactly one warning per offender of class warn, none for ignore, and print the "
        "region of the model without them.  Non-trivial: at least one offender, and either a rejection or material.")

CLS = ["empty", "collapse", "outside-2d", "outside-3d", "unsupported-functor", "unknown-functor", "unknown-param"]
DEF = dict(zip(CLS, ["error"] * 4 + ["warn", "error", "warn"]))
KEY = {"empty": rb"non-empty|needs at least|Scale is negative", "collapse": rb"non-zero scale|Non-invertible", "outside-2d": rb"outside 2D context",
       "outside-3d": rb"outside 3D context", "unsupported-functor": rb"is not supported yet", "unknown-functor": rb"Unknown functor",
       "unknown-param": rb"Unknown parameter name"}
SQ, CU = ["square", {"size": [2, 1]}], ["cube", {"size": [1, 2, 3]}]
TET = [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]


def bad(n, cls, eff):
    return [n[0], dict(n[1], **{"!": [cls, eff]})] + n[2:]


def offenders(two):
    e2 = [["square", {"size": 0}], ["square", {"size": [1, 0]}], ["square", {"size": [0, 2], "center": True}], ["circle", {"r": 0, "$fn": 5}], ["circle", {"d": 0}],
          ["polygon", {"points": [[0, 0], [1, 0]]}]]
    e3 = [["cube", {"size": 0}], ["cube", {"size": [1, 0, 2]}], ["cube", {"size": [1, 1, 0], "center": True}], ["sphere", {"r": 0}], ["sphere", {"r": -1, "$fn": 6}],
          ["sphere", {"d": 0}], ["cylinder", {"h": 0, "r": 1}], ["cylinder", {"h": -1, "r": 2}], ["cylinder", {"h": 1, "r": 0}], ["cylinder", {"h": 1, "r1": 0, "r2": 0}],
          ["cylinder", {"h": 2, "d": -1}], ["polyhedron", {"points": TET[:3], "faces": [[0, 1, 2]] * 4}], ["polyhedron", {"points": TET, "faces": [[0, 1, 2], [0, 1, 3], [0, 2, 3]]}],
          ["linear_extrude", {"height": 0}, [SQ]], ["linear_extrude", {"height": -2}, [SQ]], ["linear_extrude", {"height": 2, "slices": 0}, [SQ]],
          ["rotate_extrude", {"angle": 0}, [SQ]], ["rotate_extrude", {"angle": -20, "$fn": 5}, [SQ]]]
    leaf = SQ if two else CU
    col = [["scale", {"v": 0}, [leaf]], ["scale", {"v": [1, 0]}, [leaf, leaf]], ["scale", {"v": [0, 1, 1]}, [leaf]],
           ["multmatrix", {"m": [[1, 2], [2, 4]]}, [leaf]], ["multmatrix", {"m": [[0, 0, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0]]}, [leaf]]]
    o2 = [SQ, ["square", {"_": [3]}], ["circle", {"r": 1, "$fn": 6}], ["polygon", {"points": [[0, 0], [2, 0], [0, 2]]}], ["projection", {"cut": True}, [CU]]]
    o3 = [CU, ["sphere", {"r": 1}], ["sphere", {"r": 2, "$fn": 6}], ["cylinder", {"h": 1, "r": 2}], ["linear_extrude", {"height": 1}, [SQ]], ["rotate_extrude", {"$fn": 4}, [SQ]],
          ["polyhedron", {"points": TET, "faces": [[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]]}]]
    # an object that is empty, but in the wrong context, is judged by its context
    o2e, o3e = [["square", {"size": 0}]], [["cube", {"size": 0}], ["linear_extrude", {"height": 0}, [SQ]]]
    uf = [["foo", {}], ["cubes", {"_": [1], "center": True}], ["Cube", {"size": 2}], ["minkowski", {}, [leaf, leaf]], ["offset", {"r": 1}, [leaf]], ["resize", {"_": [[1, 2, 3]]}, [CU, SQ]],
          ["_a9", {"x": [1, [2, None]], "s": "q"}]]
    r = [bad(n, "empty", "E") for n in (e2 if two else e3)]
    r += [bad(n, "collapse", "gone") for n in col]
    r += [bad(n, "outside-3d", "gone") for n in o3 + o3e] if two else [bad(n, "outside-2d", "gone") for n in o2 + o2e]
    r += [bad(n, "unknown-functor", "gone") for n in uf]
    r += [bad(["text", {"text": "ab"}], "unsupported-functor", "E"), bad(["text", {"_": ["x"], "size": 3}], "unsupported-functor", "E")] if two else \
        [bad(["surface", {"file": "none.dat"}], "unsupported-functor", "E"), bad(["surface", {"_": ["a.png", True]}], "unsupported-functor", "E")]
    return st.sampled_from(["empty", "collapse", "outside", "unsupported-functor", "unknown-functor"]).flatmap(
        lambda c: st.sampled_from([x for x in r if x[1]["!"][0].startswith(c)]))


O3, O2 = offenders(False), offenders(True)
PARAMS = {"foo": 1, "Size": [1, 2], "fn": 8, "$fq": None, "centre": True, "r3": "x", "_": 0, "heigth": 2.5}


def unparam(draw, n):
    """Adds unknown parameters, at random places among the others."""
    p = dict(n[1])
    pos = {k: v for k, v in p.items() if k == "_"}
    named = [(k, v) for k, v in p.items() if k != "_"]
    names = draw(st.lists(st.sampled_from([k for k in PARAMS if k != "_"]), min_size=1, max_size=2, unique=True))
    for x in names:
        named.insert(draw(st.integers(0, len(named))), (x, PARAMS[x]))
    return [n[0], dict(list(pos.items()) + named, **{"!": ["unknown-param", names]})] + n[2:]


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        nodes = [["linear_extrude", {"height": 2}, [draw(gen.csg2(2)) for _ in range(draw(st.sampled_from([1, 2])))]]]
    else:
        nodes = [draw(gen.csg3(2, st.one_of(gen.prim3(), gen.prim3(), gen.linext(0)))) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    left = [draw(st.integers(1, 5))]
    rate = draw(st.sampled_from([1, 2, 4, 8]))
    only = draw(st.sampled_from([None, None, "param", "place"]))

    def rec(ns, two):
        out = []
        for i in range(len(ns) + 1):
            while left[0] > 0 and only != "param" and draw(st.integers(0, rate)) == 0:
                left[0] -= 1
                o = draw(O2 if two else O3)
                if draw(st.integers(0, 5)) == 0:
                    o = ["union", {}, [o]]
                out.append(o)
            if i == len(ns):
                break
            n = ns[i]
            m = [n[0], n[1]]
            if len(n) > 2:
                t = True if "extrude" in n[0] else False if n[0] == "projection" else two
                m.append(rec(n[2], t))
            if left[0] > 0 and only != "place" and n[0] not in scad.GROUP and n[0] not in ("difference", "intersection", "{}", "hull") and draw(st.integers(0, rate)) == 0:
                left[0] -= 1
                m = unparam(draw, m)
            elif left[0] > 0 and m[0] == "linear_extrude" and draw(st.integers(0, 2)) == 0:
                left[0] -= 1
                s = draw(st.sampled_from([-1, -.5, [-2, -1], [-1, 0], [0, -1]]))
                m = [m[0], dict(m[1], scale=s, slices=draw(st.integers(1, 4)), **{"!": ["empty", "clamp"]}), m[2]]
            out.append(m)
        return out
    nodes = rec(nodes, False)
    pol = {c: draw(st.sampled_from(["ignore", "warn", "ignore", "warn", "error", None])) for c in CLS}
    return dict(nodes=nodes, pol=pol, t=draw(st.integers(3, 97)) / 100, sep=draw(st.sampled_from(["=", " "])),
                fmt=draw(st.sampled_from(["scad", "scad", "stl"])))


def clean(n):
    return [n[0], {k: v for k, v in n[1].items() if k != "!"}] + ([[clean(c) for c in n[2]]] if len(n) > 2 else [])


def prune(n):
    b = n[1].get("!")
    n = [n[0], {k: v for k, v in n[1].items() if k != "!"}] + n[2:]
    if b:
        if b[1] == "gone":
            return None
        if b[1] == "E":
            return "E"
        if b[1] == "clamp":
            n = [n[0], dict(n[1], scale=0)] + n[2:]
        else:
            n = [n[0], {k: v for k, v in n[1].items() if k not in b[1]}] + n[2:]
    if len(n) < 3:
        return n
    ch = [c for c in (prune(c) for c in n[2]) if c is not None]
    if not ch:
        return None
    if n[0] == "difference" and ch[0] == "E" or n[0] == "intersection" and "E" in ch:
        return "E"
    ch = [c for c in ch if c != "E"]
    return [n[0], n[1], ch] if ch else "E"


def count(nodes):
    have = {}
    for n in scad.walk(nodes):
        if "!" in n[1]:
            c, e = n[1]["!"]
            have[c] = have.get(c, 0) + (len(e) if isinstance(e, list) else 1)
    return have


def surely(nodes):
    """The nodes without what is subtracted from an empty object: no need to look at it."""
    out = []
    for n in nodes:
        ch = n[2] if len(n) > 2 else None
        if n[0] == "difference":
            for i, c in enumerate(ch):
                if prune(c) == "E":
                    ch = ch[:i + 1]
                    break
                if prune(c) is not None:
                    break
        out.append(n[:2] + ([surely(ch)] if ch is not None else []))
    return out


def run(case, ctx):
    nodes, pol = case["nodes"], case["pol"]
    have, sure = count(nodes), count(surely(nodes))
    ref = [n for n in map(prune, nodes) if n not in (None, "E")]
    box = scad.bbox3(ref)
    if box is None:
        z = .7
    else:
        if np.abs(box).max() > 5000:
            raise Discard("huge")
        z = box[0][2] + (box[1][2] - box[0][2]) * case["t"]
    args = []
    for c in CLS:
        if pol[c]:
            args += ["--%s=%s" % (c, pol[c])] if case["sep"] == "=" else ["--" + c, pol[c]]
    o = geo.FORMATS[case["fmt"]][0]
    ctx.write("m.scad", scad.program([clean(n) for n in nodes]))
    r = ctx.hob3l(["m.scad", "-q", "--z=%.17g" % z, "-o", o] + args, outs=[o])
    eff = {c: pol[c] or DEF[c] for c in CLS}
    fail = [c for c in have if eff[c] == "error"]
    ctx.label("fail" if fail else "ok", *sorted(have))
    if fail and not any(c in sure for c in fail):
        raise Discard("only subtracted from nothing")
    if fail:
        if r.rc != 1 or r.files[o]:
            raise Violation("%s present and set to 'error', but status is %d, output %s bytes" % (fail, r.rc, r.files[o] and len(r.files[o])))
        if len(re.findall(rb"Error: ", r.err)) != 1:
            raise Violation("rejected without exactly one error message: %r" % r.err[:500])
        m = r.err[r.err.index(b"Error: "):].split(b"\n")[0]
        if not any(re.search(KEY[c], m) for c in fail):
            raise Violation("rejected because of %r, expected one of %s" % (m, fail))
        ctx.nt()
        return
    if r.rc != 0 or r.files[o] is None:
        raise Violation("nothing is set to 'error' that occurs (%s; policies %s), but status is %d: %s" % (sorted(have), eff, r.rc, r.err.decode("latin1")[:500]))
    w = [l for l in r.err.split(b"\n") if b"Warning: " in l]
    if b"Error" in r.err:
        raise Violation("error message on success: %r" % r.err[:300])
    for c in CLS:
        n = sum(1 for l in w if re.search(KEY[c], l))
        want = have.get(c, 0) if eff[c] == "warn" else 0
        least = sure.get(c, 0) if eff[c] == "warn" else 0
        if not least <= n <= want:
            raise Violation("%d offenders of class %s, policy %s: %d warnings, expected %d: %s" % (have.get(c, 0), c, eff[c], n, want, r.err.decode("latin1")[:600]))
    if not w and r.err:
        raise Violation("something is said although all is ignored: %r" % r.err[:300])
    d = r.files[o]
    from hv import out
    got = out.stl_regions(d) if case["fmt"] == "stl" else out.scad_regions(d)
    got = np.vstack([s for _, s in got]) if got else np.zeros((0, 4))
    exp = np.zeros((0, 4))
    if ref:
        exp = geo.run_layers(ctx, scad.program(ref), ["-q", "--z=%.17g" % z], case["fmt"])
        exp = np.vstack([s for _, s in exp]) if exp else np.zeros((0, 4))
    ins = geo.same_region(got, exp, geo.rng_for(case), 4 * scad.PX, what="with the offenders tolerated (first) and removed (second) the region differs: ")
    ctx.nt(ins > 0)


PARTS = [Part("policy", cases, run, quick=6000)]
