"""C30: modifier characters and ignored children."""
import hypothesis.strategies as st
from hv import gen, geo, scad
from hv.run import Part, Violation, Discard

PROP = "C30"
TECHNIQUE = ("property-based testing (Hypothesis): metamorphic (a decorated model and its undecorated equivalent print the same bytes), and random "
             "trees with ignored children against a point-membership reference evaluator implementing the documented IGNORE")
NOTE = "Random search over placements of modifiers and empty subtrees."
RULE = ("Part 'same': a random CSG tree is decorated with '*', '%', '#', '!' at random nodes; the tool must print the same bytes as for the tree "
        "with skipped subtrees deleted, '#' dropped and only the '!' subtree kept.  Part 'ignore': empty and skipped children are put "
        "at random places of 3D and 2D trees and the layer is compared with the evaluator.  Part 'first': difference and intersection "
        "whose operands are mixed with ignored children.  Part 'order': the modifiers of an object in another order or repeated.  Non-trivial: a decorated node exists and material is printed.")


def kids(n):
    return n[2] if len(n) > 2 else None


@st.composite
def decorated(draw):
    nodes = [draw(gen.csg3(3)) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 2)) == 0:
        nodes.append(["linear_extrude", {"height": 2}, [draw(gen.csg2(2))]])
    rate = draw(st.sampled_from([2, 4, 8]))

    def rec(ns):
        out = []
        for n in ns:
            p = dict(n[1])
            if draw(st.integers(0, rate)) == 0:
                p["%"] = draw(st.sampled_from(["*", "%", "#", "#", "*#", "%*", "#%", "##"]))
            n2 = [n[0], p]
            if kids(n) is not None:
                n2.append(rec(kids(n)))
            out.append(n2)
        return out
    nodes = rec(nodes)
    root = None
    if draw(st.integers(0, 3)) == 0:
        cand = []

        def walk(ns, path, two):
            for i, n in enumerate(ns):
                if scad.skip(n):
                    continue
                if not two:
                    cand.append(path + [i])
                if kids(n) is not None:
                    walk(kids(n), path + [i], two or n[0] in ("linear_extrude", "rotate_extrude"))
        walk(nodes, [], False)
        if cand:
            root = draw(st.sampled_from(cand))
    return dict(nodes=nodes, root=root, fmt=draw(st.sampled_from(["stl", "scad"])))


def get(nodes, path):
    n = nodes[path[0]]
    for i in path[1:]:
        n = n[2][i]
    return n


def copy_with_mark(nodes, path):
    out = []
    for i, n in enumerate(nodes):
        p, n2 = dict(n[1]), [n[0]]
        if path and path[0] == i:
            if len(path) == 1:
                p["%"] = "!" + p.get("%", "") if len(path) % 2 else p.get("%", "") + "!"
        n2.append(p)
        if kids(n) is not None:
            n2.append(copy_with_mark(n[2], path[1:] if path and path[0] == i else None))
        out.append(n2)
    return out


def strip(ns):
    out = []
    for n in ns:
        if scad.skip(n):
            continue
        p = {k: v for k, v in n[1].items() if k != "%"}
        out.append([n[0], p] + ([strip(kids(n))] if kids(n) is not None else []))
    return out


def run_same(case, ctx):
    nodes = case["nodes"]
    a = copy_with_mark(nodes, case["root"])
    b = strip([get(nodes, case["root"])] if case["root"] else nodes)
    o = "o." + case["fmt"]
    res = []
    for i, x in enumerate((a, b)):
        ctx.write("m.scad", scad.program(x))
        r = ctx.hob3l(["m.scad", "-q", "--step=0.7", "-o", o], outs=[o])
        res.append((r.rc, r.files[o], r.err))
    if res[0][:2] != res[1][:2]:
        raise Violation("modifiers change the result: with them status %d, %d bytes; equivalent without them: status %d, %d bytes; %s%s"
                        % (res[0][0], len(res[0][1] or b""), res[1][0], len(res[1][1] or b""), res[0][2][:300], res[1][2][:300]))
    mods = [n[1].get("%", "") for n in scad.walk(a)]
    ctx.nt(any(mods) and len(res[0][1] or b"") > 400)
    ctx.label("rc%d" % res[0][0], "root" if case["root"] else "no-root", "skip" if len(list(scad.walk(a))) != len(list(scad.walk(b))) else "no-skip")


def empties(two):
    leaf = ["square", {"size": 3}] if two else ["cube", {"size": 3}]
    base = [["group", {}, []], ["union", {}, []], ["translate", {"v": [1, 2] if two else [1, 2, 3]}, []], ["difference", {}, []],
            ["intersection", {}, []], ["{}", {}, []], ["color", {"c": "red"}, []], ["render", {}, []],
            ["scale", {"v": [2, 2]}, []], ["mirror", {"v": [1, 0]}, []]]
    sk = [[leaf[0], dict(leaf[1], **{"%": m})] for m in "*%"]
    sk += [["group", {"%": "*"}, [leaf]], ["difference", {"%": "%"}, [leaf, leaf]]]
    if not two:
        base += [["linear_extrude", {"height": 1}, []], ["rotate_extrude", {}, []]]
        sk += [["linear_extrude", {"height": 2}, [["square", {"size": 2, "%": "*"}]]]]
    else:
        base += [["projection", {"cut": True}, []]]
        sk += [["projection", {"cut": True}, [["cube", {"size": 2, "%": "*"}]]]]
    one = st.sampled_from(base + sk)
    nest = st.tuples(st.sampled_from([b for b in base if b[0] not in ("linear_extrude", "rotate_extrude", "projection")]),
                     st.lists(one, min_size=1, max_size=2)).map(lambda t: [t[0][0], t[0][1], t[1]])
    return st.one_of(one, one, nest)


E3, E2 = empties(False), empties(True)


def infuse(draw, ns, two, rate):
    out = []
    for n in ns:
        while draw(st.integers(0, rate)) == 0:
            out.append(draw(E2 if two else E3))
        m = [n[0], n[1]]
        if kids(n) is not None:
            t = two
            if n[0] in ("linear_extrude", "rotate_extrude"):
                t = True
            if n[0] == "projection":
                t = False
            m.append(infuse(draw, n[2], t, rate))
        out.append(m)
    if draw(st.integers(0, rate)) == 0:
        out.append(draw(E2 if two else E3))
    return out


@st.composite
def ignoring(draw):
    nodes = [draw(gen.csg3(3))]
    if draw(st.integers(0, 1)) == 0:
        nodes = [["linear_extrude", {"height": 2}, [draw(gen.csg2(3))]]]
    return dict(nodes=infuse(draw, nodes, False, draw(st.sampled_from([1, 3, 5]))), t=draw(st.integers(5, 95)) / 100)


@st.composite
def first(draw):
    """difference/intersection of two or three overlapping solids with ignored children in between."""
    two = draw(st.booleans())
    E = E2 if two else E3

    def op(depth):
        k = draw(st.integers(2, 3))
        ch = []
        for _ in range(k):
            while draw(st.integers(0, 1)) == 0:
                ch.append(draw(E))
            if depth and draw(st.integers(0, 2)) == 0:
                ch.append(op(depth - 1))
            elif draw(st.integers(0, 3)) == 0:
                # a subtree that is empty, but not ignored
                if draw(st.booleans()):
                    ch.append(["square", {"size": 0}] if two else draw(st.sampled_from([["cube", {"size": 0}], ["cube", {"size": [1, 0, 2]}]])))
                    continue
                far = ["translate", {"v": [50, 50]}, [["square", {"size": 1}] if two else ["cube", {"size": 1}]]]
                near = ["square", {"size": 1}] if two else ["cube", {"size": 1}]
                ch.append(["intersection", {}, [near, far]])
            else:
                ch.append(draw(gen.prim2() if two else gen.prim3()))
        return [draw(st.sampled_from(["difference", "difference", "intersection", "group"])), {}, ch]
    n = op(2)
    if two:
        n = ["linear_extrude", {"height": 2}, [n]]
    return dict(nodes=[n], t=draw(st.integers(5, 95)) / 100)


def run_ev(case, ctx):
    nodes = case["nodes"]
    pos = [["union", {}, [x for x in scad.walk(nodes) if x[0] in scad.PRIM3 or x[0] == "linear_extrude"]]]
    box = scad.bbox3(nodes)
    if box is None:
        box = scad.bbox3(pos)
    if box is None:
        lo, hi = 0, 2
    else:
        lo, hi = box[0][2], box[1][2]
    if hi - lo > 5000:
        raise Discard("huge")
    z = lo + (hi - lo) * case["t"]
    reg = geo.run_layers(ctx, scad.program(nodes), ["-q", "--z=%.17g" % z, "--empty=ignore"], "scad")
    tot, ins, lay = geo.check_model(ctx, case, nodes, reg, [z], npts=160)
    ctx.nt(ins > 0 and any(scad.ignored(n) for n in scad.walk(nodes)))
    ctx.label("inside" if ins else "all-empty")


@st.composite
def orders(draw):
    nodes = [draw(gen.csg3(2)) for _ in range(draw(st.integers(1, 2)))]
    n = len([x for x in scad.walk(nodes)])
    mods, root = [], draw(st.integers(0, 2 * n))
    for i in range(n):
        m = sorted(draw(st.sets(st.sampled_from("*%##"), max_size=3))) if draw(st.integers(0, 2)) == 0 else []
        if i == root:
            m.append("!")
        a = draw(st.permutations(m))
        b = draw(st.permutations(m + [draw(st.sampled_from(m))] if m and draw(st.booleans()) else m))
        mods.append([draw(st.sampled_from(["", " "])).join(a), draw(st.sampled_from(["", " ", "/**/"])).join(b)])
    return dict(nodes=nodes, mods=mods, fmt=draw(st.sampled_from(["stl", "scad", "syn", "csg3"])))


def run_orders(case, ctx):
    """The order of the modifier characters of one object and repeating one make no difference."""
    res, some = [], False
    for k in (0, 1):
        it = iter(case["mods"])

        def rec(ns):
            out = []
            for n in ns:
                m = next(it)[k]
                p = dict(n[1])
                if m:
                    p["%"] = m
                n2 = [n[0], p]
                if kids(n) is not None:
                    n2.append(rec(kids(n)))
                out.append(n2)
            return out
        ctx.write("m.scad", scad.program(rec(case["nodes"])))
        r = ctx.hob3l(["m.scad", "-q", "--step=0.7", "--dump-" + case["fmt"], "-o", "o.x"], outs=["o.x"])
        res.append((r.rc, r.files["o.x"]))
    if res[0] != res[1]:
        raise Violation("the order of modifiers matters: %r; status %d and %d, %d and %d bytes"
                        % ([m for m in case["mods"] if m[0] != m[1]], res[0][0], res[1][0], len(res[0][1] or b""), len(res[1][1] or b"")))
    ctx.nt(any(a != b for a, b in case["mods"]))
    ctx.label("rc%d" % res[0][0])


PARTS = [Part("order", orders, run_orders, quick=1000),
         Part("same", decorated, run_same, quick=2500),
         Part("ignore", ignoring, run_ev, quick=3500),
         Part("first", first, run_ev, quick=4500)]
