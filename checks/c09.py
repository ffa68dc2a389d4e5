"""C09: equivalent spellings."""
import hypothesis.strategies as st
from hv import gen, scad, spell
from hv.run import Part, Violation

PROP = "C09"
TECHNIQUE = ("property-based testing (Hypothesis): metamorphic; a random model is written in two spellings which the documentation defines to be "
             "equivalent, and both must give the same bytes; random number and layout spellings against strtod/strtoll semantics")
NOTE = "Random search over models and spellings."
RULE = ("Part 'spell': a random model over all functors is printed canonically and in a random equivalent spelling (white space, comments, number "
        "formats, positional/named arguments, argument order, defaults written or left out, alternative parameters, scalar/vector, "
        "true/1, braces/single child, union/group/render/block); layers (STL or SCAD) and, unless union is replaced by an alias, the CSG3 dump must be "
        "byte-identical.  Part 'number': random number tokens generated from the documented grammar against the value Python's correctly rounding "
        "float() gives.  Non-trivial: the texts differ in at least one feature and material is printed.")


@st.composite
def spellings(draw):
    nodes = draw(gen.full(2, 2))
    feats = draw(st.lists(st.sampled_from(spell.FEATURES), min_size=1, max_size=len(spell.FEATURES), unique=True))
    if draw(st.integers(0, 4)) == 0:
        nodes = spell.with_pi(nodes, draw(st.integers(0, 10**6)))
    return dict(nodes=nodes, feats=sorted(feats), seed=draw(st.integers(0, 10**6)), fmt=draw(st.sampled_from(["stl", "scad"])),
                pad=[draw(st.sampled_from(["pre", "post"])), draw(st.integers(0, 10**6)), draw(st.sampled_from([1, 1, 1, 2, 4, 16])) * 4096 + draw(st.integers(-2, 2)),
                     draw(st.integers(0, 3))] if draw(st.integers(0, 5)) == 0 else None)


def padded(t, pad):
    """A comment or blanks that bring a place of the text, or its end, to a given offset."""
    where, at, size, kind = pad
    at = at % (len(t) + 1) if where == "pre" else len(t)
    n = size - at % size
    f = [b" " * n, b"\n" * n, b"//" + b"x" * (n - 3) + b"\n", b"/*" + b"*" * (n - 4) + b"*/"][kind if n > 4 else 0]
    return f + t if where == "pre" else t + f


def run_spell(case, ctx):
    t1 = scad.program(case["nodes"]).encode("latin1")
    t2, used = spell.spell(case["nodes"], case["feats"], case["seed"])
    if case.get("pad"):
        t2 = padded(t2, case["pad"])
        used = set(used) | {"pad"}
    o = "o." + case["fmt"]
    res = []
    for t in (t1, t2):
        ctx.write("m.scad", t)
        r = ctx.hob3l(["m.scad", "-q", "--step=0.9", "-o", o], outs=[o])
        d = ctx.hob3l(["m.scad", "-q", "--dump-csg3"]) if "alias" not in used else None
        res.append((r.rc, r.files[o], d and (d.rc, d.out), r.err))
    a, b = res
    if a[:2] != b[:2]:
        raise Violation("spelling changes the result: canonical status %d, %d bytes; respelled (%s) status %d, %d bytes: %s%s\n%s"
                        % (a[0], len(a[1] or b""), ",".join(sorted(used)), b[0], len(b[1] or b""), a[3][:300], b[3][:300], t2.strip()[-1500:]))
    if a[2] != b[2]:
        raise Violation("spelling (%s) changes the CSG3 dump:\n%s" % (",".join(sorted(used)), t2.strip()[-1500:]))
    ctx.nt(used and a[0] == 0 and len(a[1] or b"") > 400)
    ctx.label("rc%d" % a[0], *sorted(used))


# ------------------------------------------------------------------ numbers
@st.composite
def token(draw):
    dig = st.text("0123456789", min_size=0, max_size=draw(st.sampled_from([3, 3, 8, 25])))
    s = draw(st.sampled_from(["", "+", "-"]))
    a = draw(dig)
    k = draw(st.integers(0, 3))
    if k == 0:
        return s + (a or "4")
    b = draw(dig)
    if not a and not b:
        a = "7"
    t = s + a + "." + b
    if k == 1:
        return t
    if k == 3:
        t = s + (a or "5")
    e = draw(st.sampled_from(["", "+", "-"])) + draw(st.sampled_from(["0", "1", "2", "3", "00", "05", "12"]))
    return t + draw(st.sampled_from(["e", "E"])) + e


@st.composite
def numbers(draw):
    return dict(n=[draw(token()) for _ in range(draw(st.integers(1, 12)))],
                glue=draw(st.sampled_from(["", " ", "\n", "/**/", "//\n"])))


def run_number(case, ctx):
    vals = []
    for t in case["n"]:
        if "." in t or "e" in t or "E" in t:
            v = float(t)
        else:
            v = float(max(-2**63, min(2**63 - 1, int(t))))
        vals.append(v)
    ctx.write("a.scad", "".join("translate([1,%s%s%s,0])cube(1);\n" % (case["glue"], t, case["glue"]) for t in case["n"]))
    ctx.write("b.scad", "".join("multmatrix([[1,0,0,1],[0,1,0,%r],[0,0,1,0]])cube(1);\n" % v for v in vals))
    ra, rb = (ctx.hob3l([f, "-q", "--dump-csg3", "-v"]) for f in ("a.scad", "b.scad"))
    if ra.rc != rb.rc or ra.out != rb.out:
        raise Violation("numbers %s are read as something else than %s: status %d/%d\n%s\n%s"
                        % (case["n"], vals, ra.rc, rb.rc, (ra.out + ra.err)[:600], (rb.out + rb.err)[:600]))
    ctx.nt(ra.rc == 0)
    ctx.label("rc%d" % ra.rc)


PARTS = [Part("spell", spellings, run_spell, quick=2500),
         Part("number", numbers, run_number, quick=2000)]
