"""C17: any input is converted or cleanly rejected."""
import os, random, re, resource
import hypothesis.strategies as st
from checks import c15, c16
from hv import gen, scad, spell, svg
from hv.run import Part, Violation, Discard

PROP = "C17"
TECHNIQUE = ("property-based fuzzing (Hypothesis, structure-aware mutation): generated SCAD, STL and SVG documents are damaged at token and byte level, nested deeply, made "
             "degenerate, or converted under random options, and run through a build with address and undefined-behaviour sanitizers and assertions")
NOTE = ("Random search.  Documents are small (up to a few kB, nesting up to 20000 levels); a reported numeric overflow counts as an error message (the debug build ends it with "
        "abort() by design).")
RULE = ("A case is a document (random model over all functors, STL text or binary, SVG drawing, or token soup) with 0-6 mutations (delete, duplicate, swap, move, replace "
        "tokens or bytes, extreme numbers, truncation, splicing), a degenerate or deeply nested construction, or a random set of options.  The sanitized tool must exit with 0 and the "
        "output, or with non-zero and a message, within 60 s.  Non-trivial: mutated or non-default input.")
ASSUMPTIONS = ["documents whose size grows with a number in them (slices, or twist without slices) are not judged for time"]

NUMS = ["0", "-0", "1", "-1", "0.5", "1e-9", "1e-300", "1e9", "1e30", "1e300", "1e999", "-1e999", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
        "9223372036854775808", "99999999999999999999", ".5", "5.", "1e", "0x10", "--1", "1.2.3", "3.0000001", "0.00003", "-7", "100", "101", "nan", "inf", "00012", "65536", "1000000"]
VALS = ["true", "false", "undef", "[]", "[[]]", "[[],[]]", "\"\"", "\"x\"", "[1]", "[1,2]", "[1,2,3]", "[1,2,3,4]", "[[1,2],[3,4]]", "[[0,0],[1,0],[0,1]]", "[0:1]", "[0:1:2]", "abc",
        "[[0,0,0],[1,0,0],[0,1,0],[0,0,1]]", "[[0,1,2],[0,1,2],[0,1,2],[0,1,2]]", "[-1,-1]", "[0,0,0]", "[undef]", "a=1", "$fn=1e9", "$fn=-1", "[[1,0,0,0],[0,1,0,0],[0,0,1,0],[0,0,0,1]]"]
WORDS = ("union difference intersection hull group render translate rotate scale mirror multmatrix color linear_extrude rotate_extrude projection cube sphere cylinder polyhedron "
         "square circle polygon import text surface include use minkowski offset module function for if echo size center points faces triangles paths height twist slices scale angle "
         "convexity r r1 r2 d d1 d2 h v m c a alpha cut file layer id dpi $fn $fa $fs").split()
PUNCT = list("()[]{}<>=;,.:#%!*/\\\"'?+-&|^~@ \n\t\r") + ["//", "/*", "*/", "<a.scad>", "\x00", "\xff", "\xef\xbb\xbf", "\xc3", "<<", "==", "&&", "\x1a", "\x0c"]
XML = ["<svg ", "</svg>", "<g>", "</g>", "<path ", "<rect ", "/>", ">", "<", "<?", "?>", "<!--", "-->", "<!DOCTYPE", "<![CDATA[", "]]>", "&amp;", "&#65;", "&#x110000;", "&#0;", "&x;", "&",
       "xmlns=", "xmlns:a=\"b\"", "a:b=", "=", "\"", "'", "d=\"", "id=", "M", "m", "L", "H", "V", "C", "S", "Q", "T", "A", "Z", "z", "transform=\"", "rotate(", "scale(0)", "matrix(0 0 0 0 0 0)",
       "translate(1", "skewX(90)", ",", ",,", "%", "mm", "em", "points=\"", "viewBox=\"0 0 0 0\"", "viewBox=\"0 0 -1 1\"", "width=\"0\"", "width=\"100%\"", "style=\"display:none\"",
       "preserveAspectRatio=\"none\"", "preserveAspectRatio=\"xMidYMid slice\"", "r=\"-1\"", "rx=\"1e9\"", "<use href=\"#a\"/>", "<text>a</text>", "<defs>", "<style>"]
STLW = ["solid", "facet", "normal", "outer", "loop", "vertex", "endloop", "endfacet", "endsolid", "\n", "\r\n", " ", "0 0 0", "1 0 0", "vertex 0 0 0", "facet normal 0 0 0", "\x00" * 4, "\xff" * 4,
        "\x00\x00\xc0\x7f", "\x00\x00\x80\x7f", "solid x\nendsolid x\n"]
TOK = re.compile(r"[A-Za-z_$]+|-?[0-9][0-9.]*(?:[eE][-+]?[0-9]+)?|\s+|.", re.S)
NUMBER = re.compile(r"-?[0-9][0-9.]*(?:[eE][-+]?[0-9]+)?\Z")


@st.composite
def mutated(draw, doc, words, binary=False):
    """Damages a document."""
    toks = [chr(b) for b in doc] if binary else TOK.findall(doc.decode("latin1"))
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3, 6]))):
        n = len(toks)
        if n == 0:
            break
        op = draw(st.integers(0, 12))
        i = draw(st.integers(0, n - 1))
        k = draw(st.sampled_from([1, 1, 1, 2, 3, 7, 20, 60]))
        if op == 0:
            del toks[i:i + k]
        elif op == 1:
            toks[i:i] = toks[i:i + k]
        elif op == 2:
            j = draw(st.integers(0, n - 1))
            toks[i], toks[j] = toks[j], toks[i]
        elif op == 3:
            j = draw(st.integers(0, n - 1))
            s = toks[i:i + k]
            del toks[i:i + k]
            toks[j:j] = s
        elif op == 4:
            toks[i] = draw(st.sampled_from(words))
        elif op == 5:
            toks.insert(i, draw(st.sampled_from(words)))
        elif op == 6:
            toks[i:i + 1] = draw(st.text(st.characters(max_codepoint=255), min_size=1, max_size=3))
        elif op == 7:
            toks = toks[:i] if draw(st.booleans()) else toks[i:]
        elif op == 8:
            j = draw(st.integers(0, n - 1))
            toks[i:i] = toks[j:j + k]
        else:
            if binary:
                b = draw(st.sampled_from([0, 255, 127, 128, 1]))
                toks[i] = chr(b)
            else:
                at = [x for x in range(n) if NUMBER.match(toks[x])]
                if at:
                    i = at[i % len(at)]
                    if op > 10 and re.fullmatch("-?[0-9]{1,9}", toks[i]):
                        toks[i] = str(int(toks[i]) + draw(st.sampled_from([1, 1, -1])))    # index limits
                    else:
                        toks[i] = draw(st.sampled_from(NUMS + VALS)) if words is SCADW else draw(st.sampled_from(NUMS))
    return "".join(toks)


SCADW = WORDS + PUNCT + NUMS + VALS
SVGW = XML + NUMS
STLT = STLW + NUMS
FMT = ["o.stl", "o.stb", "o.scad", "o.js", "o.ps", "csg3", "scad", "syn"]


def fmt():
    return st.sampled_from(FMT + ["o.stl"] * 6)


@st.composite
def soup(draw):
    """Statements with any arguments, legal or not."""
    def stmt(d):
        f = draw(st.sampled_from(WORDS[:27]))
        a = []
        for _ in range(draw(st.integers(0, 4))):
            v = draw(st.sampled_from(NUMS[:12] + VALS))
            a.append(draw(st.sampled_from(["%s", "%s", draw(st.sampled_from(WORDS)) + "=%s"])) % v)
        s = f + "(" + ", ".join(a) + ")"
        k = draw(st.integers(0, 3)) if d else 3
        if k == 3:
            return s + ";"
        if k == 2:
            return s + " " + stmt(d - 1)
        return s + " {" + "".join(stmt(d - 1) for _ in range(k * 2)) + "}"
    return "\n".join(stmt(3) for _ in range(draw(st.integers(1, 3)))).encode("latin1")


@st.composite
def indexed(draw):
    """Points and lists of indexes into them, in and out of range, often short or repeated."""
    three = draw(st.booleans())
    n = draw(st.integers(0, 7))
    c = st.integers(-2, 3)
    pts = draw(st.lists(st.tuples(c, c, c) if three else st.tuples(c, c), min_size=n, max_size=n, unique=draw(st.booleans())))
    i = st.integers(0, max(0, n - 1))
    if draw(st.integers(0, 2)):
        fs = [draw(st.lists(i, min_size=draw(st.sampled_from([0, 1, 2, 3])), max_size=6, unique=n > 3 and draw(st.integers(0, 3)) > 0)) for _ in range(draw(st.integers(0, 6)))]
    elif three:
        fs = [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]
    else:
        fs = [list(range(n))]
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        f = [f for f in fs if f]
        if f:
            f = f[draw(st.integers(0, len(f) - 1))]
            f[draw(st.integers(0, len(f) - 1))] = draw(st.sampled_from([-1, n, n, n + 1, 0.5, 2**32, -2**31]))
    t = lambda v: str(v) if not isinstance(v, (list, tuple)) else "[" + ",".join(t(x) for x in v) + "]"
    s = "%s(%spoints=%s, %s=%s);" % ("polyhedron" if three else "polygon", draw(st.sampled_from(["", "convexity=3, "])), t(pts),
                                     draw(st.sampled_from(["faces", "faces", "triangles"])) if three else "paths", t(fs))
    if not three:
        s = draw(st.sampled_from(["linear_extrude(height=2) ", "rotate_extrude() "])) + s
    return s.encode()


@st.composite
def scads(draw):
    k = draw(st.integers(-1, 5))
    if k == -1:
        doc = draw(indexed())
        if draw(st.integers(0, 3)):
            return dict(doc=doc.decode(), fmt=draw(fmt()), z=draw(st.integers(-50, 400)) / 100, tol=draw(st.booleans()))
    elif k == 0:
        doc = draw(soup())
    else:
        nodes = draw(gen.full(2, 2))
        doc = scad.program(nodes)
        if k == 1:
            doc = spell.spell(nodes, spell.FEATURES, draw(st.integers(0, 9999)))[0]
        doc = doc if isinstance(doc, bytes) else doc.encode("utf8")
    return dict(doc=draw(mutated(doc, SCADW)), fmt=draw(fmt()), z=draw(st.integers(-50, 400)) / 100, tol=draw(st.booleans()))


@st.composite
def svgs(draw):
    c = draw(c16.cases() if draw(st.integers(0, 2)) else c16.paths())
    doc = svg.text(c["svg"], random.Random(c["seed"]))
    doc = doc if isinstance(doc, bytes) else doc.encode("utf8")
    par = draw(st.sampled_from(["", "", "", ", center=true", ", $fn=5", ", id=\"a\"", ", layer=\"x\"", ", dpi=0", ", dpi=-1", ", dpi=1e9", ", $fn=1000", ", layer=\"\"", ", $fa=0, $fs=0"]))
    return dict(doc=draw(mutated(doc, SVGW)), par=par, fmt=draw(fmt()), tol=draw(st.booleans()), name=draw(st.sampled_from(["x.svg"] * 9 + ["x.stl", "x.dat"])))


@st.composite
def stls(draw):
    c = draw(c15.cases())
    doc = c15.encode(c)
    b = c["enc"] == "bin" and draw(st.integers(0, 3)) != 0
    return dict(doc=draw(mutated(doc, STLW if b else STLT, b)), par=draw(st.sampled_from(["", "", ", layer=\"x\"", ", convexity=3", ", center=true"])), fmt=draw(fmt()), tol=draw(st.booleans()),
                z=draw(st.integers(-10, 200)) / 100 + .001, name=draw(st.sampled_from(["x.stl"] * 9 + ["x.svg", "x.off"])))


TOL = ["--%s=%s" % (o, v) for o, v in (("empty", "ignore"), ("collapse", "warn"), ("outside-2d", "ignore"), ("outside-3d", "warn"), ("unsupported-functor", "warn"), ("unknown-functor", "warn"),
                                       ("unknown-param", "ignore"))]
# asan aborts reports with exit status 99, so that they differ from rejections
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=2500", UBSAN_OPTIONS="exitcode=99:print_stacktrace=0")
SIZES = re.compile("-(max|min|step|max-fn)[= ]")       # any number of layers or vertices
SLOW = re.compile(rb"slices|twist")


def stack():
    """Frames of the sanitized build are several times as large as normal ones."""
    resource.setrlimit(resource.RLIMIT_STACK, (128 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def judge(ctx, args, what, outs=(), slow=False, exe="hob3l:san"):
    r = ctx.hob3l(args, outs=outs, exe=exe, crash_ok=True, env=ENV, pre=stack if exe.endswith("san") else None)
    e = r.err.decode("latin1")
    if r.rc == -1000:
        if slow or SIZES.search(" ".join(args)):
            raise Discard()
        raise Violation("no end within 60 s: %s" % what)
    if r.rc == -6 and "numeric overflow" in e and "Try --grid" in e:
        ctx.label("overflow")
        return r
    if ("Out of memory" in e or "hard rss limit exhausted" in e) and SIZES.search(" ".join(args)):
        raise Discard()
    if r.rc == 1:
        if not e.strip():
            raise Violation("rejected without a message: %s" % what)
        ctx.label("rejected")
    elif r.rc != 0:
        m = re.search(r"hard rss limit exhausted.*|Assertion.*|runtime error.*|SUMMARY.*|Fatal.*", e)
        raise Violation("status %d, %s: %s" % (r.rc, m.group(0)[:300] if m else e[-400:], what))
    else:
        ctx.label("converted")
    return r


def args_for(case, name):
    f = case["fmt"]
    a = ["-q"] + (TOL if case.get("tol") else [])
    if "opts" in case:
        a += case["opts"]
    else:
        a += ["--z=%r" % case.get("z", .5)]
    if f.startswith("o."):
        return a + [name, "-o", f], [f]
    return a + ["--dump-" + f, name], []


def run_scad(case, ctx):
    doc = case["doc"].encode("latin1")
    ctx.write("i.scad", doc)
    a, o = args_for(case, "i.scad")
    ctx.label(case["fmt"])
    judge(ctx, a, "%s\n%s" % (" ".join(a), doc.decode("latin1")[:1500]), o, bool(SLOW.search(doc)))
    ctx.nt()


def run_imp(case, ctx):
    doc = case["doc"].encode("latin1")
    two = case["name"].endswith(".svg") != ("z" in case)
    n = case["name"]
    ctx.write(n, doc)
    s = 'import("%s"%s);\n' % (n, case["par"])
    ctx.write("m.scad", s if "z" in case else "linear_extrude(height=1) " + s)
    a, o = args_for(case, "m.scad")
    judge(ctx, a, "%s\n%s%s" % (" ".join(a), s, doc.decode("latin1")[:1500]), o)
    ctx.nt()


# --- deep, wide and degenerate documents

OPEN = ["union() {", "{", "translate([0,0,0])", "difference() { ", "intersection() {", "scale(1)", "rotate(1)", "color(\"red\")", "#", "hull() {", "render() ", "/*", "(", "[", "cube(", "a(b=["]


@st.composite
def deep(draw):
    k = draw(st.integers(0, 9))
    n = draw(st.sampled_from([3, 20, 64, 65, 100, 101, 127, 128, 129, 200, 400, 400, 990, 1010, 20000]))
    if k < 4:
        ws = draw(st.lists(st.sampled_from(OPEN[:11]), min_size=1, max_size=3))
        s = "".join((ws[i % len(ws)] for i in range(n)))
        d = s + draw(st.sampled_from(["cube(1);", "cube(1)", ";", "", "square(1);", "cube(0);"]))
        if draw(st.integers(0, 4)):
            d += "}" * s.count("{")
        return dict(kind="scad", doc=d, fmt=draw(fmt()), z=.5, tol=draw(st.booleans()))
    if k == 4:
        o = draw(st.sampled_from(OPEN[11:] + ["cube([", "polygon([[0,0],[1,0]],["]))
        return dict(kind="scad", doc=o * n + draw(st.sampled_from(["", "]" * n + ";", ");" * n, "1" + "]" * n + ")" * n + ";", "*/"])), fmt=draw(fmt()), z=.5)
    if k == 5:
        o = draw(st.sampled_from(["<g>", "<g a='1'>", "<svg>", "<a:b xmlns:a='c'>", "<defs>", "<x>", "<!--", "<![CDATA[", "&#", "<g "]))
        c = draw(st.sampled_from(["</g>", "</svg>", "", "</a:b>", "-->"]))
        return dict(kind="svg", doc="<svg xmlns='http://www.w3.org/2000/svg'>" + o * n + "<rect width='1' height='1'/>" + c * n + "</svg>", par="", fmt=draw(fmt()), name="x.svg")
    if k == 6:
        n = min(n, 400)
        d = draw(st.sampled_from(["M0 0" + "l1 1" * n, "M0 0" + "a1 1 0 0 0 1 1" * n, "M" * n, "M0 0" * n, "M0 0L1 0 1 1z" * n, "M0,0" + "z" * n, "M0 0" + "t1 1" * n, "M0 0" + "c1 1 1 1 0 0" * n,
                                  "M0 0" + "L1 0 0 1 0 0" * n + "z", "M0 0" + "h1v1h-1v-1" * n]))
        return dict(kind="svg", doc="<svg xmlns='http://www.w3.org/2000/svg'><path d='%s'/></svg>" % d, par=draw(st.sampled_from(["", ", $fn=3"])), fmt=draw(fmt()), name="x.svg")
    if k == 7:
        n = min(n, 400)
        f = "facet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\n"
        return dict(kind="stl", doc="solid a\n" + f * draw(st.sampled_from([1, 2, 3, n])) + draw(st.sampled_from(["endsolid a\n", "", "endsolid\nsolid a\n"])), par="", fmt=draw(fmt()),
                    tol=draw(st.booleans()), z=draw(st.sampled_from([0, .5])), name="x.stl")
    # many edges through one point, or many equal edges
    m = draw(st.sampled_from([3, 10, 49, 51, 101, 130, 260]))
    q = draw(st.integers(1, 7))
    j = draw(st.integers(0, 3))
    if j == 0:
        d = "linear_extrude(height=1) { %s }" % "".join("rotate(%r) square([20,%r],center=true);" % (i * 180 / m, draw(st.sampled_from([.001, 1, .1])) * q) for i in range(m))
    elif j == 1:
        d = "linear_extrude(height=1) { %s }" % "".join("polygon([[%d,%d],[%d,%d],[%d,%d]]);" % (-i, -100, i, 100 + i % q, i + 1, 100) for i in range(m))
    elif j == 2:
        d = "linear_extrude(height=1) { %s }" % ("square([%r,3]);" % (q / 3) * m)
    else:
        d = "".join("rotate([%r,%r,0]) cube([9,.1,9],center=true);" % (i * 180 / m, i * q) for i in range(m))
    return dict(kind="scad", doc=d, fmt=draw(fmt()), z=draw(st.sampled_from([0, .5])))


def run_deep(case, ctx):
    (run_scad if case["kind"] == "scad" else run_imp)(case, ctx)
    ctx.label(case["kind"])


@st.composite
def abyss(draw):
    """Nesting far beyond any use.  Parts of the document: text and count."""
    n = draw(st.sampled_from([900, 1100, 5000, 20000, 60000, 150000, 400000]))
    k = draw(st.integers(0, 4))
    if k == 4:
        o, c = draw(st.sampled_from([["<g>", "</g>"], ["<svg>", "</svg>"], ["<a:b xmlns:a='c'>", "</a:b>"], ["<x>", "</x>"], ["<defs>", "</defs>"], ["<g transform='scale(1)'>", "</g>"]]))
        doc = [["<svg xmlns='http://www.w3.org/2000/svg'>", 1], [o, n], ["<rect width='1' height='1'/>", draw(st.integers(0, 1))], [c, draw(st.sampled_from([0, n]))], ["</svg>", 1]]
        return dict(kind="svg", doc=doc, fmt=draw(fmt()), name="x.svg", par="")
    ws = draw(st.lists(st.sampled_from(OPEN[:11] + ["mirror([1,0,0])", "linear_extrude(height=1)", "group(){", "%", "!", "*"]), min_size=1, max_size=2)) if k < 3 else [draw(st.sampled_from(["[", "cube(size=[", "("]))]
    w = " ".join(ws)
    e = "}" * w.count("{") + "]" * w.count("[") + ")" * (w.count("(") - w.count(")"))
    pre = "cube(" if w[0] in "[(" else ""
    doc = [[pre, 1], [w, n], [draw(st.sampled_from(["cube(1);", "square(1);", "", ";"])) if k < 3 else "1", 1], [e, draw(st.sampled_from([0, n, n, n]))], [");" if pre else "", 1]]
    return dict(kind="scad", doc=doc, fmt=draw(fmt()), z=.5, tol=draw(st.booleans()))


def run_abyss(case, ctx):
    """The normal build: its stack is what a user has."""
    n = case.get("name", "i.scad")
    ctx.write(n, "".join(t * c for t, c in case["doc"]))
    if "name" in case:
        ctx.write("m.scad", "linear_extrude(height=1) import(\"%s\");\n" % n)
    a, o = args_for(case, "m.scad" if "name" in case else n)
    r = judge(ctx, a, "%s\n%s" % (" ".join(a), case["doc"]), o, exe="hob3l")
    ctx.nt(max(c for _, c in case["doc"]) > 1000)
    ctx.label(case["kind"])


# --- options

NUMOPT = ["layer-gap", "min", "max", "step", "z", "max-fn", "max-simultaneous", "grid", "gran", "js-color-rand", "ps-scale-step", "ps-rot-x", "ps-rot-y", "ps-rot-z", "ps-persp",
          "ps-line-width", "ps-scale-max", "eps", "eps2"]


def option_names():
    import glob
    from hv import build
    ns = set()
    for f in glob.glob(os.path.join(build.REPO, "src/hob3l/*.switch")):
        ns |= set(re.findall(r'^case "([^"]+)"', open(f).read(), re.M))
    return sorted(ns - {"o"})


@st.composite
def options(draw):
    nodes = draw(gen.full(1, 2))
    doc = scad.program(nodes)
    a = []
    if draw(st.integers(0, 3)) == 0:                                   # values that are too small for what they are used for
        a.append("--%s=%s" % draw(st.tuples(st.sampled_from(["max-fn", "eps", "eps2", "grid", "gran", "max-simultaneous", "step", "layer-gap"]), st.sampled_from(["0", "1", "2", "-1", "1e-300", "-1e-9", "0.0"]))))
        r = draw(st.sampled_from(["sphere(3);", "cylinder(h=2,r=2);", "linear_extrude(height=1) circle(3);", "rotate_extrude() translate([3,0]) circle(1);", "sphere(3,$fn=9);"]))
        doc += r if isinstance(doc, str) else r.encode()
    elif draw(st.integers(0, 9)) == 0:
        a.append(draw(st.sampled_from(["--no-csg", "--no-tri", "--no-diff"])))
    for _ in range(draw(st.sampled_from([0, 1, 2, 4]) if a else st.integers(1, 4))):
        o = draw(st.sampled_from(option_names() + NUMOPT))
        v = draw(st.sampled_from(NUMS + ["1/3", "2^13", "2^-20", "1/0", "2^", "error", "warn", "ignore", "", "x", "yes", "no", "1e-3", "16", "0.3", "3", "2^-48", "4e-15", "1e-13", "100", "1e-300"]))
        a += ["%s%s" % (draw(st.sampled_from(["--", "--", "-", "---"])), o)]
        k = draw(st.integers(0, 5))
        if k < 4:
            a[-1] += "=" + (v if o not in ("min", "max", "step", "z") or len(v) < 5 else "7")
        elif k == 4:
            a.append(v if len(v) < 5 else "7")
    return dict(doc=doc if isinstance(doc, str) else doc.decode("latin1"), opts=a, fmt=draw(fmt()))


PARTS = [
    Part("scad", scads(), run_scad, quick=3000, need=("hob3l:san",)),
    Part("svg", svgs(), run_imp, quick=1600, need=("hob3l:san",)),
    Part("stl", stls(), run_imp, quick=1200, need=("hob3l:san",)),
    Part("deep", deep(), run_deep, quick=500, need=("hob3l:san",)),
    Part("abyss", abyss(), run_abyss, quick=160, need=("hob3l",)),
    Part("options", options(), run_scad, quick=1000, need=("hob3l:san",)),
]
