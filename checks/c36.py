"""C36: the command line."""
import re
import hypothesis.strategies as st
from hv import gen, scad
from hv.run import Part, Violation

PROP = "C36"
TECHNIQUE = ("property-based testing (Hypothesis): a random list of options is written in two ways that the documentation says mean the same; status, output and messages "
             "must be equal (metamorphic).  Malformed options are put at random places of valid command lines and must be rejected")
NOTE = "Random search over options, their spellings, their order and models."
RULE = ("Part 'same': 1-7 random settings on a random model and output format, once in a plain canonical form and once respelled: 1-3 dashes, '=' or a separate word, other "
        "ways to write the number (fraction, power, hexadecimal, exponent), boolean or policy, the un-negated name, the documented synonym (--z, --gran, --ps-no-wire, file "
        "name suffix), an earlier value of the same option that is overridden, any order, the input file anywhere.  Part 'default': giving a documented default explicitly "
        "changes nothing.  Part 'reject': a malformed or unknown option, or a wrong number of input files, at a random place must end the run with status 1, one message, no "
        "output and no output file.  Part 'help': every option in the help text is recognised.  Non-trivial: the run succeeds and the two command lines differ; or rejection.")

# name -> (values, kind); the canonical form is --name=value
POL = {"error": ["error", "err", "fail"], "warn": ["warn", "warning"], "ignore": ["ignore", "ign"]}
POLICY = ["empty", "collapse", "outside-3d", "outside-2d", "unsupported-functor", "unknown-functor", "unknown-param"]
# each switch and its opposite
BOOL = {"no-csg": "csg", "no-tri": "tri", "no-diff": "diff", "no-path": "path", "opt-no-skip-empty": "opt-skip-empty", "opt-no-drop-collinear": "opt-drop-collinear",
        "js-no-keep-ctxt": "js-keep-ctxt", "ps-no-single-page": "ps-single-page", "ps-no-tri": "ps-tri", "ps-no-path": "ps-path", "ps-no-mark": "ps-mark"}
RGB = ["ps-color-path", "ps-color-tri", "ps-color-fill", "ps-color-vertex", "ps-color-mark"]
FLAG = ["no-auto-grid", "auto-grid", "auto-grid-max", "q", "quiet", "v", "verbose", "stl-bin", "stl-txt", "ps-scale-fit", "ps-scale-max", "ps-no-wire",
        "dump-syn", "dump-scad", "dump-csg3", "dump-csg2", "dump-ps", "dump-stl", "dump-stlb", "dump-js"]
DIM = ["layer-gap", "min", "max", "step", "z", "grid", "gran", "eps", "eps2", "ps-rot-x", "ps-rot-y", "ps-rot-z", "ps-scale", "ps-persp", "ps-line-width"]
UINT = ["max-fn", "max-simultaneous", "js-color-rand"]
OTHER = ["o", "js-group", "h", "?", "help"]
ARG = DIM + UINT + RGB + POLICY + ["js-group", "o"]


def num(draw, v):
    """Another way to write the number v."""
    r = ["%.17g" % v, repr(v), v.hex(), "%.20e" % v]
    if v >= 0:
        r += ["+%.17g" % v, "%025.17f" % v if v == float("%.17f" % v) else repr(v)]
    for d in (1, 2, 3, 4, 5, 7, 8, 10, 100, 1000, 4096, .25, .5):
        n = float("%.15g" % (v * d))
        if n / d == v:
            r += ["%.17g/%.17g" % (n, d), "%s/%s" % (n.hex(), d)] + (["%d/%d" % (n, d)] if n == int(n) and d == int(d) else [])
    for e in range(-20, 25):
        if v == 2. ** e:
            r += ["2^%d" % e, "2.0^%d" % e, "0x2^%d" % e, "4^%g" % (e / 2) if e % 2 == 0 else "2^%d" % e, "%r^-1" % (1 / v), ".5^%d" % -e] * 3
    if v == int(v) and abs(v) < 1e6:
        r += ["%d" % v, "%d." % v, "%d^1" % v, "%d/1" % v, "%de-1" % (v * 10)]
    return draw(st.sampled_from(r))


def uint(draw, v):
    return draw(st.sampled_from(["%d" % v, "0%d" % v, "000%d" % v, "+%d" % v]))


def rgb(draw, v):
    return draw(st.sampled_from(["%06x" % v, "%06X" % v, "%x" % v, "0x%06x" % v, "0X%X" % v, "00%06x" % v]))


def dim(lo, hi):
    return st.one_of(st.integers(int(lo * 8), int(hi * 8)).map(lambda i: i / 8), st.integers(int(lo * 1000), int(hi * 1000)).map(lambda i: i / 1000),
                     st.sampled_from([2. ** i for i in range(-10, 7) if lo <= 2. ** i <= hi] or [float(hi)]))


@st.composite
def settings(draw, fmt):
    """A list of [name, value]; at most one for each name, in canonical order."""
    s = {}
    pick = ["z"] * 3 + ["step"] * 2 + ["max-fn", "max-simultaneous", "layer-gap", "grid", "autogrid", "bool", "bool", "policy", "policy", "stlpref", "eps", "eps2", "verb"]
    if fmt in ("js", "dump-js"):
        pick += ["js-color-rand", "js-group", "js-no-keep-ctxt"] * 2
    if fmt in ("ps", "dump-ps"):
        pick += ["ps-scale-x", "rgb", "rgb", "ps-bool", "ps-bool", "ps-line-width", "ps-rot", "ps-rot", "ps-scale", "ps-persp"] * 2
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(pick))
        if k == "z":
            m = draw(st.integers(0, 3))
            a = draw(dim(-1, 4))
            if m == 0:
                s["z"] = a
                s.pop("min", 0), s.pop("max", 0)
            else:
                s.pop("z", 0)
                if m != 2:
                    s["min"] = a
                if m != 1:
                    s["max"] = a + draw(dim(0, 3))
        elif k == "step":
            s["step"] = draw(dim(.2, 2))
        elif k == "max-fn":
            s[k] = draw(st.integers(3, 30))
        elif k == "max-simultaneous":
            s[k] = draw(st.integers(2, 12))
        elif k == "layer-gap":
            s[k] = draw(dim(0, .5))
        elif k == "grid":
            s[k] = draw(st.one_of(st.integers(3, 20).map(lambda i: 2. ** i), st.integers(8, 20000).map(float), st.just(0.)))
        elif k == "autogrid":
            s["auto"] = draw(st.sampled_from(["no-auto-grid", "auto-grid", "auto-grid-max"]))
        elif k == "bool":
            s[draw(st.sampled_from(["no-csg", "no-tri", "no-diff", "no-path", "opt-no-skip-empty", "opt-no-drop-collinear"]))] = draw(st.sampled_from([True, True, False]))
        elif k == "policy":
            s[draw(st.sampled_from(POLICY))] = draw(st.sampled_from(["ignore", "warn", "ignore", "warn", "error"]))
        elif k == "stlpref":
            s["stl"] = draw(st.sampled_from(["stl-bin", "stl-txt"]))
        elif k == "eps":
            s[k] = draw(st.integers(-20, -8).map(lambda i: 2. ** i))
        elif k == "eps2":
            s[k] = draw(st.integers(-40, -20).map(lambda i: 2. ** i))
        elif k == "verb":
            s["verb"] = draw(st.sampled_from([["q"], ["v"], ["v", "v"], ["q", "v"], ["v", "q"]]))
        elif k == "js-color-rand":
            s[k] = draw(st.integers(0, 255))
        elif k == "js-group":
            s[k] = draw(st.lists(st.text("ab=-_ ,;\\\"'x", min_size=1, max_size=5), min_size=1, max_size=3))
        elif k == "js-no-keep-ctxt":
            s[k] = draw(st.booleans())
        elif k == "ps-scale-x":
            s["psfit"] = draw(st.sampled_from(["ps-scale-fit", "ps-scale-max"]))
        elif k == "rgb":
            s[draw(st.sampled_from(RGB))] = draw(st.one_of(st.integers(0, 0xffffff), st.sampled_from([0, 0xff, 0xff00, 0xff0000, 0xffffff, 0x10203])))
        elif k == "ps-bool":
            s[draw(st.sampled_from(["ps-no-single-page", "ps-no-tri", "ps-no-path", "ps-no-mark"]))] = draw(st.sampled_from([True, True, False]))
        elif k == "ps-line-width":
            s[k] = draw(dim(.125, 3))
        elif k in ("ps-rot", "ps-scale"):
            x = [draw(st.sampled_from(["ps-rot-x", "ps-rot-y", "ps-rot-z"])), float(draw(st.sampled_from([30, 45, 90, -90, 10.5, 180, 3.125])))] if k == "ps-rot" else [k, draw(dim(.25, 3))]
            s.setdefault("xform", []).append(x)
        elif k == "ps-persp":
            s[k] = draw(dim(-1, 1))
    if fmt not in ("scad", "csg", "dump-csg2", "ps", "dump-ps"):       # documented not to work with the others
        s.pop("no-tri", 0)
    if fmt not in ("ps", "dump-ps"):                                   # C17-no-csg
        s.pop("no-csg", 0)
    if not s:
        s["z"] = .5
    if "auto" in s and s["auto"] == "no-auto-grid" and s.get("grid") == 0.:
        s["grid"] = 64.
    return s


SFX = {"stl": "dump-stl", "stlb": "dump-stlb", "stb": "dump-stlb", "scad": "dump-csg2", "csg": "dump-csg2", "ps": "dump-ps", "js": "dump-js"}
DUMPS = sorted(set(SFX.values()) | {"dump-scad", "dump-csg3"})
OFFENCE = ["", "", "cube(0);\n", "square(1);\n", "foo(1);\n", "cube(1, x=3);\n", "scale(0) cube(1);\n", "linear_extrude(height=1) cube(1);\n", "surface(\"a\");\n"]


@st.composite
def same(draw):
    nodes = [draw(gen.csg3(draw(st.integers(0, 2)), st.one_of(gen.prim3(), gen.prim3(), gen.sphere()))) for _ in range(draw(st.sampled_from([1, 2, 3])))]
    text = scad.program(nodes)
    text = draw(st.sampled_from(OFFENCE)) + draw(st.sampled_from(["", "", "", "!"])) + text
    fmt = draw(st.sampled_from(["stl", "stl", "stlb", "stb", "scad", "csg", "ps", "ps", "js", "js"] + DUMPS))
    s = draw(settings(fmt))
    if not ("z" in s or "max" in s):
        s["max"] = s.get("min", 0.) + 1.5
    if "layer-gap" in s:
        s["layer-gap"] = min(s["layer-gap"], s.get("step", .2) / 2)

    # canonical
    a = []
    for k in sorted(s):
        v = s[k]
        if k == "verb":
            a += ["--" + x for x in v]
        elif k in ("auto", "stl", "psfit"):
            a.append("--" + v)
        elif k == "js-group":
            a += ["--js-group=" + x for x in v]
        elif k == "xform":
            a += ["--%s=%.17g" % tuple(x) for x in v]
        elif k in BOOL:
            a.append("--" + (k if v else BOOL[k]))
        elif k in UINT:
            a.append("--%s=%d" % (k, v))
        elif k in RGB:
            a.append("--%s=%06x" % (k, v))
        elif k in POLICY:
            a.append("--%s=%s" % (k, v))
        else:
            a.append("--%s=%.17g" % (k, v))
    a += ["--" + (SFX.get(fmt, fmt))]
    if fmt == "stl" and s.get("stl") == "stl-bin":
        a[-1] = "--dump-stlb"
    a += ["-o", "out.dat", "m.scad"]

    # respelled: groups of words; the order within a group stays
    def dash(name):
        return draw(st.sampled_from(["-", "--", "--", "---"])) + name

    def arg(name, val):
        return [dash(name) + "=" + val] if draw(st.booleans()) else [dash(name), val]

    def boolean(k, v):
        if draw(st.booleans()):
            k, v = BOOL[k], not v
        w = draw(st.sampled_from(["true", "1", "yes", None, None] if v else ["false", "0", "no"]))
        return [dash(k)] if w is None else [dash(k) + "=" + w]

    def one(k, v):
        if k in BOOL:
            return boolean(k, v)
        if k in UINT:
            return arg(k, uint(draw, v))
        if k in RGB:
            return arg(k, rgb(draw, v))
        if k in POLICY:
            return arg(k, draw(st.sampled_from(POL[v])))
        return arg(k, num(draw, v))

    def other(k, v):
        """A valid value that is overridden."""
        if k in BOOL:
            return draw(st.booleans())
        if k in POLICY:
            return draw(st.sampled_from(sorted(POL)))
        return {"max-fn": 3, "max-simultaneous": 2, "js-color-rand": 255, "grid": 1., "gran": .5}.get(k, 0x123456 if k in RGB else 1.25)

    g = []
    used = set()
    for k in sorted(s):
        v = s[k]
        if k in used:
            continue
        if k == "verb":
            g.append([dash(draw(st.sampled_from({"q": ["q", "quiet"], "v": ["v", "verbose"]}[x]))) for x in v])
        elif k in ("auto", "stl", "psfit"):
            alt = {"auto": ["no-auto-grid", "auto-grid", "auto-grid-max"], "stl": ["stl-bin", "stl-txt"], "psfit": ["ps-scale-fit", "ps-scale-max"]}[k]
            g.append([dash(draw(st.sampled_from(alt)))] * draw(st.integers(0, 1)) + [dash(v)])
        elif k == "js-group":
            g.append(arg(k, " ".join(v)) if draw(st.booleans()) else [w for x in v for w in arg(k, x)])
        elif k == "xform":
            g.append([w for x in v for w in arg(x[0], num(draw, x[1]))])
        elif k == "z" and draw(st.booleans()):
            g += [one("min", v), one("max", v)]
        elif k == "min" and s.get("max") == v and draw(st.booleans()):
            g.append(one("z", v))
            used.add("max")
        elif k == "min" and "max" in s and draw(st.integers(0, 3)) == 0:
            g.append(one("z", v) + one("max", s["max"]))
            used.add("max")
        elif k == "grid" and v > 0 and 1 / (1 / v) == v and draw(st.booleans()):
            g.append(one("gran", 1 / v))
        else:
            if k in ("z", "min", "max") or draw(st.integers(0, 4)):
                g.append(one(k, v))
            else:
                g.append(one(k, other(k, v)) + one(k, v))
    nw = ["ps-no-tri", "ps-no-path", "ps-no-mark"]
    if all(s.get(k) for k in nw) and draw(st.booleans()):
        g = [x for x in g if not any(re.match(r"-+%s(=|$)" % y, w) for w in x for k in nw for y in (k, BOOL[k]))] + [[dash("ps-no-wire")]]
    name = "out.dat"
    if fmt in SFX and draw(st.integers(0, 3)):
        name = draw(st.sampled_from(["o.%s", "o.x.%s", ".%s", "a b.%s", "o.stl.%s", "a=b.%s", "-.%s", "=.%s"])) % fmt
        if fmt == "stl" and s.get("stl") != "stl-bin" or draw(st.integers(0, 3)) == 0:
            g.append([dash(SFX[fmt] if not (fmt == "stl" and s.get("stl") == "stl-bin") else "dump-stlb")])
    else:
        d = a[a.index("-o") - 1][2:]
        g.append([dash(draw(st.sampled_from(DUMPS)))] * draw(st.integers(0, 1)) + [dash(d)])
        if draw(st.integers(0, 3)) == 0:
            name = "o." + draw(st.sampled_from(sorted(SFX)))         # the option is stronger than the suffix
    if draw(st.integers(0, 4)):
        g.append(arg("o", name))
    else:
        g.append([dash(a[a.index("-o") - 1][2:])])
        g = [x for x in g if not re.match(r"-+dump-", x[-1])] + [g[-1]]
        name = None
    g.append(["m.scad"])
    g = draw(st.permutations(g))
    return dict(text=text, a=a, b=[w for x in g for w in x], name=name)


def run_same(case, ctx):
    ctx.write("m.scad", case["text"])
    ra = ctx.hob3l(case["a"], ["out.dat"])
    da = ra.files.get("out.dat") or b""
    rb = ctx.hob3l(case["b"], [case["name"]] if case["name"] else [])
    db = (rb.files.get(case["name"]) or b"") if case["name"] else rb.out
    if ra.rc != rb.rc:
        raise Violation("status %d and %d: %r and %r" % (ra.rc, rb.rc, ra.err[-200:], rb.err[-200:]))
    if da != db:
        i = next((i for i in range(min(len(da), len(db))) if da[i] != db[i]), min(len(da), len(db)))
        raise Violation("the outputs (%d and %d bytes) differ at byte %d: %r and %r" % (len(da), len(db), i, da[max(0, i - 40):i + 40], db[max(0, i - 40):i + 40]))
    if ra.err != rb.err:
        raise Violation("the messages differ: %r and %r" % (ra.err[-300:], rb.err[-300:]))
    ctx.nt(ra.rc == 0 and len(da) > 0)
    ctx.label("rc-%d" % ra.rc, "stdout" if not case["name"] else case["name"].split(".")[-1])


# ---------------------------------------------------------------- defaults
DEFAULT = ["--step=0.2", "--max-fn=100", "--max-simultaneous=10", "--grid=8192", "--grid=2^13", "--gran=0x1p-13", "--gran=1/8192", "--gran=2^-13", "--auto-grid", "--eps=0x1p-15", "--eps2=0x1p-30",
           "--empty=error", "--collapse=error", "--outside-3d=error", "--outside-2d=error", "--unsupported-functor=warn", "--unknown-functor=error", "--unknown-param=warn",
           "--csg", "--tri", "--diff", "--no-path", "--js-color-rand=0", "--opt-skip-empty", "--opt-drop-collinear", "--layer-gap=-1", "--stl-txt", "--no-csg=false", "--no-tri=no",
           "--opt-no-skip-empty=0", "--opt-no-drop-collinear=false", "--no-diff=0"]


@st.composite
def defaults(draw):
    nodes = [draw(gen.csg3(draw(st.integers(0, 2)), st.one_of(gen.prim3(), gen.prim3(), gen.sphere()))) for _ in range(draw(st.sampled_from([1, 2, 3])))]
    if draw(st.integers(0, 2)):                                        # what only --max-fn says how to draw
        nodes.append(["translate", {"v": [draw(st.integers(-2, 2)) * 5, 20, 0]}, [draw(st.sampled_from([["sphere", {"r": 2}], ["cylinder", {"r": 2, "h": 3}], ["cylinder", {"r": 2, "h": 3, "$fn": 70}],
                                                                                                 ["sphere", {"r": 2, "$fn": 120}], ["cylinder", {"r": 2, "h": 1, "$fn": 100}]]))]])
    text = draw(st.sampled_from(OFFENCE)) + scad.program(nodes)
    fmt = draw(st.sampled_from(["stl", "stlb", "scad", "ps", "js", "csg3"]))
    d = draw(st.lists(st.sampled_from(DEFAULT + ["gap"]), min_size=1, max_size=6, unique=True))
    d = ["--layer-gap=" + ("0" if fmt in ("scad", "js") else "-1" if fmt == "ps" else "0.01") if x == "gap" else x for x in d]
    if fmt in ("stl", "stlb", "scad"):
        d = [x for x in d if x != "--no-path"] or ["--csg"]
    if fmt == "ps":
        d = [x for x in d if "path" not in x] or ["--csg"]
    return dict(text=text, fmt=fmt, d=d, help=draw(st.one_of(st.none(), st.integers(0, 10 ** 6))), z=draw(st.sampled_from([None, "--max=1.5", "--z=.7", "--min=0.3"])))


def run_default(case, ctx):
    ctx.write("m.scad", case["text"])
    if case["help"] is not None:                                       # a default named by the help text
        h = ctx.hob3l(["--help"], []).out.decode()
        ds = ["--%s=%s" % (m[0], m[2]) for m in re.findall(r"^    --(\S+)=ARG\n((?:        .*\n|\n)*?)        .*\([Dd]efault: ([-+^.\w]+)[),]", h, re.M)]
        if len(ds) < 14:
            raise Violation("the help text names defaults for %s only" % ds)
        case = dict(case, d=case["d"] + [ds[case["help"] % len(ds)]])
    base = ["m.scad", "--dump-csg3" if case["fmt"] == "csg3" else "--dump-" + {"scad": "csg2"}.get(case["fmt"], case["fmt"])] + ([case["z"]] if case["z"] else [])
    ra = ctx.hob3l(base + ["-o", "a.dat"], ["a.dat"])
    rb = ctx.hob3l(base + case["d"] + ["-o", "b.dat"], ["b.dat"])
    if (ra.rc, ra.err, ra.files.get("a.dat") or b"") != (rb.rc, rb.err, rb.files.get("b.dat") or b""):
        raise Violation("giving defaults (%s) changes the result: status %d, %d bytes, %r and status %d, %d bytes, %r" % (
            " ".join(case["d"]), ra.rc, len(ra.files.get("a.dat") or b""), ra.err[-200:], rb.rc, len(rb.files.get("b.dat") or b""), rb.err[-200:]))
    ctx.nt(ra.rc == 0)
    ctx.label(case["fmt"])


# ---------------------------------------------------------------- rejection
KNOWN = set(DIM + UINT + RGB + POLICY + OTHER + FLAG + list(BOOL) + list(BOOL.values()) + ["debug-ps", "debug-ps-page-skip", "debug-ps-page-count", "debug-ps-scale-x", "debug-ps-scale-y",
            "debug-ps-scale", "debug-ps-xlat-x", "debug-ps-xlat-y", "debug-ps-no-dots", "debug-ps-dots"])
BADNUM = ["", "x", "1x", "1 ", "1/", "/2", "1/2/3", "1//2", "1^", "^2", "2^3^4", "--", "1,5", "1/0", "nan", "inf", "-inf", "1e999", "0^-1", "1/x", "2^x", "10^999", "1.2.3", "2*3", "0x", "0xg",
          "'1'", "1e", "-1^.5", "1/2^3", "2^3/4"]
BADUINT = ["", "x", "-1", "1.5", "0x10", "1e2", "5 ", "5,", "--5", "- 5", "-0", "99999999999999999999x", "18446744073709551615x", "1/1", "2^3"]
BADRGB = ["", "red", "#ff0000", "-1", "1000000", "fffffff", "ff,0,0", "0xg", "ff ", "ff00-0", "12345678901234567890"]
BADBOOL = ["", "True", "on", "off", "2", "-1", "01", "truefalse", "y", "n", "ja", "tru", "NO", "yes "]
BADPOL = ["", "Error", "errors", "none", "warnings", "war", "ignored", "0", "1", "igno", "error "]


def near(draw):
    """An unknown option similar to a known one."""
    k = draw(st.sampled_from(sorted(KNOWN)))
    m = draw(st.integers(0, 7))
    i = draw(st.integers(0, len(k) - 1))
    n = [k[:-1], k + draw(st.sampled_from("asx-0")), k[:i] + draw(st.sampled_from("xqz-_")) + k[i + 1:], k[:i] + k[i + 1:], "no-" + k, k.upper(), k.replace("-", "_"), k.replace("-", "")][m]
    while n in KNOWN or n.lstrip("-") in KNOWN or n.split("=")[0] in KNOWN:
        n += "z"
    return n


@st.composite
def rejects(draw):
    kind = draw(st.sampled_from(["unknown", "unknown", "unknown", "dim", "dim", "uint", "rgb", "bool", "policy", "flag", "step", "value", "missing", "two", "none"]))
    w, files = [], ["m.scad"]
    dash = draw(st.sampled_from(["-", "--", "--"]))
    last = False

    def arg(n, v):
        return [dash + n + "=" + v] if draw(st.booleans()) else [dash + n, v]
    if kind == "unknown":
        n = near(draw)
        w = [dash + n + draw(st.sampled_from(["", "", "=1", "=", "=true"]))]
        if draw(st.integers(0, 9)) == 0:
            w = [draw(st.sampled_from(["-", "--", "---", "-=", "--=x", "-o.stl", "-z1", "-ofoo", "- o", "-\t"]))]
    elif kind == "dim":
        w = arg(draw(st.sampled_from(DIM)), draw(st.sampled_from(BADNUM)))
    elif kind == "uint":
        w = arg(draw(st.sampled_from(UINT)), draw(st.sampled_from(BADUINT)))
    elif kind == "rgb":
        w = arg(draw(st.sampled_from(RGB)), draw(st.sampled_from(BADRGB)))
    elif kind == "bool":
        w = [dash + draw(st.sampled_from(sorted(BOOL) + sorted(BOOL.values()))) + "=" + draw(st.sampled_from(BADBOOL))]
    elif kind == "policy":
        w = arg(draw(st.sampled_from(POLICY)), draw(st.sampled_from(BADPOL)))
    elif kind == "flag":
        w = [dash + draw(st.sampled_from(FLAG + ["h", "help", "?"])) + "=" + draw(st.sampled_from(["", "1", "true", "false", "x", "0"]))]
    elif kind == "step":
        w = arg("step", draw(st.sampled_from(["0", "-1", "-0.2", "-0", "0/3", "-1e-9"])))
    elif kind == "value":
        n, v = draw(st.sampled_from([("max-fn", "2"), ("max-fn", "0"), ("max-fn", "4294967296"), ("max-fn", "4294967300"), ("max-fn", "99999999999"), ("max-simultaneous", "1"), ("max-simultaneous", "0"),
                                     ("js-color-rand", "256"), ("js-color-rand", "1000"), ("js-color-rand", "4294967296"), ("grid", "-1"), ("grid", "-8192"), ("gran", "-1/8192"), ("gran", "-2")]))
        w = arg(n, v)
        last = True
    elif kind == "missing":
        n = draw(st.sampled_from(ARG))
        w, last = [dash + n], True
    elif kind == "two":
        files = ["m.scad", draw(st.sampled_from(["m.scad", "n.scad", "absent.scad"]))]
    else:
        files = []
    good = [[draw(st.sampled_from(["--z=.5", "--q", "--dump-stl", "--step=.5", "--no-csg", "--empty=warn", "--v", "--max-fn=7", "--eps=1/9999"]))] for _ in range(draw(st.integers(0, 3)))]
    out = draw(st.booleans())
    if out:
        good.append(["-o", "o.stl"])
    good = draw(st.permutations(good + [[f] for f in files]))
    if kind == "value":
        good = [g for g in good if not re.match("--(grid|gran|max-)", g[0])]
    i = len(good) if last and kind == "missing" else draw(st.integers(0, len(good)))
    return dict(args=[x for g in good[:i] + [w] + good[i:] for x in g], kind=kind, stdin=draw(st.booleans()))


def run_reject(case, ctx):
    ctx.write("m.scad", "cube(1);\n")
    ctx.write("n.scad", "cube(2);\n")
    r = ctx.hob3l(case["args"], ["o.stl"])
    if r.rc != 1:
        raise Violation("%s accepted or not rejected properly: status %d, %r" % (case["kind"], r.rc, r.err[-200:]))
    if not re.search(rb"(?i)error", r.err):
        raise Violation("no message: %r" % r.err[-200:])
    if r.out or r.files.get("o.stl") is not None:
        raise Violation("output in spite of the rejection: %r, o.stl %r" % (r.out[:80], (r.files.get("o.stl") or b"")[:80]))
    ctx.nt(True)
    ctx.label(case["kind"])


# ---------------------------------------------------------------- help
@st.composite
def helps(draw):
    good = [[draw(st.sampled_from(["--z=.5", "--q", "--dump-stl", "m.scad", "absent.scad", "--no-csg"]))] for _ in range(draw(st.integers(0, 2)))]
    good = [g for i, g in enumerate(good) if not (g[0].endswith("scad") and any(x[0].endswith("scad") for x in good[:i]))]
    return dict(pre=[x for g in good for x in g], opt=draw(st.sampled_from(["-h", "-?", "--h", "--?", "-help", "--help", "---help"])), i=draw(st.integers(0, 10 ** 6)),
                dash=draw(st.sampled_from(["-", "--", "---"])), sep=draw(st.booleans()))


def run_help(case, ctx):
    ctx.write("m.scad", "cube(1);\n")
    r = ctx.hob3l(case["pre"] + [case["opt"]], [])
    opts = re.findall(rb"^\s+--(\S+?)(=ARG)?$", r.out, re.M)
    if r.rc != 0 or len(opts) < 20 or b"Usage" not in r.out:
        raise Violation("no help: status %d, %r" % (r.rc, r.out[:200]))
    have = {o[0].decode() for o in opts}
    lost = [k for k in ARG + FLAG + OTHER + sorted(BOOL) + sorted(BOOL.values()) if k not in have]
    if lost:
        raise Violation("the help text does not list %s" % lost)
    name, arg = opts[case["i"] % len(opts)]
    name, arg = name.decode(), bool(arg)
    if arg != (name in ARG or name.startswith("debug-ps") and not name.endswith("dots")):
        raise Violation("the help text gives --%s %s argument" % (name, "an" if arg else "no"))
    v = "2"
    if name in RGB:
        v = "ff00aa"
    if name in POLICY:
        v = "warn"
    if name in ("max-fn", "eps", "eps2"):
        v = "9" if name == "max-fn" else "2^-20"
    if name.startswith("debug-"):
        ctx.nt(True)
        return
    if name in ("o", "js-group"):
        v = "x.stl"
    w = [case["dash"] + name] if not arg else [case["dash"] + name, v] if case["sep"] else [case["dash"] + name + "=" + v]
    r = ctx.hob3l(["--step=.5"] + w + ["m.scad"], ["x.stl"])
    if r.rc != 0:
        raise Violation("--%s is in the help text, but %r fails with status %d: %r" % (name, w, r.rc, r.err[-200:]))
    ctx.nt(True)
    ctx.label("arg" if arg else "no-arg")


PARTS = [
    Part("same", same(), run_same, quick=5000, thorough=150000),
    Part("default", defaults(), run_default, quick=1200, thorough=30000),
    Part("reject", rejects(), run_reject, quick=3000, thorough=60000),
    Part("help", helps(), run_help, quick=600, thorough=6000),
]
