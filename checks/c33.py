"""C33: colours."""
import random
import re
import hypothesis.strategies as st
from hv import gen, scad
from hv.run import Part, Violation, Discard

PROP = "C33"
TECHNIQUE = ("property-based testing (Hypothesis): random colour specifications in all documented forms, the resolved colours of the SCAD dump against a table "
             "of the CSS3 names and the documented rules; invalid ones must be rejected; metamorphic: colour does not change the geometry")
NOTE = "Random search over specifications; every CSS3 name is tried in each run."
RULE = ("Part 'valid': up to 12 nested or neighbouring color() of random kinds (names in random case, #rgb, #rrggbb, arrays of 3 or 4, undef, alpha by name or "
        "position).  Part 'names': every CSS3 name in a random case.  Part 'reject': one specification damaged.  Part 'geometry': random models with color() against "
        "the same with group().  Non-trivial: a colour other than black and white, or 'reject' and 'geometry'.")
ASSUMPTIONS = ["components are rounded to 1/255, either way at ties"]

CSS3 = {"aliceblue": 0xf0f8ff, "antiquewhite": 0xfaebd7, "aqua": 0x00ffff, "aquamarine": 0x7fffd4, "azure": 0xf0ffff, "beige": 0xf5f5dc, "bisque":
        0xffe4c4, "black": 0x000000, "blanchedalmond": 0xffebcd, "blue": 0x0000ff, "blueviolet": 0x8a2be2, "brown": 0xa52a2a, "burlywood": 0xdeb887,
        "cadetblue": 0x5f9ea0, "chartreuse": 0x7fff00, "chocolate": 0xd2691e, "coral": 0xff7f50, "cornflowerblue": 0x6495ed, "cornsilk": 0xfff8dc,
        "crimson": 0xdc143c, "cyan": 0x00ffff, "darkblue": 0x00008b, "darkcyan": 0x008b8b, "darkgoldenrod": 0xb8860b, "darkgray": 0xa9a9a9,
        "darkgreen": 0x006400, "darkgrey": 0xa9a9a9, "darkkhaki": 0xbdb76b, "darkmagenta": 0x8b008b, "darkolivegreen": 0x556b2f, "darkorange":
        0xff8c00, "darkorchid": 0x9932cc, "darkred": 0x8b0000, "darksalmon": 0xe9967a, "darkseagreen": 0x8fbc8f, "darkslateblue": 0x483d8b,
        "darkslategray": 0x2f4f4f, "darkslategrey": 0x2f4f4f, "darkturquoise": 0x00ced1, "darkviolet": 0x9400d3, "deeppink": 0xff1493, "deepskyblue":
        0x00bfff, "dimgray": 0x696969, "dimgrey": 0x696969, "dodgerblue": 0x1e90ff, "firebrick": 0xb22222, "floralwhite": 0xfffaf0, "forestgreen":
        0x228b22, "fuchsia": 0xff00ff, "gainsboro": 0xdcdcdc, "ghostwhite": 0xf8f8ff, "gold": 0xffd700, "goldenrod": 0xdaa520, "gray": 0x808080,
        "green": 0x008000, "greenyellow": 0xadff2f, "grey": 0x808080, "honeydew": 0xf0fff0, "hotpink": 0xff69b4, "indianred": 0xcd5c5c, "indigo":
        0x4b0082, "ivory": 0xfffff0, "khaki": 0xf0e68c, "lavender": 0xe6e6fa, "lavenderblush": 0xfff0f5, "lawngreen": 0x7cfc00, "lemonchiffon":
        0xfffacd, "lightblue": 0xadd8e6, "lightcoral": 0xf08080, "lightcyan": 0xe0ffff, "lightgoldenrodyellow": 0xfafad2, "lightgray": 0xd3d3d3,
        "lightgreen": 0x90ee90, "lightgrey": 0xd3d3d3, "lightpink": 0xffb6c1, "lightsalmon": 0xffa07a, "lightseagreen": 0x20b2aa, "lightskyblue":
        0x87cefa, "lightslategray": 0x778899, "lightslategrey": 0x778899, "lightsteelblue": 0xb0c4de, "lightyellow": 0xffffe0, "lime": 0x00ff00,
        "limegreen": 0x32cd32, "linen": 0xfaf0e6, "magenta": 0xff00ff, "maroon": 0x800000, "mediumaquamarine": 0x66cdaa, "mediumblue": 0x0000cd,
        "mediumorchid": 0xba55d3, "mediumpurple": 0x9370db, "mediumseagreen": 0x3cb371, "mediumslateblue": 0x7b68ee, "mediumspringgreen": 0x00fa9a,
        "mediumturquoise": 0x48d1cc, "mediumvioletred": 0xc71585, "midnightblue": 0x191970, "mintcream": 0xf5fffa, "mistyrose": 0xffe4e1, "moccasin":
        0xffe4b5, "navajowhite": 0xffdead, "navy": 0x000080, "oldlace": 0xfdf5e6, "olive": 0x808000, "olivedrab": 0x6b8e23, "orange": 0xffa500,
        "orangered": 0xff4500, "orchid": 0xda70d6, "palegoldenrod": 0xeee8aa, "palegreen": 0x98fb98, "paleturquoise": 0xafeeee, "palevioletred":
        0xdb7093, "papayawhip": 0xffefd5, "peachpuff": 0xffdab9, "peru": 0xcd853f, "pink": 0xffc0cb, "plum": 0xdda0dd, "powderblue": 0xb0e0e6,
        "purple": 0x800080, "red": 0xff0000, "rosybrown": 0xbc8f8f, "royalblue": 0x4169e1, "saddlebrown": 0x8b4513, "salmon": 0xfa8072, "sandybrown":
        0xf4a460, "seagreen": 0x2e8b57, "seashell": 0xfff5ee, "sienna": 0xa0522d, "silver": 0xc0c0c0, "skyblue": 0x87ceeb, "slateblue": 0x6a5acd,
        "slategray": 0x708090, "slategrey": 0x708090, "snow": 0xfffafa, "springgreen": 0x00ff7f, "steelblue": 0x4682b4, "tan": 0xd2b48c, "teal":
        0x008080, "thistle": 0xd8bfd8, "tomato": 0xff6347, "turquoise": 0x40e0d0, "violet": 0xee82ee, "wheat": 0xf5deb3, "white": 0xffffff,
        "whitesmoke": 0xf5f5f5, "yellow": 0xffff00, "yellowgreen": 0x9acd32}

def mixcase(draw, s):
    b = draw(st.integers(0, (1 << len(s)) - 1))
    return "".join(ch.upper() if b >> i & 1 else ch for i, ch in enumerate(s))


def grey():
    return st.one_of(st.integers(0, 255).map(lambda i: i / 255), st.floats(0, 1).map(lambda x: round(x, 6)), st.sampled_from([0, 1, 0.5, True, False, .1, .999]))


@st.composite
def spec(draw):
    k = draw(st.sampled_from(["name", "name", "hex3", "hex6", "a3", "a3", "a4", "undef"]))
    if k == "name":
        c = mixcase(draw, draw(st.sampled_from(sorted(CSS3))))
    elif k == "hex3":
        c = "#" + mixcase(draw, "%03x" % draw(st.integers(0, 0xfff)))
    elif k == "hex6":
        c = "#" + mixcase(draw, "%06x" % draw(st.integers(0, 0xffffff)))
    elif k == "undef":
        c = None
    else:
        c = [draw(grey()) for _ in range(3 if k == "a3" else 4)]
    a = draw(grey()) if k != "a4" and draw(st.booleans()) else "none"
    return dict(c=c, a=a, how=draw(st.integers(0, 4)))


def text(s):
    c, a = scad.val(s["c"]), s["a"]
    if a == "none":
        return ["color(%s)", "color(c=%s)", "color( c = %s )", "color(%s,)", "color(c=%s,)"][s["how"]] % c
    a = scad.val(a)
    return ["color(%s,%s)" % (c, a), "color(%s,alpha=%s)" % (c, a), "color(c=%s,alpha=%s)" % (c, a), "color(alpha=%s,c=%s)" % (a, c), "color(alpha=%s, c=%s,)" % (a, c)][s["how"]]


def resolve(s):
    """-> rgb in 0..1 or None, alpha"""
    c = s["c"]
    al = 1.0 if s["a"] == "none" else float(s["a"])
    if c is None:
        return None, al
    if isinstance(c, str):
        if c[0] == "#":
            h = c[1:]
            if len(h) == 3:
                h = "".join(x * 2 for x in h)
            return [int(h[i:i + 2], 16) / 255 for i in (0, 2, 4)], al
        v = CSS3[c.lower()]
        return [(v >> 16) / 255, (v >> 8 & 255) / 255, (v & 255) / 255], al
    if len(c) == 4:
        al = float(c[3])
    return [float(x) for x in c[:3]], al


@st.composite
def valid(draw):
    return dict(specs=[draw(spec()) for _ in range(draw(st.integers(1, 12)))], nest=draw(st.integers(0, 4095)))


DUMP = re.compile(rb"color\(c=(?:\[([^\]]*)\]|undef, alpha=([0-9.e+-]+))\)")


def check(ctx, specs, prog):
    ctx.write("m.scad", prog)
    r = ctx.hob3l(["m.scad", "-q", "--dump-scad"])
    if r.rc:
        raise Violation("a valid colour is rejected: %r" % r.err[:300])
    got = DUMP.findall(r.out)
    if len(got) != len(specs):
        raise Violation("%d colours in the dump, %d in the model\n%s" % (len(got), len(specs), r.out.decode("latin1")))
    for s, (rgb, al) in zip(specs, got):
        e, ea = resolve(s)
        v = [float(x) for x in (rgb or al).split(b",")]
        exp = [ea] if e is None else e + [ea]
        if (not rgb) != (e is None) or len(v) != len(exp):
            raise Violation("%s resolves to %r" % (text(s), rgb or al))
        for a, b in zip(v, exp):
            if abs(round(a * 255) - b * 255) > .5001:
                raise Violation("%s resolves to %r, expected %s" % (text(s), v, ["%.4g" % x for x in exp]))
        if e and 0 < sum(e) < 3:
            ctx.nt()


def run_valid(case, ctx):
    ctx.label("n%d" % len(case["specs"]))
    s, closing = "", ""
    for i, q in enumerate(case["specs"]):
        if case["nest"] >> i & 1:
            s += text(q) + "{\n"
            closing += "}\n"
        else:
            s += text(q) + " cube(%d);\n" % (i + 1)
    check(ctx, case["specs"], s + "cube(99);\n" + closing)


@st.composite
def names(draw):
    n = sorted(CSS3)
    return dict(start=draw(st.integers(0, len(n) - 1)), case=[draw(st.integers(0, 3)) for _ in range(20)], seed=draw(st.integers(0, 1 << 30)))


def run_names(case, ctx):
    r = random.Random(case["seed"])
    n = sorted(CSS3)
    specs = []
    for i in range(len(n)):
        w = n[(case["start"] + i) % len(n)]
        k = case["case"][i % 20]
        w = [w, w.upper(), w.capitalize(), "".join(ch.upper() if r.random() < .5 else ch for ch in w)][k]
        specs.append(dict(c=w, a="none", how=0))
    check(ctx, specs, "".join(text(s) + " cube(1);\n" for s in specs))


@st.composite
def bad(draw):
    k = draw(st.sampled_from(["name", "name", "hex", "short", "long", "range", "range", "alpha", "both", "type", "elem", "none", "atype"]))
    c = dict(kind=k, how=draw(st.integers(0, 3)), pre=draw(valid()), ignored=draw(st.sampled_from([0, 0, 1])))
    if k == "name":
        w = draw(st.sampled_from(sorted(CSS3)))
        i = draw(st.integers(0, len(w)))
        w2 = draw(st.sampled_from([w[:i] + w[i + 1:], w[:i] + "x" + w[i:], w[:i] + " " + w[i:], w + w, w[:i] + "_" + w[i + 1:], "transparent", "", w + "s", "rebeccapurple",
                                   w[:i] + "\u00e4" + w[i:], w[:i] + "@" + w[i + 1:], "none", "currentcolor", w[:i] + "[" + w[i + 1:]]))
        c["spec"] = dict(c=w2, a="none", how=c["how"])
        c["ok"] = w2.lower() in CSS3
    elif k == "hex":
        h = "%06x" % draw(st.integers(0, 0xffffff))
        h = draw(st.sampled_from([h[:n] for n in (0, 1, 2, 4, 5)] + [h + "0", h + "00", h[:5] + "g", "g" + h[1:], h[:2] + "/" + h[3:], h[:2] + ":", " " + h[1:], h[:2] + "G", h[:2] + "@",
                                                                       h[:2] + "`", "#" + h[1:], "-" + h[1:3], "+" + h[:5], h[:5] + " ", "0x" + h[:4]]))
        c["spec"] = dict(c="#" + h, a="none", how=c["how"])
    elif k in ("short", "long"):
        c["spec"] = dict(c=[draw(grey()) for _ in range(draw(st.integers(0, 2)) if k == "short" else draw(st.integers(5, 7)))], a="none", how=c["how"])
    elif k in ("range", "elem"):
        v = [draw(grey()) for _ in range(draw(st.sampled_from([3, 4])))]
        bad1 = draw(st.sampled_from([-1, 2, 1.01, -.01, 255, 1e9, -1e9, 1.001, -.001])) if k == "range" else draw(st.sampled_from(["x", None, [1], []]))
        v[draw(st.integers(0, len(v) - 1))] = bad1
        c["spec"] = dict(c=v, a="none", how=c["how"])
    elif k in ("alpha", "atype"):
        v = draw(st.sampled_from([-1, 2, 1.01, -.01, 255])) if k == "alpha" else draw(st.sampled_from(["x", [1], [.5, .5]]))
        c["spec"] = dict(c=draw(st.sampled_from(["red", [1, 0, 0], None, "#123"])), a=v, how=c["how"])
    elif k == "both":
        c["spec"] = dict(c=[draw(grey()) for _ in range(4)], a=draw(grey()), how=c["how"])
    elif k == "type":
        c["spec"] = dict(c=draw(st.sampled_from([True, False, 3, .5, 0, -1])), a="none", how=c["how"])
    else:
        c["spec"] = None
    return c


def run_bad(case, ctx):
    if case.get("ok"):
        raise Discard("a name")
    s = case["spec"]
    t = "color()" if s is None else text(s)
    pre = "".join(text(q) + " cube(1);\n" for q in case["pre"]["specs"][:3])
    ctx.write("m.scad", pre + ["%s cube(2);\n", "difference(){ cube(5); %s sphere(1); }\n"][case["ignored"]] % t)
    r = ctx.hob3l(["m.scad", "-q", "--dump-scad"])
    if r.rc == 0:
        raise Violation("%s is accepted, dumped as %r" % (t, r.out[-300:]))
    line = pre.count("\n") + 1
    if r.rc != 1 or b"m.scad:%d:" % line not in r.err:
        raise Violation("%s: status %d, message %r" % (t, r.rc, r.err[:300]))
    ctx.nt()
    ctx.label(case["kind"])


@st.composite
def geometry(draw):
    ns = draw(gen.full(draw(st.integers(0, 3)), draw(st.integers(1, 3))))

    def rec(n):
        m = [n[0], n[1]] + ([[rec(c) for c in n[2]]] if len(n) > 2 else [])
        if draw(st.integers(0, 2)) == 0 and m[0] != "{}":
            m = ["@", draw(spec()), [m]]
        return m
    return dict(nodes=[rec(n) for n in ns])


def prog(nodes, col):
    s = ""
    for n in nodes:
        if n[0] == "@":
            s += (text(n[1]) if col else "group()") + "{\n" + prog(n[2], col) + "}\n"
        elif len(n) > 2:
            h = scad.text([n[0], n[1], []])
            assert h.rstrip().endswith("}")
            s += h.rstrip()[:-1] + prog(n[2], col) + "}\n"
        else:
            s += scad.text(n)
    return s


def run_geometry(case, ctx):
    res = []
    for k in (1, 0):
        ctx.write("m.scad", prog(case["nodes"], k))
        r = ctx.hob3l(["m.scad", "-q", "-o", "o.stl"], outs=["o.stl"])
        res.append((r.rc, r.files["o.stl"]))
    if res[0] != res[1]:
        raise Violation("color() instead of group() changes the result (status %d, %d)" % (res[0][0], res[1][0]))
    ctx.nt(res[0][0] == 0 and len(res[0][1]) > 100)


PARTS = [Part("valid", valid(), run_valid, 1500, 30000), Part("names", names(), run_names, 40, 400), Part("reject", bad(), run_bad, 1500, 30000),
         Part("geometry", geometry(), run_geometry, 500, 10000)]
