"""C31: where error messages point."""
import re
import random
import hypothesis.strategies as st
from hv import gen, scad
from hv.run import Part, Violation, Discard

PROP = "C31"
TECHNIQUE = ("property-based testing (Hypothesis): a known mistake is put at a known place of a randomly laid out program; the message must name that "
             "file, line and column and show the line")
NOTE = ("Random search over mistakes, places and layouts of ASCII text.  For the end of the file the last line or the one behind it is accepted, "
        "and for functors with parameters both the name and the value of a parameter.")
RULE = ("A case is a random model, its tokens separated by random blanks, tabs, line breaks and comments, in the main file or in an included one, with "
        "one mistake: a foreign symbol, a superfluous, missing or cut off token, an unclosed string or comment, an unknown functor or parameter, a value "
        "of a wrong type, or an impossible object.  Non-trivial: the mistake is not in the first line.")
ASSUMPTIONS = ["tabs advance to the next multiple of 4 columns, columns count from 1"]

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|[$A-Za-z_][A-Za-z0-9_]*|[-+]?[0-9.][0-9.eE]*(?:(?<=[eE])[-+]?[0-9]+)?|\S')
WORD = re.compile(r'["$A-Za-z_0-9.+-]')

SEM3 = ["cube(0);", "mirror(v=[0,0,0]) cube(2);", "square(3);", "scale(0) cube(1);", "sphere(r=0);", "cylinder(h=0,r=1);", "cylinder(h=1,r1=0,r2=0);",
        "multmatrix([[1,0,0,0],[1,0,0,0],[0,0,1,0],[0,0,0,1]]) cube(1);", "rotate(a=3,v=[0,0,0]) cube(1);", "linear_extrude(height=0) square(1);",
        "polygon(points=[[0,0],[1,0],[0,1]]);", "linear_extrude(height=2) cube(1);", "translate() cube(1);", "polyhedron();", "cube(1,2,3,4);",
        "linear_extrude(height=1,scale=[0,1]) square(1);", "projection(cut=false) cube(3);"]
PLACE = {"linear_extrude(height=2) cube(1);": "cube", "cube(1,2,3,4);": "3", "projection(cut=false) cube(3);": "projection"}
PAIR = [("linear_extrude(height=1) polygon(points=[ [0,0],[1,0],[0,1],[1,0] ]);", 1, 3),
        ("linear_extrude(height=1) polygon(points=[ [0,0],[1,0],[0,1],[0,0] ]);", 0, 3),
        ("polyhedron(points=[ [0,0,0],[1,0,0],[0,1,0],[0,0,1],[1,0,0] ],faces=[[0,1,2],[0,3,1],[1,3,2],[2,3,0]]);", 1, 4)]


def tokens(text):
    return TOK.findall(text)


def layout(toks, seed, mode):
    """-> text and the offset of each token"""
    r = random.Random(seed)
    s, offs = "", []
    prev = ""
    for t in toks:
        sep = ""
        k = r.random()
        if mode and k < .5:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                sep += r.choice([" ", "\n", "\t", "\n\n", "  ", "\r\n", " \t ", "\n\t", " // c, [ \n", "/* x */", "/* a\n b */", "//\n", "/**/", "\t\t"][:14 if mode > 1 else 8])
        elif k < .6:
            sep = r.choice([" ", "\n"])
        if prev and WORD.match(prev[-1]) and WORD.match(t[0]) and not sep:
            sep = " "
        # a comment start must not arise from two tokens
        if prev[-1:] == "/" or (prev and not sep and prev in "/*" and t[0] in "/*"):
            sep = " " + sep
        s += sep
        offs.append(len(s))
        s += t
        prev = t
    tail = r.choice(["", "\n", "\n\n", " ", "\n// end", "\n/* end */\n"])
    return s + tail, offs


def where(text, off):
    """1-based line, column with tabs expanded, the line as shown"""
    line = text.count("\n", 0, off) + 1
    a = text.rfind("\n", 0, off) + 1
    b = text.find("\n", off)
    b = len(text) if b < 0 else b
    shown, col = "", None
    for i in range(a, b):
        if i == off:
            col = len(shown)
        if text[i] == "\t":
            shown += " " * (4 - len(shown) % 4)
        else:
            shown += text[i]
    if col is None:
        col = len(shown)
    return line, col + 1, shown


KINDS = ["sym", "sym", "number", "noparen", "noequal", "nocomma", "trunc", "string", "comment", "functor", "type", "param", "bang", "sem", "pair", "extra"]


@st.composite
def cases(draw):
    k = draw(st.sampled_from(KINDS))
    nodes = draw(gen.full(draw(st.integers(0, 2)), draw(st.integers(1, 3))))
    return dict(nodes=nodes, kind=k, at=draw(st.integers(0, 400)), pick=draw(st.integers(0, 40)), seed=draw(st.integers(0, 1 << 30)),
                mode=draw(st.integers(0, 2)), inc=draw(st.sampled_from([0, 0, 0, 1, 2])), warn=draw(st.booleans()))


def statements(toks):
    """Indices of the tokens that begin a statement (a functor or its modifier)."""
    res, depth = [], 0
    start = True
    for i, t in enumerate(toks):
        if depth == 0 and start and t not in ";{}":
            res.append(i)
            start = False
        if t in "([":
            depth += 1
        elif t in ")]" and len(t) == 1:
            depth -= 1
            if depth == 0 and t == ")":
                start = True
        elif depth == 0 and t in ("{", "}", ";"):
            start = True
    return res


def strip_marks(n):
    p = {k: v for k, v in n[1].items() if k != "%"}
    return [n[0], p] + ([[strip_marks(c) for c in n[2]]] if len(n) > 2 else [])


def plant(case):
    """-> tokens, index of the place(s) allowed for the message, second place, args, is it the end of the file?"""
    k, at, pick = case["kind"], case["at"], case["pick"]
    nodes = [strip_marks(n) for n in case["nodes"]]
    toks = tokens(scad.program(nodes))
    st0 = statements(toks)
    idx = lambda f: [i for i in range(len(toks)) if f(i)]
    one = lambda c: c[at % len(c)] if c else None
    if k == "sym":
        i = at % (len(toks) + 1)
        return toks[:i] + [["@", "?", "^", "~", "&", "|", "\\", "`", "'"][pick % 9]] + toks[i:], [i], None, [], False
    if k == "number":
        i = one(st0)
        return toks[:i] + [["17", "-1.5", "\"str\"", ".5e3", ")", "]", ":", ",", "=", "<", ">"][pick % 11]] + toks[i:], [i], None, [], False
    if k == "noparen":
        i = one(idx(lambda i: toks[i] == "("))
        return toks[:i] + toks[i + 1:], [i], None, [], False
    if k == "noequal":
        i = one(idx(lambda i: toks[i] == "="))
        return i is not None and (toks[:i] + toks[i + 1:], [i], None, [], False)
    if k == "nocomma":
        i = one(idx(lambda i: toks[i] == ","))
        return i is not None and (toks[:i] + toks[i + 1:], [i], None, [], False)
    if k == "trunc":
        i = 1 + at % len(toks)
        return toks[:i], [i], None, [], True
    if k == "string":
        i = at % (len(toks) + 1)
        return any('"' in t for t in toks[i:]) is False and (toks[:i] + ["\"abc"] + toks[i:], [i], None, [], False)
    if k == "comment":
        i = at % (len(toks) + 1)
        return toks[:i] + ["/*abc"] + toks[i:], [i], None, [], False
    if k == "functor":
        i = one([j for j in st0 if re.match(r"[a-z]", toks[j])])
        if i is None:
            return False
        # inside of an unknown functor nothing is looked at
        return toks[:i] + [["cubx", "Cube", "spher", "module_", "x1", "$fn"][pick % 6]] + toks[i + 1:], [i], None, ["--unknown-functor=" + w(case)], False
    if k == "type":
        good = idx(lambda i: re.match(r"[-+]?[0-9.]", toks[i]))
        i = one(good)
        return i is not None and (toks[:i] + ["\"xx\""] + toks[i + 1:], [i], None, [], False)
    if k == "param":
        i = one(idx(lambda i: toks[i] == ")" and toks[i - 1] != "("))
        return i is not None and (toks[:i] + [",", "zork", "=", ["1", "[1,2]", "\"s\"", "true"][pick % 4]] + toks[i:], [i + 1, i + 3], None,
                                  ["--unknown-param=" + w(case)], False)
    if k == "bang":
        if len(st0) < 2:
            return False
        a = at % (len(st0) - 1)
        b = a + 1 + pick % (len(st0) - 1 - a)
        a, b = st0[a], st0[b]
        return toks[:a] + ["!"] + toks[a:b] + ["!"] + toks[b:], [b + 1, b + 2], [a, a + 1], [], False
    if k == "sem":
        s = SEM3[pick % len(SEM3)]
        t = tokens(s)
        tops = [j for j in range(len(toks) + 1) if depth0(toks, j)]
        i = one(tops)
        j = t.index(PLACE.get(s, t[0]))
        return toks[:i] + t + toks[i:], [i + j], None, ["--empty=error", "--collapse=error"], False
    if k == "pair":
        s, a, b = PAIR[pick % len(PAIR)]
        t = tokens(s)
        tops = [j for j in range(len(toks) + 1) if depth0(toks, j)]
        i = one(tops)
        v = [j for j in range(len(t)) if t[j] == "[" and t[j - 1] in "[,"]
        return toks[:i] + t + toks[i:], [i + v[a], i + v[b]], [i + v[a], i + v[b]], [], False
    if k == "extra":
        i = one(idx(lambda i: toks[i] in ")]"))
        return i is not None and (toks[:i] + [["=", "{", ";", "*", "<", "!"][pick % 6]] + toks[i:], [i], None, [], False)


def w(case):
    return "warn" if case["warn"] else "error"


def depth0(toks, j):
    d = sum({"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(t, 0) for t in toks[:j])
    return d == 0 and (j == 0 or toks[j - 1] in (";", "}"))


HEAD = re.compile(rb"^([^\n:]*):(\d+):(?:(\d+):)? (Error|Warning|Info): ", re.M)


def run(case, ctx):
    p = plant(case)
    if not p:
        raise Discard("no place")
    toks, ok, ok2, args, eof = p
    text, offs = layout(toks, case["seed"], case["mode"])
    if case["kind"] == "comment":
        i = offs[ok[0]]
        if "*/" in text[i:]:
            text = text[:i] + text[i:].replace("*/", "  ")
    if case["kind"] == "string" and '"' in text[offs[ok[0]] + 1:]:
        raise Discard("more strings")
    offs.append(len(text))
    name = "m.scad"
    if case["inc"]:
        name = ["", "in.scad", "d/e/in.scad"][case["inc"]]
        ctx.write("m.scad", ["union(){ include <%s> }\n", "\n\n{\n\tinclude\n <%s>\n}\n", "include <%s>\n",
                              "// x\n  include\t<%s>"][case["seed"] % 4] % name)
    ctx.write(name, text)
    r = ctx.hob3l(["m.scad", "-o", "o.stl", "-q"] + args, outs=["o.stl"])
    err = r.err
    if case["kind"] == "trunc" and r.rc == 0 and not err:
        return ctx.label("complete")
    warn = any("=warn" in a for a in args)
    heads = list(HEAD.finditer(err))
    first = [h for h in heads if h.group(4) == (b"Warning" if warn else b"Error")]
    if r.rc != (0 if warn else 1) and not (warn and first):
        raise Violation("%s: status %d, message %r\n%s" % (case["kind"], r.rc, err[:300], text))
    if not warn and r.files["o.stl"]:
        raise Violation("%s: rejected, but something is written to the output" % case["kind"])
    if not first:
        raise Violation("%s: no message with a place: %r\n%s" % (case["kind"], err[:300], text))
    h = first[0]
    got = (h.group(1).decode(), int(h.group(2)), h.group(3) and int(h.group(3)))
    if eof:
        last = where(text, len(text.rstrip()))[0]
        nl = {text.count("\n") + 1, text.count("\n", 0, max(0, len(text) - 1)) + 1}
        if got[0] != name or got[1] not in nl:
            raise Violation("end of file: the message names %s:%d, but %s ends in line %s: %r\n%s" % (got[0], got[1], name, sorted(nl), err[:300], text))
        ctx.nt(got[1] > 1)
        return ctx.label(case["kind"])
    exp = {}
    for i in ok:
        l, c, s = where(text, offs[i])
        exp[(name, l, c)] = s
    at_eof = [i for i in ok if i >= len(toks)]
    if at_eof:
        if got[0] != name or got[1] not in {text.count("\n") + 1, text.count("\n", 0, max(0, len(text) - 1)) + 1}:
            raise Violation("%s: the message names %s:%d: %r\n%s" % (case["kind"], got[0], got[1], err[:300], text))
        return ctx.label("eof")
    if got not in exp:
        raise Violation("%s: the message names %s:%d:%s, but the place is %s: %r\n%s"
                        % (case["kind"], got[0], got[1], got[2], " or ".join("%s:%d:%d" % e for e in exp), err[:400], text))
    shown = " %s\n %s^\n" % (exp[got], " " * (got[2] - 1))
    nxt = err[h.end():].decode("latin1")
    if shown not in nxt:
        raise Violation("%s: the message does not show the line with a mark at column %d: %r, expected %r" % (case["kind"], got[2], nxt[:300], shown))
    if ok2:
        info = [x for x in heads if x.group(4) == b"Info"]
        exp2 = {(name,) + where(text, offs[i])[:2] for i in ok2}
        g2 = info and (info[0].group(1).decode(), int(info[0].group(2)), info[0].group(3) and int(info[0].group(3)))
        if not info or g2 not in exp2 or g2 == got:
            raise Violation("%s: the second place is %s, expected %s: %r\n%s" % (case["kind"], g2, exp2, err[:500], text))
    ctx.nt(got[1] > 1)
    ctx.label(case["kind"], "included" if case["inc"] else "main")


PARTS = [Part("place", cases(), run, 3000, 60000)]
