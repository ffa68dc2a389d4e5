"""C29: include and import paths."""
import os
import random
import re
import resource
import hypothesis.strategies as st
from checks.c08 import tetra
from hv import gen, scad
from hv.run import Part, Violation, Discard

PROP = "C29"
TECHNIQUE = ("property-based testing (Hypothesis): random models are split at random into files over random directories and must give the same bytes as in "
             "one file; with a fault planted into the files the message must name the include or import")
NOTE = "Random search over models, ways of splitting, directories and spellings of paths; depth of nesting limited by the model size, plus chains of up to 300 files."
RULE = ("A case is a random model with imports, a random way of splitting it into included files (a list of siblings or the body of a functor, nested, "
        "the same text included several times) in random directories with relative, dotted, parent and absolute paths, run from different directories.  "
        "Part 'faults' removes a file, puts a directory in its place or lets a file include itself.  Part 'many' has up to 300 files with few file "
        "descriptors.  Non-trivial: at least one file is included from another directory than the main file's, or 'faults' and 'many'.")
ASSUMPTIONS = ["symbolic links are not tried"]

DIRS = ["", "", "a/", "a/b/", "c d/", "x/y/z/", "a/x/", "q'\"(1)/", "\u00e4/"]
STLS = ["t.stl", "a/t.stl", "a/b/u v.stl", "x/w.stl"]


def svg(k):
    return b'<svg xmlns="http://www.w3.org/2000/svg" width="20mm" height="20mm" viewBox="0 0 20 20"><rect x="%d" y="1" width="%d" height="%d"/></svg>' % (k, k + 2, 9 - k)


@st.composite
def imported(draw):
    if draw(st.integers(0, 3)):
        n = ["import", {"file": "\0" + draw(st.sampled_from(STLS))}]
    else:
        n = ["linear_extrude", {"height": draw(st.integers(1, 9))}, [["import", {"file": "\0" + draw(st.sampled_from(["s.svg", "a/s.svg"]))}]]]
    if draw(st.booleans()):
        n = draw(gen.xform(st.just([n])))
    return n


@st.composite
def model(draw):
    ns = draw(gen.full(draw(st.integers(1, 3)), draw(st.integers(1, 4))))
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        ns.insert(draw(st.integers(0, len(ns))), draw(imported()))
    return ns


@st.composite
def cases(draw):
    return dict(nodes=draw(model()), seed=draw(st.integers(0, 1 << 30)), p=draw(st.sampled_from([.15, .3, .5])),
                main=draw(st.sampled_from(DIRS)), cwd=draw(st.sampled_from(["", "", "a", "x/y"])), form=draw(st.sampled_from(["rel", "rel", "dot", "abs"])))


@st.composite
def faults(draw):
    c = draw(cases())
    c["kind"] = draw(st.sampled_from(["missing", "missing", "dir", "self", "parent"]))
    c["pick"] = draw(st.integers(0, 50))
    c["p"] = draw(st.sampled_from([.3, .6]))
    return c


class Split:
    def __init__(self, ctx, case):
        self.ctx, self.case, self.r = ctx, case, random.Random(case["seed"])
        self.root = ctx.scratch
        self.files = {}       # path -> text
        self.refs = []        # (file with the reference, path as written, target, kind)
        self.n = 0
        self.byname = {}
        self.far = False

    def spell(self, frm, to):
        """A path to `to` as written in file `frm`"""
        r = self.r
        k = r.random()
        d = os.path.dirname(frm)
        if k < .15:
            return os.path.join(self.root, to)
        p = os.path.relpath(os.path.join("/r", to), os.path.join("/r", d))
        if k < .4:
            p = "./" + p
        elif k < .5 and "/" in p and not p.startswith(".."):
            i = p.index("/")
            p = p[:i] + "/../" + p[:i] + "/" + p[i + 1:]
        elif k < .6:
            p = p.replace("/", "//", 1)
        elif k < .7 and "/" in p:
            p = p.replace("/", "/./", 1)
        return p

    def emit(self, nodes, frm, depth=0):
        """Text for a list of siblings in file frm"""
        r = self.r
        s, i = "", 0
        while i < len(nodes):
            if r.random() < self.case["p"] / (1 + depth / 8):
                k = r.choice([1, 1, 2, len(nodes) - i, 0])
                k = min(k, len(nodes) - i)
                s += self.inc(nodes[i:i + k], frm, depth) + r.choice(["\n", "\n", " ", ";\n"])
                i += k
                if k == 0:
                    s += self.one(nodes[i], frm, depth)
                    i += 1
            else:
                s += self.one(nodes[i], frm, depth)
                i += 1
        return s

    def inc(self, nodes, frm, depth):
        r = self.r
        key = repr(nodes)
        if key in self.byname and r.random() < .8:
            to = self.byname[key]
        else:
            self.n += 1
            to = r.choice(DIRS) + r.choice(["i%d.scad", "i%d", "my file %d.scad", "%d.inc.scad"]) % self.n
            self.files[to] = None
            self.files[to] = r.choice(["", "\n", "// x\n"]) + self.emit(nodes, to, depth + 1) + r.choice(["", "\n", " // y", "/* */"])
            self.byname[key] = to
        p = self.spell(frm, to)
        if os.path.dirname(to) != os.path.dirname(self.case["main"]):
            self.far = True
        self.refs.append((frm, p, to, "include"))
        return "include" + r.choice([" ", "", "\n", " /* > */ "]) + "<" + p + ">"

    def one(self, n, frm, depth):
        r = self.r
        f, p, ch = n[0], n[1], (n[2] if len(n) > 2 else None)
        if f == "{}":
            return "{\n" + self.emit(ch, frm, depth) + "}\n"
        if f == "import":
            p = dict(p)
            to = p["file"][1:]
            p["file"] = self.spell(frm, to)
            self.refs.append((frm, p["file"], to, "import"))
        args = [scad.val(v) for v in p.get("_", [])]
        args += ["%s=%s" % (k, scad.val(v)) for k, v in p.items() if k not in ("_", "%")]
        s = p.get("%", "") + f + "(" + ", ".join(args) + ")"
        if ch is None:
            return s + ";\n"
        k = r.random()
        if k < self.case["p"] / 2:
            return s + " " + self.inc(ch, frm, depth) + "\n"
        if k < self.case["p"]:
            return s + " { " + self.inc(ch, frm, depth) + " }\n"
        return s + " {\n" + self.emit(ch, frm, depth) + "}\n"


def plain(nodes, root):
    """The model with absolute import paths"""
    res = []
    for n in nodes:
        p = dict(n[1])
        if n[0] == "import":
            p["file"] = os.path.join(root, p["file"][1:])
        res.append([n[0], p] + ([plain(n[2], root)] if len(n) > 2 else []))
    return res


def prepare(case, ctx):
    import shutil
    for d in os.listdir(ctx.scratch):
        q = ctx.path(d)
        (shutil.rmtree if os.path.isdir(q) and not os.path.islink(q) else os.unlink)(q)
    for i, f in enumerate(STLS):
        ctx.write(f, tetra(3 + i, i - 1, 2 - i))
    ctx.write("s.svg", svg(2))
    ctx.write("a/s.svg", svg(5))
    for d in DIRS + ["x/y/"]:
        os.makedirs(ctx.path(d), exist_ok=True)
    sp = Split(ctx, case)
    main = case["main"] + "m.scad"
    sp.files[main] = sp.emit(case["nodes"], main)
    for k, v in sp.files.items():
        ctx.write(k, v)
    arg = os.path.relpath(ctx.path(main), ctx.path(case["cwd"]))
    if case["form"] == "dot":
        arg = "./" + arg
    elif case["form"] == "abs":
        arg = ctx.path(main)
    return sp, main, arg


def run_split(case, ctx):
    sp, main, arg = prepare(case, ctx)
    ctx.write("ref.scad", scad.program(plain(case["nodes"], ctx.scratch)))
    cwd = ctx.path(case["cwd"])
    a = ctx.hob3l([arg, "-q", "--dump-csg3"], cwd=cwd)
    b = ctx.hob3l(["ref.scad", "-q", "--dump-csg3"])
    show = lambda: "\n".join("--- %s\n%s" % f for f in sp.files.items())
    if b.rc:
        if a.rc == 0:
            raise Violation("accepted when split, but rejected in one file: %r\n%s" % (b.err[:300], show()))
        return ctx.label("rejected")
    if a.rc:
        raise Violation("rejected when split into files: %r\n%s" % (a.err[:400], show()))
    if a.out != b.out:
        raise Violation("the CSG3 dump differs when split into files\n%s" % show())
    x = ctx.hob3l([arg, "-q", "-o", ctx.path("o1.stl")], outs=["o1.stl"], cwd=cwd)
    y = ctx.hob3l(["ref.scad", "-q", "-o", "o2.stl"], outs=["o2.stl"])
    if x.rc != y.rc or x.files["o1.stl"] != y.files["o2.stl"]:
        raise Violation("the STL output differs when split into files (status %d, %d)\n%s" % (x.rc, y.rc, show()))
    ctx.nt(sp.far)
    ctx.label("files%d" % min(9, len(sp.files)))
    if any(k == "import" and os.path.dirname(f) for f, _, _, k in sp.refs):
        ctx.label("import in a subdirectory")


HEAD = re.compile(rb"^(.*?):(\d+):(?:(\d+):)? Error: ", re.M)


def run_faults(case, ctx):
    sp, main, arg = prepare(case, ctx)
    cwd = ctx.path(case["cwd"])
    kind = case["kind"]
    if ctx.hob3l([arg, "-q", "--dump-scad"], cwd=cwd).rc:
        raise Discard("rejected as is")
    if kind in ("missing", "dir"):
        ts = sorted({t for _, _, t, k in sp.refs})
        if not ts:
            raise Discard("nothing to break")
        t = ts[case["pick"] % len(ts)]
        os.unlink(ctx.path(t))
        if kind == "dir":
            os.mkdir(ctx.path(t))
        # an import below '*' etc. is not read
        refs = [x for x in sp.refs if x[2] == t]
        if refs[0][3] == "import":
            r = ctx.hob3l(["--dump-scad", "-q", arg], cwd=cwd)
            if r.rc:
                raise Violation("the SCAD dump needs the imported file: %r" % r.err[:300])
            if any(c in r.out for c in (b"*", b"%")):
                return ctx.label("perhaps ignored")
    else:
        fs = sorted(f for f in sp.files if f != main)
        if kind == "self" or not fs:
            t = (fs + [main])[case["pick"] % (len(fs) + 1)]
            to = t
        else:
            t = fs[case["pick"] % len(fs)]
            to = main
        p = sp.spell(t, to)
        sp.files[t] += "\ninclude <%s>\n" % p
        ctx.write(t, sp.files[t])
        refs = [(t, p, to, "include")]
    out = ctx.path("o.stl")
    r = ctx.hob3l([arg, "-q", "-o", out], outs=["o.stl"], cwd=cwd)
    show = lambda: "%s: %r\n" % (kind, refs) + "\n".join("--- %s\n%s" % f for f in sp.files.items())
    if r.rc != 1:
        raise Violation("status %d, message %r\n%s" % (r.rc, r.err[:300], show()))
    if r.files["o.stl"]:
        raise Violation("something is written to the output\n%s" % show())
    h = HEAD.search(r.err)
    if not h:
        raise Violation("no message naming a place: %r\n%s" % (r.err[:300], show()))
    f = os.path.realpath(os.path.join(cwd, h.group(1).decode()))
    line = int(h.group(2))
    ok = []
    allrefs = refs if kind in ("missing", "dir") else sp.refs + refs
    for frm, p, to, k in allrefs:
        txt = sp.files[frm]
        q = "<%s>" % p if k == "include" else scad.val(p)
        i = txt.find(q)
        assert i >= 0
        while i >= 0:
            ok.append((os.path.realpath(ctx.path(frm)), txt.count("\n", 0, i) + 1))
            i = txt.find(q, i + 1)
    if kind not in ("missing", "dir") and b"Nesting is too deep" in r.err:
        # each round of the cycle also nests deeper: that limit may be met first, anywhere
        return ctx.label("nesting")
    if (f, line) not in ok:
        raise Violation("the message names %s:%d, but the place is %s: %r\n%s" % (f, line, ok, r.err[:60] + b"..." + r.err[-400:], show()))
    last = refs[0][1].split("/")[-1]
    if kind == "missing" and last.encode() not in r.err:
        raise Violation("the message does not name the missing file: %r" % r.err[:300])
    ctx.nt(True)
    ctx.label(kind, refs[0][3])


@st.composite
def manycase(draw):
    return dict(n=draw(st.integers(20, 300)), kind=draw(st.sampled_from(["chain", "flat", "import", "same"])), limit=draw(st.integers(8, 24)),
                dirs=draw(st.integers(1, 4)), fmt=draw(st.sampled_from(["--dump-csg3", "--dump-scad"])))


def run_many(case, ctx):
    n, k = case["n"], case["kind"]
    d = lambda i: "k%d/" % (i % case["dirs"])
    ref = ""
    if k == "chain":
        for i in range(n):
            nxt = "include <../%si%d.scad>\n" % (d(i + 1), i + 1) if i < n - 1 else ""
            ctx.write(d(i) + "i%d.scad" % i, "cube(%d);\n" % (i + 1) + nxt)
            ref += "cube(%d);\n" % (i + 1)
        t = "include <%si0.scad>\n" % d(0)
    elif k == "same":
        ctx.write("k0/s.scad", "translate([0,0,1]) sphere(2);\n")
        t = "include <k0/s.scad>\n" * n
        ref = "translate([0,0,1]) sphere(2);\n" * n
    elif k == "flat":
        t = ""
        for i in range(n):
            ctx.write(d(i) + "f%d.scad" % i, "cube(%d);\n" % (i + 1))
            t += "include <%sf%d.scad>\n" % (d(i), i)
            ref += "cube(%d);\n" % (i + 1)
    else:
        ctx.write("k0/t.stl", tetra(3, 0, 0))
        t = "import(\"k0/t.stl\");\n" * n
        ref = "import(\"%s\");\n" % ctx.path("k0/t.stl") * n
    ctx.write("m.scad", t)
    ctx.write("r.scad", ref)

    def pre():
        resource.setrlimit(resource.RLIMIT_NOFILE, (case["limit"], case["limit"]))
    fmt = "--dump-csg3" if k == "import" else case["fmt"]
    a = ctx.hob3l(["m.scad", "-q", fmt], pre=pre)
    b = ctx.hob3l(["r.scad", "-q", fmt])
    if b.rc:
        raise Violation("rejected: %r" % b.err[:300])
    if a.rc or a.out != b.out:
        raise Violation("%d files (%s): status %d, %r" % (n, k, a.rc, a.err[:300]))
    ctx.nt(True)
    ctx.label(k)


PARTS = [Part("split", cases(), run_split, 1200, 20000),
         Part("faults", faults(), run_faults, 1000, 16000),
         Part("many", manycase(), run_many, 60, 1500)]
