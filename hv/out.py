"""Readers of hob3l's output formats.  A file that is not well-formed is a Violation."""
import json, math, re, struct
import numpy as np
from .run import Violation


def stl_text(data):
    """-> (normals (T,3), vertices (T,3,3))"""
    t = data.decode("ascii", "replace")
    lines = t.split("\n")
    i = 0
    if not lines or not lines[0].startswith("solid"):
        raise Violation("STL output does not start with 'solid': %r" % t[:40])
    toks = t.split()
    # strict but whitespace-tolerant token check
    nt = t.count("facet normal")
    body = toks
    # drop header name: everything up to first 'facet' or 'endsolid'
    try:
        k = next(j for j, w in enumerate(body) if w in ("facet", "endsolid") and j > 0)
    except StopIteration:
        raise Violation("STL output lacks endsolid")
    n = 0
    out = []
    PAT = ("facet", "normal", 3, "outer", "loop", "vertex", 3, "vertex", 3, "vertex", 3, "endloop", "endfacet")
    L = 21
    while k < len(body) and body[k] == "facet":
        w = body[k:k + L]
        if len(w) < L or w[1] != "normal" or w[5:8] != ["outer", "loop", "vertex"] or w[11] != "vertex" \
                or w[15] != "vertex" or w[19:21] != ["endloop", "endfacet"]:
            raise Violation("malformed STL facet: %r" % " ".join(w))
        out.append(w[2:5] + w[8:11] + w[12:15] + w[16:19])
        k += L
    if k >= len(body) or body[k] != "endsolid":
        raise Violation("malformed STL end: %r" % " ".join(body[k:k + 8]))
    if len(body) > k + 2:
        raise Violation("text after endsolid: %r" % " ".join(body[k:k + 8]))
    try:
        a = np.array(out, float).reshape(-1, 4, 3)
    except ValueError as e:
        raise Violation("bad number in STL: %s" % e)
    if not np.isfinite(a).all():
        raise Violation("non-finite number in STL output")
    return a[:, 0], a[:, 1:]


def stl_bin(data):
    if len(data) < 84:
        raise Violation("binary STL shorter than its header")
    (n,) = struct.unpack_from("<I", data, 80)
    if len(data) != 84 + 50 * n:
        raise Violation("binary STL: %d triangles in header, %d bytes" % (n, len(data)))
    if data[:5] == b"solid":
        raise Violation("binary STL starts with 'solid'")
    a = np.frombuffer(data, dtype=np.dtype([("f", "<f4", 12), ("a", "<u2")]), offset=84)
    f = a["f"].astype(float).reshape(-1, 4, 3)
    if not np.isfinite(f).all():
        raise Violation("non-finite number in binary STL output")
    return f[:, 0], f[:, 1:]


def tri_segs(t2):
    """(T,3,2) triangles to their directed edges (3T,4)."""
    if len(t2) == 0:
        return np.zeros((0, 4))
    return np.vstack([np.hstack([t2[:, i], t2[:, (i + 1) % 3]]) for i in range(3)])


def stl_layers(v, ndig=9):
    """Groups STL vertices by slab: list of dicts z0,z1,top,bot,side (triangles)."""
    if len(v) == 0:
        return []
    zmin = v[:, :, 2].min(axis=1)
    zmax = v[:, :, 2].max(axis=1)
    flat = zmin == zmax
    zs = np.unique(v[:, :, 2])
    side = v[~flat]
    # slabs: intervals spanned by side triangles
    iv = sorted(set(zip(zmin[~flat].tolist(), zmax[~flat].tolist())))
    out = []
    for a, b in iv:
        m = (~flat) & (zmin == a) & (zmax == b)
        out.append(dict(z0=a, z1=b, side=v[m],
                        bot=v[flat & (zmin == a)], top=v[flat & (zmin == b)]))
    return out


def stl_regions(data, binary=False):
    """[(z0, segs)] of the top faces."""
    n, v = (stl_bin if binary else stl_text)(data)
    ls = stl_layers(v)
    nflat = int((v[:, :, 2].min(axis=1) == v[:, :, 2].max(axis=1)).sum()) if len(v) else 0
    used = sum(len(l["bot"]) + len(l["top"]) for l in ls)
    if nflat != used:
        raise Violation("%d flat STL triangles belong to no layer" % (nflat - used))
    return [(l["z0"], tri_segs(l["top"][:, :, :2])) for l in ls]


def scad_generic(data):
    """A tiny parser of the SCAD subset hob3l prints: list of [name, args, children]."""
    s = data.decode("latin1")
    tok = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<id>[A-Za-z_$][A-Za-z_0-9]*)|(?P<num>[-+]?(?:0[xX][0-9a-fA-F.]+(?:[pP][-+]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))'
                     r'|(?P<str>"(?:\\.|[^"\\])*")|(?P<sym>[\[\]{}(),;=:!#%*])', re.S)
    toks = []
    p = 0
    while p < len(s):
        m = tok.match(s, p)
        if not m:
            raise Violation("unexpected text in SCAD output: %r" % s[p:p + 40])
        p = m.end()
        if m.lastgroup:
            toks.append((m.lastgroup, m.group(m.lastgroup)))
    toks.append(("eof", ""))
    i = [0]

    def peek(): return toks[i[0]][1] if toks[i[0]][0] != "str" else None

    def nxt():
        i[0] += 1
        return toks[i[0] - 1]

    def expect(x):
        k, v = nxt()
        if v != x:
            raise Violation("SCAD output: expected %r, found %r" % (x, v))

    def value():
        k, v = nxt()
        if k == "num":
            return float.fromhex(v) if "x" in v.lower() else float(v)
        if k == "str":
            return ("str", v)
        if k == "id":
            return dict(true=True, false=False, undef=None, PI=math.pi).get(v, ("id", v))
        if v == "[":
            r = []
            while peek() != "]":
                r.append(value())
                if peek() == ",":
                    nxt()
                elif peek() != "]":
                    raise Violation("SCAD output: bad array")
            nxt()
            return r
        raise Violation("SCAD output: bad value %r" % v)

    def item():
        mod = ""
        while peek() in ("!", "#", "%", "*"):
            mod += nxt()[1]
        if peek() == "{":
            return ["{}", {"%": mod}, block()]
        k, name = nxt()
        if k != "id":
            raise Violation("SCAD output: expected functor, found %r" % name)
        expect("(")
        args = {"%": mod, "_": []}
        while peek() != ")":
            if toks[i[0]][0] == "id" and toks[i[0] + 1][1] == "=":
                n = nxt()[1]
                nxt()
                args[n] = value()
            else:
                args["_"].append(value())
            if peek() == ",":
                nxt()
            elif peek() != ")":
                raise Violation("SCAD output: bad argument list")
        nxt()
        if peek() == ";":
            nxt()
            return [name, args, []]
        if peek() == "{":
            return [name, args, block()]
        return [name, args, [item()]]

    def block():
        expect("{")
        r = []
        while peek() != "}":
            if toks[i[0]][0] == "eof":
                raise Violation("SCAD output: missing }")
            r.append(item())
        nxt()
        return r

    out = []
    while toks[i[0]][0] != "eof":
        out.append(item())
    return out


def scad_layers(data):
    """--dump-csg2: [dict(z,h,points,paths)] per polygon."""
    out = []

    def rec(ns, z, h):
        for name, a, ch in ns:
            if name in ("group", "union", "{}", "color", "render"):
                rec(ch, z, h)
            elif name == "translate":
                v = a["_"][0] if a["_"] else a.get("v")
                if v[0] != 0 or v[1] != 0:
                    raise Violation("unexpected translation %r" % (v,))
                rec(ch, z + v[2], h)
            elif name == "linear_extrude":
                rec(ch, z, a["height"] if "height" in a else a["_"][0])
            elif name == "polygon":
                pts = a["points"] if "points" in a else a["_"][0]
                pa = a["paths"] if "paths" in a else a["_"][1] if len(a["_"]) > 1 else None
                if pa is None:
                    pa = [list(range(len(pts)))]
                if h is None:
                    raise Violation("polygon outside of linear_extrude in layer output")
                pts = np.array(pts, float).reshape(-1, 2)
                pa = [[int(k) for k in q] for q in pa]
                for q in pa:
                    for k in q:
                        if not 0 <= k < len(pts):
                            raise Violation("path index %d out of range" % k)
                out.append(dict(z=z, h=h, points=pts, paths=pa))
            else:
                raise Violation("unexpected functor %r in layer output" % name)
    rec(scad_generic(data), 0.0, None)
    return out


def scad_regions(data):
    """[(z, segs)] merging the polygons of one height."""
    r = {}
    for l in scad_layers(data):
        s = [np.hstack([l["points"][q], l["points"][np.roll(q, -1)]]) for q in l["paths"]]
        r.setdefault(l["z"], []).extend(s)
    return [(z, np.vstack(s) if s else np.zeros((0, 4))) for z, s in sorted(r.items())]


JS_CHUNK = re.compile(
    r"scene\.push\(\{\s*'group':\{(?P<group>[^{}]*)\},\s*'scaleV':\s*(?P<sv>[^,\s]+),\s*'scaleC':\s*(?P<sc>[^,\s]+),\s*'shiftI':\s*(?P<si>[^,\s]+),\s*"
    r"(?:'xform':\[(?P<xf>[^\]]*)\],\s*)?'vertex':\[(?P<v>[^\]]*)\],\s*'normal':\[(?P<n>[^\]]*)\],\s*'color':\[(?P<c>[^\]]*)\],\s*"
    r"'index':\[(?P<i>[^\]]*)\],?\s*\}\);?\s*")


def js(data):
    """JavaScript output -> list of chunks: dict(group,[xform],scale,n (T,3,3),v (T,3,3) in mm,raw,color)."""
    s = data.decode("ascii", "replace")
    out, p = [], 0

    def ints(name, t, per):
        try:
            r = np.array([int(x) for x in t.split(",") if x.strip()], dtype=np.int64)
        except ValueError:
            raise Violation("JS: '%s' has a value that is no integer" % name)
        if len(r) % per:
            raise Violation("JS: length %d of '%s' is no multiple of %d" % (len(r), name, per))
        return r.reshape(-1, per)

    def num(name, t):
        try:
            x = float(t)
        except ValueError:
            raise Violation("JS: '%s': bad number %r" % (name, t))
        if not math.isfinite(x):
            raise Violation("JS: '%s' is %r" % (name, t))
        return x
    while p < len(s):
        m = JS_CHUNK.match(s, p)
        if not m:
            if s[p:].strip():
                raise Violation("JS: unexpected text %r" % s[p:p + 60])
            break
        p = m.end()
        v, n, c = ints("vertex", m["v"], 3), ints("normal", m["n"], 3), ints("color", m["c"], 4)
        sv, sc, si = num("scaleV", m["sv"]), num("scaleC", m["sc"]), num("shiftI", m["si"])
        if not (len(v) == len(n) == len(c)):
            raise Violation("JS: %d vertices, %d normals, %d colours in one chunk" % (len(v), len(n), len(c)))
        if len(v) > 65535:
            raise Violation("JS: %d vertices in one chunk" % len(v))
        if len(v) == 0:
            raise Violation("JS: empty chunk")
        d = ints("index", m["i"], 3).reshape(-1)
        idx = np.cumsum(d - int(si))
        if len(idx) and (idx.min() < 0 or idx.max() >= len(v)):
            raise Violation("JS: index %d..%d with %d vertices" % (idx.min(), idx.max(), len(v)))
        if c.min() < 0 or (c / sc).max() > 1:
            raise Violation("JS: colour out of range")
        if sv <= 0:
            raise Violation("JS: scaleV=%r" % sv)
        xf = None
        if m["xf"] is not None:
            xf = np.array([num("xform", t) for t in m["xf"].split(",")])
            if xf.shape != (16,):
                raise Violation("JS: xform has %d entries" % len(xf))
        idx = idx.reshape(-1, 3)
        out.append(dict(group=m["group"], scale=sv, xform=xf, raw=v[idx], v=v[idx] / sv * 1000, n=n[idx] / sv, nv=len(v), color=c[idx] / sc))
    return out


PS_HEAD = "%!PS-Adobe-3.0"
NUM = r"[-+0-9.eE]+"
PS_TRI = re.compile(r"newpath (%s) (%s) moveto (%s) (%s) lineto (%s) (%s) lineto closepath (gsave )?(%s %s %s) setrgbcolor fill( grestore (%s %s %s) setrgbcolor stroke)?$"
                    % ((NUM,) * 12))
PS_PATH = re.compile(r"newpath ((?:%s %s (?:moveto|lineto) )+)closepath (%s %s %s) setrgbcolor stroke$" % ((NUM,) * 5))
PS_DOT = re.compile(r"newpath (%s) (%s) 0\.4 0 360 arc closepath (%s %s %s) setrgbcolor fill$" % ((NUM,) * 5))
PS_MARK = re.compile(r"newpath (%s) (%s) moveto (%s) (%s) lineto (%s %s %s) setrgbcolor stroke$" % ((NUM,) * 7))
PS_SHOW = re.compile(r"10 10 moveto \(z=(\S+) zi=(\d+)\) show$")


def ps(data):
    """PostScript output -> dict(pages=[dict(z, zi, tri (T,3,2), fill, stroke, paths, dots, marks, lw)], bbox, npages)"""
    t = data.decode("ascii", "replace")
    L = t.split("\n")
    if L[0] != PS_HEAD:
        raise Violation("PS: bad first line %r" % L[0])
    if [x for x in L if x.strip()][-1] != "%%EOF":
        raise Violation("PS: does not end with %%EOF")
    pages, cur, depth = [], None, 0
    trail, bbox, npages = False, None, None
    for l in L[1:]:
        if l.startswith("%%Page:"):
            w = l.split()
            if cur is not None:
                raise Violation("PS: page starts before the last one ended")
            if w[1:] != [str(len(pages) + 1)] * 2:
                raise Violation("PS: bad page number: %s" % l)
            cur = dict(z=None, zi=None, tri=[], fill=set(), stroke=set(), paths=[], pcol=set(), dots=[], dcol=set(), marks=[], mcol=set(), lw=None)
            continue
        if l == "%%Trailer":
            trail = True
            continue
        if l.startswith("%%Pages:") and trail:
            npages = int(l.split()[1])
        if l.startswith("%%BoundingBox:") and trail:
            bbox = [int(x) for x in l.split()[1:]]
        if l.startswith("%") or not l:
            continue
        if cur is None:
            raise Violation("PS: drawing outside of a page: %r" % l)
        if l == "showpage":
            if depth != 0:
                raise Violation("PS: save without restore")
            for k in ("tri", "dots", "marks"):
                cur[k] = np.array(cur[k], float)
            cur["tri"] = cur["tri"].reshape(-1, 3, 2)
            pages.append(cur)
            cur = None
            continue
        if l == "save":
            depth += 1
            continue
        if l == "restore":
            depth -= 1
            continue
        m = PS_TRI.match(l)
        if m:
            cur["tri"].append([float(x) for x in m.groups()[:6]])
            cur["fill"].add(m.group(8))
            if bool(m.group(7)) != bool(m.group(9)):
                raise Violation("PS: gsave without grestore: %r" % l)
            cur["stroke"].add(m.group(10))
            continue
        m = PS_PATH.match(l)
        if m:
            w = m.group(1).split()
            if w[2] != "moveto" or "moveto" in w[3:]:
                raise Violation("PS: bad path %r" % l[:80])
            cur["paths"].append(np.array([[float(w[i]), float(w[i + 1])] for i in range(0, len(w), 3)]))
            cur["pcol"].add(m.group(2))
            continue
        m = PS_DOT.match(l)
        if m:
            cur["dots"].append([float(x) for x in m.groups()[:2]])
            cur["dcol"].add(m.group(3))
            continue
        m = PS_MARK.match(l)
        if m:
            cur["marks"].append([float(x) for x in m.groups()[:4]])
            cur["mcol"].add(m.group(5))
            continue
        m = PS_SHOW.match(l)
        if m:
            cur["z"], cur["zi"] = float(m.group(1)), int(m.group(2))
            continue
        m = re.match(r"(%s) setlinewidth$" % NUM, l)
        if m:
            cur["lw"] = float(m.group(1))
            continue
        if re.match(r"1 setlinecap$|1 setlinejoin$|0 setgray$|/\w+ findfont \d+ scalefont setfont$", l):
            continue
        raise Violation("PS: unexpected line %r" % l[:80])
    if cur is not None:
        raise Violation("PS: page without showpage")
    if npages != len(pages):
        raise Violation("PS: %r pages announced, %d present" % (npages, len(pages)))
    if bbox is None or len(bbox) != 4:
        raise Violation("PS: no bounding box in the trailer")
    return dict(pages=pages, bbox=bbox)
