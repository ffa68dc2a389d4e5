"""A small SVG model: drawing trees (JSON), their text in random spellings, and their even-odd regions.

Node: [tag, attrs, children].  attrs values: numbers, [number, unit], strings, or for
  transform  a list of [name, [numbers]]
  points     a flat list of numbers
  d          a list of [command letter, [argument list, ...]]
Region: list of (segments (n,4) in mm, tolerance) per shape; the region is the union of the shapes' even-odd regions."""
import math
import numpy as np

UNIT = {"": 1, "px": 1, "in": 96, "mm": 96 / 25.4, "cm": 960 / 25.4, "pt": 96 / 72, "pc": 16}
SHAPES = ("rect", "circle", "ellipse", "polygon", "polyline", "path", "line")
SKIP = ("title", "desc", "metadata", "style", "defs", "use", "symbol", "switch", "marker", "image", "foreignObject")
MAXFN = 100
ARITY = dict(M=2, L=2, H=1, V=1, Q=4, T=2, C=6, S=4, A=7, Z=0)


# ---------------------------------------------------------------- text

def num(x, r):
    """A spelling of number x"""
    if x == int(x) and abs(x) < 1e15:
        s = str(int(x))
    else:
        s = repr(float(x))
    if "e" in s:
        return s
    k = r.random()
    if k < .6:
        pass
    elif k < .68 and "." not in s:
        s += ".0"
    elif k < .74 and "." in s:
        s += "00"
    elif k < .84:
        e = r.choice([-3, -1, 1, 2])
        m = repr(x * 10.0 ** -e)
        if "e" not in m and float(m + "e%d" % e) == x:
            s = m + r.choice("eE") + r.choice(["%d", "%+d"]) % e
    elif k < .9 and x >= 0:
        s = "+" + s
    if r.random() < .5:
        if s.startswith("0.") and len(s) > 2:
            s = s[1:]
        elif s.startswith("-0."):
            s = "-" + s[2:]
    return s


def join(parts, r, first=""):
    """Numbers with separators as the path grammar allows"""
    s = first
    for i, p in enumerate(parts):
        if i or not first:
            prev = s[-1:] if s else ""
        else:
            prev = ""
        if i:
            free = p[0] in "+-" or (p[0] == "." and ("." in parts[i - 1] or "e" in parts[i - 1] or "E" in parts[i - 1]))
            s += r.choice(["", "", " ", ","]) if free else r.choice([" ", " ", ",", ", ", " , ", "\n", "\t", "  "])
        s += p
    return s


def path_text(d, r):
    s = r.choice(["", "", " ", "\n"])
    for c, args in d:
        if c == "?":
            s += args                                    # an error: what precedes it is drawn
            continue
        parts = []
        if c in "Aa":
            t = ""
            for a in args:
                p = [num(v, r) for v in a]
                p[3], p[4] = str(int(a[3])), str(int(a[4]))
                if t:
                    t += r.choice([" ", ","])
                t += join(p[:4], r)
                if r.random() < .4:
                    t += p[4] + p[5]                     # flags without separators
                else:
                    t += r.choice([" ", ","]) + p[4] + r.choice([" ", ","]) + p[5]
                t += r.choice([" ", ","]) + p[6]
            s += c + r.choice(["", " "]) + t
        else:
            for a in args:
                parts += [num(v, r) for v in a]
            s += c + (r.choice(["", " ", " ", "\n"]) + join(parts, r) if parts else "")
        s += r.choice(["", "", " ", "\n"])
    return s


def attr_text(tag, k, v, r):
    if k == "d":
        return path_text(v, r)
    if k in ("points", "viewBox"):
        return r.choice(["", " "]) + join([num(x, r) for x in v], r) + r.choice(["", " "])
    if k == "transform":
        s = ""
        for i, (n, a) in enumerate(v):
            if i:
                s += r.choice([" ", ",", " , ", "", "\n"])
            s += n + r.choice(["", "", " "]) + "(" + r.choice(["", " "]) + join([num(x, r) for x in a], r) + r.choice(["", " "]) + ")"
        return s
    if isinstance(v, list):
        return num(v[0], r) + v[1]
    if isinstance(v, str):
        return v
    return r.choice(["", "", " "]) + num(v, r) + r.choice(["", "", " "])


def quote(s, r):
    q = r.choice("\"\"\"'")
    o = ""
    for ch in s:
        if ch == q or ch in "<&":
            o += {"<": "&lt;", "&": "&amp;", '"': "&quot;", "'": "&apos;"}[ch]
        elif r.random() < .004:
            o += r.choice(["&#%d;" % ord(ch), "&#x%x;" % ord(ch), "&#x%X;" % ord(ch)])
        else:
            o += ch
    return q + o + q


NOISE_ATTR = ['style="fill:none"', "fill='red'", 'stroke-width="2"', 'inkscape:label="x &lt; y"', 'sodipodi:nodetypes="ccc"', 'class="a b"', 'xml_space="x"']
FOREIGN_ATTR = ["x='7'", 'y="-3"', 'width="3"', "height='90'", 'r="50"', "rx='0'", 'd="M0 0"', 'points="0 0 9 9 9 0"', 'transform="scale(3)"', 'viewBox="0 0 1 1"', "id='a'", 'cx="1e3"']   # of another namespace
NOISE = ["<x xmlns='http://other'><rect width='50' height='50'/><g/></x>", "<inkscape:rect width='7' height='70'/>", "<o:g xmlns:o='http://o'><o:circle r='44'/></o:g>", "<!-- x -->", "\n", "  ", "<!-- <rect width='9' height='9'/> -->", "text", "<title>t</title>", "<desc>d &amp; e</desc>",
         '<sodipodi:namedview inkscape:zoom="1"><svgrect width="5" height="5"/></sodipodi:namedview>', "<metadata><x/></metadata>"]


def elem(n, r, pre, top=False, ink=False):
    tag, at, ch = n[0], n[1], n[2] if len(n) > 2 else []
    if tag == "#":
        return ch
    L = []
    own = pre
    if not top and r.random() < .1:
        own = r.choice(["s2:", "inkscape:", "svg:", ""])
        L.append("xmlns%s=%s" % (":" + own[:-1] if own else "", r.choice(['"http://www.w3.org/2000/svg"', "'http://www.w3.org/2000/svg'"])))
    ink = ink or own == "inkscape:"                         # no longer a foreign prefix
    s = "<" + own + tag
    if top:
        L += ['xmlns:inkscape="http://ink"', "xmlns:sodipodi='http://sodi'"]
        if pre:
            L.append('xmlns:%s="http://www.w3.org/2000/svg"' % pre[:-1])
        elif r.random() < .7:
            L.append('xmlns="http://www.w3.org/2000/svg"')
    for k, v in at.items():
        L.append(k + "=" + quote(attr_text(tag, k, v, r), r))
    if r.random() < .2:
        L.append(r.choice(NOISE_ATTR))
    if r.random() < .1 and not ink:
        L.append(r.choice(["sodipodi:", "inkscape:"]) + r.choice(FOREIGN_ATTR))
    r.shuffle(L)
    for a in L:
        s += r.choice([" ", " ", "\n", "  "]) + a
    s += r.choice(["", "", " "])
    noise = lambda: r.choice(NOISE[3:8] if ink else NOISE).replace("<t", "<" + pre + "t").replace("</t", "</" + pre + "t").replace("<d", "<" + pre + "d").replace("</d", "</" + pre + "d") \
        .replace("<m", "<" + pre + "m").replace("</m", "</" + pre + "m") if r.random() < .15 else ""
    if not ch and r.random() < .8:
        return s + "/>"
    s += ">"
    for c in ch:
        s += noise() + elem(c, r, pre, False, ink)
    return s + noise() + "</" + own + tag + r.choice(["", "", " "]) + ">"


def text(root, r):
    pre = "svg:" if r.random() < .1 else ""
    s = r.choice(["", "", "\ufeff"])
    if pre or r.random() < .4:
        s += r.choice(['<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8' standalone=\"no\" ?>\n"])
        if r.random() < .3:
            s += r.choice(["<!DOCTYPE svg>", '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n'])
        s += r.choice(["", "\n", "<!-- Created -->\n"])
    return (s + elem(root, r, pre, True) + r.choice(["", "\n", "<!-- end -->"])).encode()


# ---------------------------------------------------------------- geometry

def xl(x, y):
    return np.array([[1, 0, x], [0, 1, y], [0, 0, 1.]])


def sc(x, y):
    return np.diag([x, y, 1.])


def tmatrix(L):
    M = np.eye(3)
    for n, a in L:
        if n == "translate":
            m = xl(a[0], a[1] if len(a) > 1 else 0)
        elif n == "scale":
            m = sc(a[0], a[1] if len(a) > 1 else a[0])
        elif n == "rotate":
            t = math.radians(a[0])
            m = np.array([[math.cos(t), -math.sin(t), 0], [math.sin(t), math.cos(t), 0], [0, 0, 1]])
            if len(a) > 1:
                m = xl(a[1], a[2]) @ m @ xl(-a[1], -a[2])
        elif n == "skewX":
            m = np.array([[1, math.tan(math.radians(a[0])), 0], [0, 1, 0], [0, 0, 1]])
        elif n == "skewY":
            m = np.array([[1, 0, 0], [math.tan(math.radians(a[0])), 1, 0], [0, 0, 1]])
        else:
            m = np.array([[a[0], a[2], a[4]], [a[1], a[3], a[5]], [0, 0, 1.]])
        M = M @ m
    return M


def viewbox(vb, w, h, pas):
    """SVG 2, 8.2"""
    al, sl = "xMidYMid", False
    if pas:
        for t in pas.split():
            if t == "slice": sl = True
            elif t not in ("meet", "defer"): al = t
    sx, sy = w / vb[2], h / vb[3]
    if al != "none":
        sx = sy = max(sx, sy) if sl else min(sx, sy)
    tx, ty = -vb[0] * sx, -vb[1] * sy
    if al != "none":
        f = dict(Min=0, Mid=.5, Max=1)
        tx += (w - vb[2] * sx) * f[al[1:4]]
        ty += (h - vb[3] * sy) * f[al[5:8]]
    return xl(tx, ty) @ sc(sx, sy)


def nseg(kind, fn):
    top = dict(Q=2 + (MAXFN + 3) // 4, C=2 + (MAXFN + 1) // 2, A=MAXFN)[kind]
    return top if fn == 0 else max(2, min(fn, top))


class Pen:
    """Collects subpaths as dense polylines; tol is the allowed deviation in user units."""

    def __init__(self, fn):
        self.fn, self.sub, self.cur, self.pts, self.tol = fn, [], np.zeros(2), [], 0.
        self.start = np.zeros(2)

    def flush(self):
        if len(self.pts) > 1:
            self.sub.append(np.array(self.pts))
        self.pts = []

    def move(self, p):
        self.flush()
        self.cur = self.start = np.asarray(p, float)

    def begin(self):
        if not self.pts:
            self.pts = [self.cur]
            self.start = self.cur

    def line(self, p):
        self.begin()
        self.cur = np.asarray(p, float)
        self.pts.append(self.cur)

    def close(self):
        self.flush()
        self.cur = self.start

    def curve(self, f, end, dev):
        self.begin()
        for i in range(1, 160):
            self.pts.append(f(i / 160))
        self.cur = np.asarray(end, float)
        self.pts.append(self.cur)
        self.tol = max(self.tol, dev)

    def quad(self, c, e):
        a = self.cur
        n = nseg("Q", self.fn)
        self.curve(lambda t: (1 - t) ** 2 * a + 2 * t * (1 - t) * c + t * t * e, e, np.linalg.norm(a - 2 * c + e) * 2 / 8 / n ** 2)

    def cubic(self, c, d, e):
        a = self.cur
        n = nseg("C", self.fn)
        dd = 6 * max(np.linalg.norm(a - 2 * c + d), np.linalg.norm(c - 2 * d + e))
        self.curve(lambda t: (1 - t) ** 3 * a + 3 * t * (1 - t) ** 2 * c + 3 * t * t * (1 - t) * d + t ** 3 * e, e, dd / 8 / n ** 2)

    def arc(self, rx, ry, ph, fa, fs, e):
        """SVG 2, appendix B.2"""
        a, e = self.cur, np.asarray(e, float)
        if np.abs(a - e).max() < 1e-9:
            return
        if rx == 0 or ry == 0:
            self.line(e)
            return
        rx, ry, t = abs(rx), abs(ry), math.radians(ph)
        R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
        p = R.T @ ((a - e) / 2)
        l = (p[0] / rx) ** 2 + (p[1] / ry) ** 2
        if l > 1:
            rx, ry = rx * math.sqrt(l), ry * math.sqrt(l)
            l = 1
        k = math.sqrt(max(0, (1 - l) / l)) * (-1 if fa == fs else 1)
        c = k * np.array([rx * p[1] / ry, -ry * p[0] / rx])
        th = math.atan2((p[1] - c[1]) / ry, (p[0] - c[0]) / rx)
        th2 = math.atan2((-p[1] - c[1]) / ry, (-p[0] - c[0]) / rx)
        d = th2 - th
        if fs and d < 0: d += 2 * math.pi
        if not fs and d > 0: d -= 2 * math.pi
        C = R @ c + (a + e) / 2
        if abs(1 - l) < 1e-7:           # half circle: which one is decided by the sweep flag only
            d = math.pi if fs else -math.pi
        self.ellipse(C, rx, ry, R, th, d, e)

    def ellipse(self, C, rx, ry, R, th, d, e):
        n = nseg("A", self.fn)
        self.curve(lambda t: C + R @ np.array([rx * math.cos(th + d * t), ry * math.sin(th + d * t)]), e, max(rx, ry) * (1 - math.cos(d / 2 / n)))


def run_path(P, d):
    last, ctl = "", None
    for c, args in d:
        rel, C = c.islower(), c.upper()
        if C == "Z":
            P.close()
            last = C
            continue
        for i, v in enumerate(args):
            o = P.cur if rel else np.zeros(2)
            v = np.asarray(v, float)
            k = C
            if C == "M":
                if i == 0:
                    P.move(o + v)
                else:
                    P.line(o + v)
                k = "M"
            elif C == "L":
                P.line(o + v)
            elif C == "H":
                P.line([o[0] + v[0], P.cur[1]])
            elif C == "V":
                P.line([P.cur[0], o[1] + v[0]])
            elif C == "Q":
                ctl = o + v[:2]
                P.quad(ctl, o + v[2:])
            elif C == "T":
                ctl = 2 * P.cur - ctl if last in "QT" and last else P.cur
                P.quad(ctl, o + v)
            elif C == "C":
                ctl = o + v[2:4]
                P.cubic(o + v[:2], ctl, o + v[4:])
            elif C == "S":
                c1 = 2 * P.cur - ctl if last in "CS" and last else P.cur
                ctl = o + v[:2]
                P.cubic(c1, ctl, o + v[2:])
            elif C == "A":
                P.arc(v[0], v[1], v[2], bool(v[3]), bool(v[4]), o + v[5:])
            last = k
    P.flush()


def region(root, dpi=72, center=False, layer=None, fn=0, outer=None):
    """-> list of (segs, tol)"""
    out = []

    def dim(v, full):
        if isinstance(v, list):
            return v[0] * full / 100 if v[1] == "%" else v[0] * UNIT[v[1]]
        return v

    def shape(tag, at, M, vp, extra=0.):
        w, h = vp
        dia = math.sqrt((w * w + h * h) / 2)
        X = lambda k: dim(at.get(k, 0), w)
        Y = lambda k: dim(at.get(k, 0), h)
        P = Pen(fn)
        if tag == "rect":
            x, y, ww, hh = X("x"), Y("y"), X("width"), Y("height")
            if ww <= 0 or hh <= 0:
                return
            rx, ry = at.get("rx"), at.get("ry")
            rx = dim(rx, w) if rx is not None else None
            ry = dim(ry, h) if ry is not None else None
            if rx is None: rx = ry
            if ry is None: ry = rx
            rx, ry = rx or 0, ry or 0
            if rx <= 0 or ry <= 0: rx = ry = 0
            rx, ry = min(rx, ww / 2), min(ry, hh / 2)
            P.move([x + rx, y])
            P.line([x + ww - rx, y]); P.arc(rx, ry, 0, 0, 1, [x + ww, y + ry])
            P.line([x + ww, y + hh - ry]); P.arc(rx, ry, 0, 0, 1, [x + ww - rx, y + hh])
            P.line([x + rx, y + hh]); P.arc(rx, ry, 0, 0, 1, [x, y + hh - ry])
            P.line([x, y + ry]); P.arc(rx, ry, 0, 0, 1, [x + rx, y])
        elif tag in ("circle", "ellipse"):
            cx, cy = X("cx"), Y("cy")
            if tag == "circle":
                rx = ry = dim(at.get("r", 0), dia)
            else:
                rx, ry = at.get("rx"), at.get("ry")
                rx = dim(rx, w) if rx is not None else None
                ry = dim(ry, h) if ry is not None else None
                if rx is None: rx = ry
                if ry is None: ry = rx
            if not rx or not ry or rx <= 0 or ry <= 0:
                return
            P.move([cx + rx, cy])
            P.ellipse(np.array([cx, cy]), rx, ry, np.eye(2), 0, 2 * math.pi, [cx + rx, cy])
        elif tag in ("polygon", "polyline"):
            q = np.array(at.get("points", []), float).reshape(-1, 2)
            if len(q):
                P.move(q[0])
                for p in q[1:]:
                    P.line(p)
        elif tag == "path":
            run_path(P, at.get("d", []))
        P.flush()
        S = []
        for p in P.sub:
            q = np.c_[p, np.ones(len(p))] @ M[:2].T
            S.append(np.c_[q, np.roll(q, -1, axis=0)])
        if S:
            sg = np.concatenate(S)
            sg = sg[(sg[:, :2] != sg[:, 2:]).any(axis=1)]
            if len(sg):
                out.append((sg, P.tol * np.linalg.norm(M[:2, :2], 2)))

    def rec(n, M, vp, act):
        tag, at, ch = n[0], n[1], n[2] if len(n) > 2 else []
        if tag == "#" or tag in SKIP or ":" in tag:
            return
        act = act or (layer is not None and at.get("id") == layer)
        if tag == "svg":
            w, h = dim(at["width"], vp[0]) if "width" in at else vp[0], dim(at["height"], vp[1]) if "height" in at else vp[1]
            M = M @ xl(dim(at.get("x", 0), vp[0]), dim(at.get("y", 0), vp[1])) @ tmatrix(at.get("transform", []))
            if "viewBox" in at:
                M = M @ viewbox(at["viewBox"], w, h, at.get("preserveAspectRatio"))
                w, h = at["viewBox"][2:]
            for c in ch:
                rec(c, M, (w, h), act)
            return
        M = M @ tmatrix(at.get("transform", []))
        if tag in SHAPES:
            if act and tag != "line":
                shape(tag, at, M, vp)
            return
        for c in ch:
            rec(c, M, vp, act)

    at = root[1]
    act = layer is None or at.get("id") == layer
    M = np.eye(3) if outer is None else outer
    M = M @ sc(1, -1) @ tmatrix(at.get("transform", []))
    vp = (0, 0)
    if "viewBox" in at:
        vb = at["viewBox"]
        def size(k):
            v = at.get(k)
            if v is None or (isinstance(v, list) and v[1] == "%"):
                return None
            return v[0] * UNIT[v[1]] if isinstance(v, list) else v * 96 / dpi
        w, h = size("width"), size("height")
        if w is None or h is None:
            w, h, u = vb[2], vb[3], 25.4 / dpi
        else:
            u = 25.4 / 96
        M = M @ sc(u, u) @ xl(0, -h)
        if center:
            M = M @ xl(-w / 2, h / 2)
        M = M @ viewbox(vb, w, h, at.get("preserveAspectRatio"))
        vp = (vb[2], vb[3])
    for c in root[2]:
        rec(c, M, vp, act)
    return out
