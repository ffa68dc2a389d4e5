"""Equivalent spellings of a SCAD model: one tree, many texts."""
import math
import random
from . import scad

POS = dict(cube=["size", "center"], square=["size", "center"], sphere=["r"], circle=["r"], cylinder=["h", "r1", "r2", "center"],
           polyhedron=["points", "faces"], polygon=["points", "paths"], rotate=["a", "v"], translate=["v"], mirror=["v"], scale=["v"],
           multmatrix=["m"], linear_extrude=["height"], projection=["cut"], color=["c", "alpha"])
POS["import"] = ["file", "layer", "convexity"]
POS["import_stl"] = POS["import"]
FAFS = {"$fa": [1, 12, 0.5], "$fs": [2, .25, 1]}
# values that mean the same as leaving the parameter out
DEFAULT = dict(cube={"size": [1, [1, 1, 1]], "center": [False]}, square={"size": [1, [1, 1]], "center": [False]},
               sphere=dict({"$fn": [0]}, **FAFS), circle=dict({"$fn": [0]}, **FAFS), cylinder=dict({"h": [1], "center": [False], "$fn": [0]}, **FAFS),
               polyhedron={"convexity": [1, 5]}, polygon={"paths": [None]}, projection={"convexity": [2]},
               linear_extrude=dict({"center": [False], "slices": [1], "twist": [0], "scale": [1, [1, 1]], "convexity": [3], "$fn": [0, 7]}, **FAFS),
               rotate_extrude=dict({"angle": [360], "$fn": [0], "convexity": [10]}, **FAFS), color={})
DROP = dict(cube={"size": 1, "center": 0}, square={"size": 1, "center": 0}, cylinder={"h": 1, "center": 0}, sphere={}, circle={}, polygon={},
            linear_extrude={"center": 0, "slices": 1, "twist": 0, "scale": 1}, rotate_extrude={"angle": 360})
INT = {"$fn", "slices", "convexity", "faces", "triangles", "paths", "center", "cut"}
BOOL = {"center", "cut"}
FEATURES = ["ws", "comment", "num", "args", "order", "defaults", "alt", "vec", "bool", "braces", "alias"]
ALIAS = ["union", "group", "render", "{}"]


def with_pi(nodes, k):
    """Replaces some numbers by pi."""
    rng = random.Random(k)

    def value(v, name):
        if isinstance(v, (list, tuple)):
            return [value(x, name) for x in v]
        if isinstance(v, (int, float)) and not isinstance(v, bool) and v > 0 and rng.random() < .2:
            return math.pi
        return v

    def node(n):
        q = {a: value(b, a) if a in ("size", "h", "height", "r", "r1", "r2", "d", "a", "v", "_", "twist", "angle", "scale") else b for a, b in n[1].items()}
        return [n[0], q] + ([[node(c) for c in n[2]]] if len(n) > 2 else [])
    return [node(n) for n in nodes]


class Speller:
    def __init__(self, feats, seed):
        self.f = set(feats)
        self.r = random.Random(seed)
        self.used = set()

    def on(self, feat, p=.5):
        if feat in self.f and self.r.random() < p:
            self.used.add(feat)
            return True
        return False

    # ------------------------------------------------------------ numbers
    def number(self, v, name):
        r = self.r
        if isinstance(v, bool):
            if self.on("bool"):
                return r.choice(["1", "+1", "7", "01"] if v else ["0", "-0", "00"])
            return "true" if v else "false"
        if name in BOOL and self.on("bool"):
            return "true" if v else "false"
        base = scad.num(v)
        if not self.on("num"):
            return base
        if name in INT or name == "index":
            if not isinstance(v, int):
                return base
            return r.choice(["%d" % v, "+%d" % v if v >= 0 else "%d" % v, "00%d" % v if v >= 0 else "-00%d" % -v])
        x = float(v)
        if x == math.pi:
            return "PI"
        if x == 1 and r.random() < .2:
            return "true"
        if x == 0 and r.random() < .2:
            return "false"
        sign = "-" if x < 0 else r.choice(["", "", "+"])
        s = scad.num(abs(v))
        k = r.randrange(8)
        if k == 0:
            return sign + "%.17g" % abs(x)
        if k == 1:
            return sign + "%.17e" % abs(x)
        if k == 2:
            return sign + ("%.16E" % abs(x) if float("%.16E" % x) == x else "%.17E" % abs(x))
        if "e" in s:
            return sign + s
        if k == 3:
            return sign + "0" * r.randrange(1, 4) + s
        if k == 4:
            return sign + (s + "0" * r.randrange(1, 5) if "." in s else s + r.choice([".", ".0", ".000"]))
        if k == 5 and s.startswith("0.") and len(s) > 2:
            return sign + s[1:]
        # shift the decimal point: the digits are the same number, so it rounds the same way
        sh = r.randrange(-3, 4)
        d, _, f = s.partition(".")
        digits, point = d + f, len(d) + sh
        if point <= 0:
            digits, point = "0" * (1 - point) + digits, 1
        if point > len(digits):
            digits += "0" * (point - len(digits))
        m = digits[:point] + ("." + digits[point:] if point < len(digits) else "")
        e = r.choice("eE") + (r.choice(["", "0", "00"]).join(["-" if sh > 0 else r.choice(["", "+"]), "%d" % abs(sh)]))
        return sign + m + e

    def value(self, v, name, out):
        if v is None:
            out.append("undef")
        elif isinstance(v, str):
            out.append(scad.val(v))
        elif isinstance(v, (list, tuple)):
            out.append("[")
            for i, x in enumerate(v):
                if i:
                    out.append(",")
                self.value(x, name, out)
            out.append("]")
        else:
            out.append(self.number(v, name))

    # ---------------------------------------------------------- arguments
    def params(self, f, p):
        """[(name, value)] in canonical order after applying documented alternatives."""
        r = self.r
        q = {}
        for i, v in enumerate(p.get("_", [])):
            q[POS[f][i]] = v
        q.update((k, v) for k, v in p.items() if k not in ("_", "%"))
        if f in ("sphere", "circle", "cylinder") and self.on("alt"):
            if f != "cylinder":
                if "r" in q:
                    q["d"] = q.pop("r") * 2
                elif "d" in q:
                    q["r"] = q.pop("d") / 2
                elif r.random() < .5:
                    q["r"] = 1
                else:
                    q["d"] = 2
            else:
                r1, r2 = scad.cyl_radii(q)
                for k in ("r", "d", "r1", "r2", "d1", "d2"):
                    q.pop(k, None)
                c = r.randrange(6)
                if c == 0 and r1 == r2:
                    q["r"] = r1
                elif c == 1 and r1 == r2:
                    q["d"] = r1 * 2
                else:
                    q.update([("r1", r1)] if c & 1 else [("d1", r1 * 2)])
                    q.update([("r2", r2)] if c & 2 else [("d2", r2 * 2)])
        if f in ("cube", "square") and isinstance(q.get("size"), (int, float)) and self.on("vec"):
            q["size"] = [q["size"]] * (3 if f == "cube" else 2)
        elif f in ("cube", "square") and isinstance(q.get("size"), list) and len(set(q["size"])) == 1 and self.on("vec"):
            q["size"] = q["size"][0]
        if f in ("translate", "mirror", "scale") and self.on("vec"):
            fill = 1 if f == "scale" else 0
            v = q["v"]
            if not isinstance(v, list):
                q["v"] = [v] * 3
            elif len(v) == 2:
                q["v"] = v + [fill]
            elif len(v) == 3 and v[2] == fill:
                q["v"] = v[:2]
            elif f == "scale" and len(v) == 3 and len(set(v)) == 1:
                q["v"] = v[0]
        if f == "linear_extrude" and "scale" in q and self.on("vec"):
            s = q["scale"]
            if not isinstance(s, list):
                q["scale"] = [s, s]
            elif s[0] == s[1]:
                q["scale"] = s[0]
        if f == "multmatrix" and self.on("vec"):
            m = [[1.0 * (i == j) for j in range(4)] for i in range(4)]
            for i, row in enumerate(q["m"]):
                for j, x in enumerate(row):
                    m[i][j] = x
            n = r.choice([3, 4])
            m = [row[:] for row in m[:n]]
            for i, row in enumerate(m):
                while len(row) > 2 and row[-1] == (1 if len(row) - 1 == i else 0) and r.random() < .6:
                    row.pop()
            if n == 3 and m[2] in ([0, 0, 1], [0, 0]) and r.random() < .5:
                m.pop()
                if not all(len(x) in (2, 3, 4) for x in m):
                    raise AssertionError
            q["m"] = [x if i != 2 or len(x) > 2 else x + [1.0] for i, x in enumerate(m)]
        if f == "polyhedron" and "faces" in q and all(len(x) == 3 for x in q["faces"]) and self.on("alt"):
            q["triangles"] = q.pop("faces")
        if f == "polygon" and q.get("paths") is None and self.on("alt"):
            q["paths"] = [list(range(len(q["points"])))]
        if f == "rotate" and isinstance(q.get("a"), list) and len(q["a"]) == 3 and q["a"][:2] == [0, 0] and False:
            pass
        if self.on("defaults"):
            for k, v in DROP.get(f, {}).items():
                if k in q and isinstance(q[k], (int, float)) and q[k] == v and r.random() < .5:
                    del q[k]
            for k, vs in DEFAULT.get(f, {}).items():
                if k not in q and r.random() < .4:
                    if f == "linear_extrude" and k == "$fn":
                        pass
                    q[k] = r.choice(vs)
        return q

    def arglist(self, f, p):
        q = self.params(f, p)
        pos = POS.get(f, [])
        k = 0
        while k < len(pos) and pos[k] in q:
            k += 1
        orig = len(p.get("_", []))
        n = min(k, orig)
        if self.on("args", .6):
            n = self.r.randrange(k + 1)
        a = [(None, x, q[x]) for x in pos[:n]]
        rest = [(x, x, v) for x, v in q.items() if x not in pos[:n]]
        if self.on("order", .7):
            self.r.shuffle(rest)
        return a + rest

    # --------------------------------------------------------------- items
    def item(self, n, out):
        f, p, ch = n[0], n[1], (n[2] if len(n) > 2 else None)
        if f in ALIAS and self.on("alias"):
            f = self.r.choice([a for a in ALIAS if a != "{}" or not p.get("%")])
        if f != "{}":
            out.extend(p.get("%", ""))
            out.append(f)
            out.append("(")
            for i, (k, name, v) in enumerate(self.arglist(n[0], p) if n[0] not in ALIAS else []):
                if i:
                    out.append(",")
                if k:
                    out += [k, "="]
                self.value(v, name, out)
            out.append(")")
            if ch is None:
                out.append(";")
                return
            if not ch and self.on("braces"):
                out.append(";")
                return
            if len(ch) == 1 and self.on("braces"):
                c = []
                self.item(ch[0], c)
                if c[0] != "{":
                    out += c
                    return
                out += ["{"] + c + ["}"]
                return
        out.append("{")
        for c in ch:
            self.item(c, out)
        out.append("}")

    COMMENTS = ["/* c */", "/**/", "/***/", "/*/ */", "/* // */", "// x\n", "// /* \n", "//\n", "/* \" */", "// \"\n", "/* ; } ) \n\n */", "// \\\n",
                "/* \xe4\xf6 */", "// \xff\xfe\n", "/* * / */", "/*\r\n*/", "// cube(1);\n", "/* include <x> */", "/*!*/"]
    SPACE = [" ", "  ", "\n", "\t", "\r\n", "\n\n", " \t ", "\r"]

    def text(self, nodes):
        toks = []
        for n in nodes:
            self.item(n, toks)
        s = []
        for t in toks:
            while self.on("ws", .4):
                s.append(self.r.choice(self.SPACE))
            while self.on("comment", .2):
                s.append(self.r.choice(self.COMMENTS))
            s.append(t)
            if t in (";", "{", "}") and "ws" not in self.f:
                s.append("\n")
        while self.on("ws", .4):
            s.append(self.r.choice(self.SPACE))
        if self.on("comment", .3):
            s.append(self.r.choice(self.COMMENTS + ["// no newline at the end", "//"]))
        return "".join(s).encode("latin1")


def spell(nodes, feats, seed):
    s = Speller(feats, seed)
    return s.text(nodes), s.used
