"""C37: the web viewer."""
import copy
import gzip
import json
import math
import os
import subprocess
import numpy as np
import hypothesis.strategies as st
from hv import build, gen, out, scad
from hv.run import Part, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = "C37"
TECHNIQUE = ("property-based testing (Hypothesis), stateful: random scenes and random histories of user actions are played to the page in Node "
             "with stand-ins for DOM and WebGL; what it draws is compared with a reference model")
NOTE = ("Random search.  Everything given to WebGL (buffers, indices, matrices) is judged for each frame; shader programs (lighting) are not "
        "executed.  The browser is a stand-in that does what the page uses.")
RULE = ("A scene is hob3l's own JavaScript of a random model and/or chunks written by the format documentation, with random groups, world "
        "positions and scales; hob3l-js-copy-aux makes the page.  A history is a list of button presses, inputs, mouse drags, keys, saved and "
        "loaded views, and reloads.  Non-trivial: a triangle is drawn and at least two actions follow.")
ASSUMPTIONS = ["Node executes the page as a browser does"]
VIEWS = {"L": [[0, -1, 0], [0, 0, 1], [-1, 0, 0]], "R": [[0, 1, 0], [0, 0, 1], [1, 0, 0]], "⊤": np.eye(3).tolist(),
         "⊥": [[-1, 0, 0], [0, 1, 0], [0, 0, -1]], "F": [[1, 0, 0], [0, 0, 1], [0, -1, 0]], "B": [[-1, 0, 0], [0, 0, 1], [0, 1, 0]]}
CENTER = {"←": (1, 0, 0), "→": (-1, 0, 0), "↑": (0, -1, 0), "↓": (0, 1, 0), "F": (0, 0, -1), "B": (0, 0, 1)}
KEYS = {"ArrowLeft": (1, 0, 0), "ArrowRight": (-1, 0, 0), "ArrowUp": (0, -1, 0), "ArrowDown": (0, 1, 0)}
NAMES = ["a", "b", "v1", "v2", "v10", "x.y", "A_1"]


def M4(r=None, t=(0, 0, 0)):
    m = np.eye(4)
    if r is not None:
        m[:3, :3] = r
    m[:3, 3] = t
    return m


def rot(axis, a):
    x, y, z = np.asarray(axis, float) / np.linalg.norm(axis)
    c, s = math.cos(a), math.sin(a)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return M4(np.eye(3) + s * K + (1 - c) * K @ K)


small = st.integers(-300, 300).map(lambda i: i / 1000)
v3 = st.lists(small, min_size=3, max_size=3)
units = st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [0.6, 0.8, 0], [0, -0.6, 0.8]])


@st.composite
def rigid(draw):
    m = M4(rot(draw(units), math.radians(draw(st.integers(-180, 180))))[:3, :3], draw(v3))
    return [round(float(x), 9) for x in m.T.reshape(-1)]


@st.composite
def groups(draw):
    r = []
    n = draw(st.integers(0, 4))
    ids = draw(st.lists(st.integers(0, 12), min_size=n, max_size=n, unique=True))
    for i, k in enumerate(ids):
        opt = draw(st.sampled_from([True, True, False]))
        g = dict(id=str(k), tag=draw(st.sampled_from(["g", "part", "T_"])) + str(i), name="grp%d" % i, optional=opt,
                 default_off=opt and draw(st.booleans()), fixed=draw(st.sampled_from([False] * 7 + [True])), prio=draw(st.integers(0, 3)))
        if draw(st.integers(0, 2)) == 0:
            g["move"] = dict(unit=draw(units), amount=draw(st.sampled_from([.01, .05, .1, 1])))
        if draw(st.integers(0, 3)) == 0:
            g["rot"] = dict(center=draw(v3), unit=draw(units), amount=draw(st.sampled_from([0, 0, .09, .18])),
                            get=draw(st.sampled_from([None, "const", "slider", "slider"])), angle=draw(st.integers(-170, 170)))
            if g["rot"]["get"] == "slider" and g["rot"]["amount"] == 0:
                g["rot"]["amount"] = .18
        if draw(st.integers(0, 4)) == 0:
            g["scale"] = dict(center=draw(v3), unit=draw(st.sampled_from([[1, 1, 1], [1, 0, 0], [0, 1, 1], [0, 0, 1]])),
                              get=draw(st.booleans()), mul=draw(st.sampled_from([.5, 1.5, 2, 3])))
        r.append(g)
    return r


@st.composite
def hand(draw, ids, glob):
    """A chunk as doc/jsformat.md says."""
    n = draw(st.integers(3, 9))
    own = {k: draw(v) for k, v in dict(scaleV=st.sampled_from([1, 10, 1000, 8192000]), scaleC=st.sampled_from([1, 100, 255]),
                                      shiftI=st.sampled_from([0, 0, 1, 4, 17])).items() if draw(st.booleans())}
    c = dict(group=draw(st.lists(st.sampled_from(ids), unique=True, max_size=3)) if ids else [], **own)
    sv, sc, si = (own.get(k, glob[k]) for k in ("scaleV", "scaleC", "shiftI"))
    lim = max(1, int(sv * .3))
    c["vertex"] = [draw(st.integers(-lim, lim)) for _ in range(3 * n)]
    c["normal"] = []
    for _ in range(n):
        u = draw(units)
        c["normal"] += [x * sv for x in u]
    c["color"] = [draw(st.integers(0, sc)) for _ in range(4 * n)]
    idx = [draw(st.integers(0, n - 1)) for _ in range(3 * draw(st.integers(1, 5)))]
    last, c["index"] = 0, []
    for i in idx:
        c["index"].append(i - last + si)
        last = i
    if draw(st.integers(0, 2)) == 0:
        c["xform"] = draw(rigid())
    return c


@st.composite
def actions(draw, gs, wp):
    k = draw(st.sampled_from(["view", "view", "turn", "turn", "turn", "deg", "center", "center", "step", "persp", "drag", "drag", "zoom", "key",
                              "save", "save", "load", "load", "load", "add", "del", "reload", "anim"] + ["group"] * 4 * bool(gs) + ["slide"] * 4 * bool(gs)
                             + ["world"] * 2 * bool(wp)))
    if k == "view":
        return [k, draw(st.sampled_from(sorted(VIEWS)))]
    if k == "turn":
        return [k, draw(st.sampled_from("←→↑↓↷↶"))]
    if k == "deg":
        return [k, draw(st.sampled_from([.5, 2, 10, 45])), "button"] if draw(st.booleans()) else [k, draw(st.integers(1, 900)) / 10, "type"]
    if k == "center":
        return [k, draw(st.sampled_from(sorted(CENTER)))]
    if k == "step":
        return [k, draw(st.sampled_from([1, 10, 100])), "button"] if draw(st.booleans()) else [k, draw(st.integers(1, 200)), "type"]
    if k == "persp":
        return [k, draw(st.booleans())]
    if k == "drag":
        return [k, draw(st.sampled_from([1, 1, 2, 4, 3, 5])), draw(st.sampled_from([False, False, False, True])), draw(st.integers(-300, 300)),
                draw(st.integers(-200, 200)), draw(st.booleans())]
    if k == "zoom":
        return [k, draw(st.sampled_from("+-"))]
    if k == "key":
        return [k, draw(st.sampled_from(sorted(KEYS)))]
    if k in ("save", "load", "del"):
        return [k, draw(st.sampled_from(NAMES))]
    if k == "group":
        return [k, draw(st.integers(0, len(gs) - 1)), draw(st.booleans())]
    if k == "slide":
        return [k, draw(st.integers(0, len(gs) - 1)), draw(st.sampled_from(["move", "rot"])), draw(st.sampled_from(["type", "type", "button"])),
                draw(st.integers(-1000, 1000))]
    if k == "world":
        return [k, draw(st.integers(0, len(wp) - 1))]
    return [k]


@st.composite
def cases(draw):
    gs = draw(groups())
    ids = [g["id"] for g in gs]
    glob = dict(scaleV=draw(st.sampled_from([1, 1, 100, 10000])), scaleC=draw(st.sampled_from([1, 255])), shiftI=draw(st.sampled_from([0, 0, 4])))
    wp = []
    for i in range(draw(st.sampled_from([0, 0, 1, 2, 2, 3]))):
        w = dict(name=draw(st.sampled_from(["pos %d", "w%d", "x%d", False])))
        w["name"] = w["name"] and w["name"] % i
        for k in ("mat", "view"):
            if draw(st.booleans()):
                w[k] = draw(rigid())
        if draw(st.booleans()):
            w["cam"] = [draw(small), draw(small), draw(st.integers(3, 30)) / 10]
        wp.append(w)
    c = dict(groups=gs, glob=glob, world=wp, anim=draw(st.sampled_from([False, False, True, None])),
             base=draw(st.sampled_from(["model", "m", "a.b", "js", "two words", "x-1_y", "hob3l", "js-hob3l2"])), sub=draw(st.sampled_from(["", "", "sub", "s p/q"])),
             remote=draw(st.booleans()), hob=None, hand=[])
    kind = draw(st.sampled_from(["hob3l", "hob3l", "hand", "both"]))
    if kind != "hand":
        h = draw(gen.outmodel(1, 2))
        h["group"] = draw(st.lists(st.sampled_from(ids), unique=True, max_size=3)) if ids else []
        c["hob"] = h
    if kind != "hob3l":
        c["hand"] = [draw(hand(ids, glob)) for _ in range(draw(st.integers(1, 4)))]
    c["first"] = draw(st.booleans())
    c["ops"] = draw(st.lists(actions(gs, wp), min_size=draw(st.sampled_from([0, 2, 2, 5])), max_size=10))
    if draw(st.integers(0, 5)) == 0:
        c["ops"] += [["save", "v%d" % i] for i in draw(st.permutations([1, 2, 3, 9, 10]))[:draw(st.integers(1, 4))]] + [["add"], ["view", "F"], ["add"], ["load", "v1"]]
    if draw(st.booleans()):
        # a view is saved, everything is changed, and it is loaded again
        n = draw(st.sampled_from(NAMES))
        some = [["slide", i, k, "type", draw(st.integers(-1000, 1000))] for i, g in enumerate(gs) for k in ("move", "rot") if g.get(k)]
        some += [["group", i, draw(st.booleans())] for i, g in enumerate(gs)] + [["world", i] for i in range(len(wp))]
        a, b = draw(st.permutations(some)), draw(st.permutations(some))
        c["ops"] += a[:3] + [["save", n]] + b[:4] + draw(st.lists(actions(gs, wp), max_size=3)) + [["load", n]] + draw(st.sampled_from([[], [["reload"], ["load", n]]]))
    return c


def js(v):
    return json.dumps(v)


def preamble(c):
    t = []
    for g in c["groups"]:
        e = {k: g[k] for k in ("tag", "name", "optional", "default_off", "fixed", "prio")}
        s = ", ".join("'%s': %s" % (k, js(v)) for k, v in e.items())
        if "move" in g:
            s += ", 'move': {'name': 'mm', 'unit': %s, 'amount': %s}" % (js(g["move"]["unit"]), js(g["move"]["amount"]))
        if "rot" in g:
            r = g["rot"]
            s += ", 'rot': {'center': %s, 'unit': %s" % (js(r["center"]), js(r["unit"]))
            if r["amount"]:
                s += ", 'amount': %s, 'name': 'deg'" % js(r["amount"])
            if r["get"] == "const":
                s += ", 'get': function() { return %r; }" % math.radians(r["angle"])
            elif r["get"] == "slider":
                s += ", 'get': function(g) { return g.rot.pos * 1000 * Math.PI / 180; }"
            s += "}"
        if "scale" in g:
            r = g["scale"]
            s += ", 'scale': {'center': %s, 'unit': %s" % (js(r["center"]), js(r["unit"]))
            if r["get"]:
                s += ", 'get': function() { return %s; }" % js(r["mul"])
            s += "}"
        t.append("var group_%s = group[%s] = {%s};" % (g["tag"], g["id"], s))
    names = dict(scaleV="sceneScaleV", scaleC="sceneScaleC", shiftI="sceneShiftI")
    for k, v in c["glob"].items():
        t.append("%s = %s;" % (names[k], js(v)))
    if c["world"]:
        t.append("worldPos = %s;" % js(c["world"]))
    if c["anim"] is not None:
        t.append("anim = %s;" % js(c["anim"]))
    return "\n".join(t) + "\n"


def chunk_text(h):
    e = dict(h)
    e["group"] = {i: True for i in h["group"]}
    return "scene.push(%s);\n" % json.dumps(e)


class Model:
    def __init__(self, c):
        self.c, self.gs = c, c["groups"]
        self.saved = {}
        self.boot()

    def boot(self):
        self.view, self.world, self.cam, self.cam0 = np.eye(4), np.eye(4), None, None
        self.persp, self.deg, self.step, self.name = True, 10, .1, ""
        self.off = {g["id"]: bool(g["optional"] and g["default_off"]) for g in self.gs}
        self.pos = {(k, g["id"]): 0.0 for g in self.gs for k in ("move", "rot")}
        self.anim = self.c["anim"] is not False
        if self.c["world"]:
            self.goto(0)
        self.cam0 = None if self.cam is None else list(self.cam)

    def goto(self, i):
        w = self.c["world"][i]
        if "mat" in w:
            self.world = np.array(w["mat"], float).reshape(4, 4).T
        if "view" in w:
            self.view = np.array(w["view"], float).reshape(4, 4).T
        if "cam" in w:
            self.cam = list(w["cam"])

    def keep(self):
        return copy.deepcopy({k: getattr(self, k) for k in ("view", "world", "cam", "persp", "deg", "step", "off", "pos")})

    def order(self):
        return sorted(self.gs, key=lambda g: int(g["id"]))

    def shown(self, group):
        on = off = -1
        for g in self.gs:
            if g["id"] in group:
                if self.off[g["id"]]:
                    off = max(off, g["prio"])
                else:
                    on = max(on, g["prio"])
        return off <= on

    def fixed(self, group):
        return any(g["fixed"] for g in self.gs if g["id"] in group)

    def mv(self, group, xform):
        m = np.eye(4)
        if not self.fixed(group):
            m = M4(t=[-x for x in self.cam]) @ self.view
        m = m @ self.world
        for g in self.order():
            if g["id"] not in group:
                continue
            if "move" in g:
                m = m @ M4(t=np.array(g["move"]["unit"]) * self.pos["move", g["id"]] / 1000)
            if "rot" in g and g["rot"]["get"]:
                r = g["rot"]
                a = math.radians(r["angle"] if r["get"] == "const" else self.pos["rot", g["id"]])
                m = m @ M4(t=r["center"]) @ rot(r["unit"], a) @ M4(t=[-x for x in r["center"]])
            if "scale" in g and g["scale"]["get"]:
                r = g["scale"]
                m = m @ M4(t=r["center"]) @ np.diag([1 + (r["mul"] - 1) * u for u in r["unit"]] + [1.0]) @ M4(t=[-x for x in r["center"]])
        if xform is not None:
            m = m @ np.array(xform, float).reshape(4, 4).T
        return m

    def axis(self):
        return np.linalg.inv(self.view)[:2, 3]

    def turnz(self, a):
        x, y = self.axis()
        self.view = self.view @ M4(t=(x, y, 0)) @ rot([0, 0, 1], a) @ M4(t=(-x, -y, 0))

    def mid(self, d, k):
        self.view = M4(t=[-x * k for x in d]) @ self.view


def plan(m, op, chunks):
    """Actions for the page and the change of the model; returns (page ops, None | relation to be checked)."""
    k = op[0]
    page, rel = [], None
    if k == "view":
        page.append(["button", "Reset", op[1]])
        m.view, m.cam, m.anim = M4(VIEWS[op[1]]), list(m.cam0), False
    elif k == "turn":
        page.append(["button", "Rotate", op[1]])
        m.anim = False
        a = math.radians(m.deg)
        if op[1] in "←→":
            m.turnz(a if op[1] == "→" else -a)
        else:
            ax, s = {"↑": ([1, 0, 0], -1), "↓": ([1, 0, 0], 1), "↷": ([0, 0, 1], -1), "↶": ([0, 0, 1], 1)}[op[1]]
            m.view = rot(ax, s * a) @ m.view
    elif k == "deg":
        page.append(["button", "", "%g°" % op[1]] if op[2] == "button" else ["edit", "turnDeg", "%g" % op[1]])
        m.deg = op[1]
    elif k == "center":
        page.append(["button", "Center", op[1]])
        m.mid(CENTER[op[1]], m.step)
    elif k == "step":
        page.append(["button", "", {1: "mm", 10: "cm", 100: "dm"}[op[1]]] if op[2] == "button" else ["edit", "camStep", "%g" % op[1]])
        m.step = op[1] / 1000
    elif k == "persp":
        page.append(["check", "togglePersp", op[1]])
        m.persp = op[1]
    elif k == "key":
        page += [["mouse", "mouseover", {}], ["key", "keydown", {"key": op[1]}]]
        m.mid(KEYS[op[1]], m.step)
    elif k == "zoom":
        page += [["mouse", "mouseover", {}], ["key", "keypress", {"charCode": ord(op[1])}]]
        m.cam[2] *= 1 - m.step if op[1] == "+" else 1 + m.step
    elif k == "drag":
        b, sh, dx, dy, inside = op[1:]
        ev = dict(buttons=b, shiftKey=sh)
        p = [(400, 300), (400 + dx // 2, 300 + dy // 2), (400 + dx, 300 + dy)]
        page += [["mouse", "mousedown" if inside else "mousemove", dict(ev, clientX=p[0][0], clientY=p[0][1])]] if inside else []
        if not inside:      # button was pressed outside of the canvas; the first move only takes the position
            page += [["mouse", "mousedown", dict(ev, clientX=p[0][0], clientY=p[0][1], buttons=0)], ["mouse", "mouseup", {}]]
        page += [["mouse", "mousemove", dict(ev, clientX=x, clientY=y)] for x, y in p[1:]]
        rel = ("drag", b, sh, dx, dy, page + [["frame"]] + [["mouse", "mousemove", dict(ev, clientX=x, clientY=y)] for x, y in p[1::-1]]
               + [["mouse", "mouseup", {}]])
        page = []
        m.anim = False
    elif k == "group":
        g = m.gs[op[1]]
        if not g["optional"]:
            return None, None
        page.append(["check", "id-%s-check" % g["id"], op[2]])
        m.off[g["id"]] = not op[2]
    elif k == "slide":
        g = m.gs[op[1]]
        d = g.get(op[2])
        if not d or not d.get("amount"):
            return None, None
        ident = ("rot-" if op[2] == "rot" else "") + g["id"]
        mm = d["amount"] * 1000
        if op[3] == "type":
            v = round(mm * op[4] / 1000, 1)
            page.append(["edit", "id-%s-pos" % ident, "%g" % v])
        else:
            i = (op[4] + 1000) // 667
            v = [-mm, 0, mm][i]
            page.append(["edit", "id-%s-pos" % ident, ["-", "0", "+"][i]])
        m.pos[op[2], g["id"]] = v
    elif k == "world":
        w = m.c["world"][op[1]]
        if not w["name"]:
            return None, None
        page.append(["button", "worldPos", w["name"]])
        m.goto(op[1])
    elif k == "save":
        page += [["edit", "posName", op[1]], ["button", "Cookie:", "Set"]]
        m.saved[op[1]] = m.keep()
        m.name = op[1]
    elif k == "add":
        n = m.name
        d = n
        while d and d[-1].isdigit():
            d = d[:-1]
        i = int(n[len(d):] or 0) or 1
        while d + str(i) in m.saved:
            i += 1
        page += [["button", "Cookie:", "Add"]]
        m.name = d + str(i)
        m.saved[m.name] = m.keep()
    elif k == "del":
        if op[1] not in m.saved:
            return None, None
        page += [["edit", "posName", op[1]], ["button", "Cookie:", "Del"]]
        del m.saved[op[1]]
        m.name = op[1]
    elif k == "load":
        if op[1] not in m.saved:
            if not m.saved:
                return None, None
            op = [k, sorted(m.saved)[0]]
        page += [["button", "loadPos", op[1]]]
        for a, b in copy.deepcopy(m.saved[op[1]]).items():
            setattr(m, a, b)
        m.name, m.anim = op[1], False
    elif k == "reload":
        page += [["reload"]]
        m.boot()
    elif k == "anim":
        page += [["check", "toggleAnim", True]]
        m.anim = True
    return page, rel


def rigidity(V, what):
    if not np.isfinite(V).all() or abs(V[:3, :3] @ V[:3, :3].T - np.eye(3)).max() > 1e-4 or np.linalg.det(V[:3, :3]) < 0 \
            or abs(V[3] - [0, 0, 0, 1]).max() > 1e-6:
        raise Violation("%s: the view is no rigid motion: %s" % (what, np.round(V, 6).tolist()))


def node(ctx, html, ops):
    p = subprocess.run(["node", os.path.join(VERIF, "shim", "viewer.js")], input=json.dumps(dict(html=html, ops=ops)).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        raise RuntimeError("node: " + p.stderr.decode("utf8", "replace")[-800:])
    r = json.loads(p.stdout)
    if r["error"]:
        raise Violation("the page fails: " + r["error"][:700])
    if r["alerts"]:
        raise Violation("the page shows an alert: " + r["alerts"][0][:300])
    return r


def copyaux(ctx, args):
    e = dict(os.environ, pkgdatadir=os.path.join(build.REPO, "share"))
    return subprocess.run(["sh", os.path.join(build.REPO, "script", "hob3l-js-copy-aux.in")] + args, cwd=ctx.scratch, env=e, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)


def same(a, b, tol):
    a, b = np.array(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.isfinite(a).all()) and bool((abs(a - b) <= tol).all())


def run(case, ctx):
    # make the JavaScript file
    text, chunks = [preamble(case)], []
    mine = "".join(chunk_text(h) for h in case["hand"])
    hob = ""
    hc = []
    for h in case["hand"]:
        sv, sc, si = (h.get(k, case["glob"][k]) for k in ("scaleV", "scaleC", "shiftI"))
        idx = np.cumsum(np.array(h["index"]) - si)
        hc.append(dict(group=h["group"], xform=h.get("xform"), v=(np.array(h["vertex"], float) / sv).reshape(-1, 3)[idx],
                       n=(np.array(h["normal"], float) / sv).reshape(-1, 3)[idx], c=(np.array(h["color"], float) / sc).reshape(-1, 4)[idx]))
    oc = []
    if case["hob"]:
        a, _ = gen.outargs(case["hob"])
        ctx.write("in.scad", scad.program(case["hob"]["nodes"]))
        r = ctx.hob3l(["in.scad", "-o", "in.js"] + a + ["--js-group=" + g for g in case["hob"]["group"]], outs=["in.js"])
        if r.rc != 0 or r.files["in.js"] is None:
            raise Violation("valid model is not converted: status %d, %s" % (r.rc, r.err.decode("latin1")[:400]))
        hob = r.files["in.js"].decode("ascii")
        for ch in out.js(r.files["in.js"]):
            oc.append(dict(group=case["hob"]["group"], xform=None, v=ch["v"].reshape(-1, 3) / 1000, n=ch["n"].reshape(-1, 3), c=ch["color"].reshape(-1, 4)))
    if case["first"]:
        text += [mine, hob]
        chunks = hc + oc
    else:
        text += [hob, mine]
        chunks = oc + hc
    rel = os.path.join(case["sub"], case["base"] + ".js")
    ctx.write(rel, "".join(text))
    subprocess.run(["rm", "-rf", ctx.path(os.path.join(case["sub"], "gl-matrix"))])
    p = copyaux(ctx, [rel])
    if p.returncode != 0:
        raise Violation("hob3l-js-copy-aux fails: status %d, %s" % (p.returncode, p.stderr.decode("latin1")[:300]))
    if gzip.open(ctx.path(rel + ".gz")).read() != "".join(text).encode():
        raise Violation("the .js.gz file is not the .js file compressed")
    html = ctx.path(rel[:-3] + (".html" if case["remote"] else ".local.html"))
    # the history
    m = Model(case)
    page, marks = [["frame", True]], []
    marks.append(("first", None, None))
    nops = 0
    full = []
    states = []

    def state():
        return m.keep(), m.anim

    # the camera's default distance is read off the first frame, so plan in two passes
    probe = None
    if m.cam is None or (any(o[0] == "reload" for o in case["ops"])):
        r = node(ctx, html, [["frame", True]])
        probe = r["frames"][0]
        d = None
        if probe:
            i = next((i for i, ch in enumerate([x for x in chunks if m.shown(x["group"]) and not (m.fixed(x["group"]))])), None)
        if m.cam is None:
            vis = [x for x in chunks if m.shown(x["group"]) and not m.fixed(x["group"])]
            if not vis or not probe:
                d = 1.2
            else:
                m.cam = [0, 0, 0]
                e = m.mv(vis[0]["group"], vis[0]["xform"])
                if len(probe) != len(vis):
                    raise Violation("%d chunks drawn, expected %d" % (len(probe), len(vis)))
                G = np.array(probe[0]["mv"], float).reshape(4, 4).T
                d = float(-(G @ np.linalg.inv(e))[2, 3])
                if not d > 0:
                    raise Violation("the default camera is at distance %r" % d)
            m.default = [0, 0, d]
            m.cam, m.cam0 = list(m.default), list(m.default)
    boot = m.boot

    def reboot():
        boot()
        if m.cam is None:
            m.cam, m.cam0 = list(m.default), list(m.default)
    m.boot = reboot
    last = None

    def judge(draws, what, data, tol):
        nonlocal last
        if draws is None:
            draws = last
        last = draws
        if draws is None:
            raise Violation("%s: nothing was ever drawn" % what)
        allc = [x for x in chunks if m.shown(x["group"])]
        exp = [x for x in allc if not (m.persp and m.fixed(x["group"]))]
        if len(draws) != len(exp):
            exp = allc
        if len(draws) != len(exp):
            raise Violation("%s: %d chunks are drawn, expected %d" % (what, len(draws), len(exp)))
        for i, (d, x) in enumerate(zip(draws, exp)):
            w = "%s, chunk %d" % (what, i)
            E = m.mv(x["group"], x["xform"])
            G = np.array(d["mv"], float).reshape(4, 4).T
            t = tol * max(1, abs(E).max())
            if not same(G, E, t):
                raise Violation("%s: transformation %s, expected %s" % (w, np.round(G, 6).tolist(), np.round(E, 6).tolist()))
            N = np.array(d["nm"], float).reshape(4, 4)
            if not same(N[:3, :3], np.linalg.inv(E)[:3, :3], 50 * t):
                raise Violation("%s: normal matrix %s" % (w, np.round(N, 5).tolist()))
            P = np.array(d["pm"], float).reshape(4, 4).T
            W, H = d["view"][2:]
            if d["view"][:2] != [0, 0] or not np.isfinite(P).all() or abs(P[0, 0] * W - P[1, 1] * H) > 1e-4 * abs(P[1, 1] * H) or P[0, 0] <= 0 \
                    or (abs(P[3, 2]) > .5) != m.persp or abs(P - np.diag(np.diag(P)))[:2].max() > 1e-6:
                raise Violation("%s: projection matrix %s in view %s, %s" % (w, np.round(P, 5).tolist(), d["view"], "perspective" if m.persp else "parallel"))
            if data and "v" in d:
                if len(d["v"]) != len(x["v"]):
                    raise Violation("%s: %d corners drawn, expected %d" % (w, len(d["v"]), len(x["v"])))
                for k, n in (("v", "position"), ("n", "normal"), ("c", "colour")):
                    e = x[k]
                    if not same(d[k], e, 2e-7 * abs(e) + 1e-12):
                        g = np.array(d[k], float)
                        j = int(np.argmax(abs(g - e).max(axis=1)))
                        raise Violation("%s: %s of corner %d is %s, expected %s" % (w, n, j, g[j].tolist(), e[j].tolist()))

    # play: one node process per history; relations (drags) read the view off the frames
    script, todo = [["frame", True]], [("frame", None, copy.deepcopy(m.__dict__), "first frame", True, 0)]
    n, acts = 0, []
    anims = m.anim
    for op in case["ops"]:
        before = copy.deepcopy({k: m.__dict__[k] for k in ("view", "world", "cam", "persp", "deg", "step", "off", "pos", "anim", "name", "cam0", "saved")})
        if op[0] == "anim":
            op = ["anim"]
        a, relation = plan(m, op, chunks)
        if a is None:
            continue
        n += 1
        what = "after %s" % (acts + [op])
        acts.append(op)
        if before["anim"] and op[0] not in ("view", "load", "reload"):
            # an animated view is not known: stop it by a standard view first
            m.__dict__.update(copy.deepcopy(before))
            pre, _ = plan(m, ["view", "⊤"], chunks)
            script += pre
            a, relation = plan(m, op, chunks)
        if relation:
            script += relation[5][:relation[5].index(["frame"]) + 1]
            todo.append(("drag", relation, copy.deepcopy(m.__dict__), what, False, n))
            if relation[1] in (3, 4) and not relation[2]:       # zooming by steps is not undone by the same steps
                script += plan(m, ["view", "⊤"], chunks)[0] + [["mouse", "mouseup", {}], ["frame"]]
                todo.append(("frame", None, copy.deepcopy(m.__dict__), what + " and reset", False, n))
                continue
            script += relation[5][relation[5].index(["frame"]) + 1:] + [["frame"]]
            todo.append(("frame", None, copy.deepcopy(m.__dict__), what + " and back", False, n))
            continue
        script += a
        if m.anim:
            # turned by itself from the second frame on
            script += [["frame"]] * 3
            snap = copy.deepcopy(m.__dict__)
            todo += [("frame" if op[0] == "reload" else "anim", None, snap, what, False, n), ("anim", None, snap, what, False, n), ("anim", None, snap, what, False, n)]
            continue
        script += [["frame", True]]
        todo.append(("frame", None, copy.deepcopy(m.__dict__), what, True, n))
    r = node(ctx, html, script)
    want = [os.path.basename(rel) + (".gz" if case["remote"] else "")]
    if [x for x in r["loaded"] if not x.startswith("gl-matrix/")][:1] != want:
        raise Violation("the page loads %s, expected %s" % (r["loaded"], want))
    if len(r["frames"]) != len(todo):
        raise RuntimeError("frames")
    drawn = False
    for got, buttons, (kind, relation, snap, what, data, k) in zip(r["frames"], r["saved"], todo):
        m.__dict__.update(snap)
        if sorted(buttons) != sorted(m.saved):
            raise Violation("%s: the saved views offered are %s, expected %s" % (what, buttons, sorted(m.saved)))
        tol = 1e-5 * (k + 2)
        if got:
            drawn = True
        if kind == "frame":
            judge(got, what, data, tol)
            continue
        last = got if got is not None else last
        free = [(i, x) for i, x in enumerate([x for x in chunks if m.shown(x["group"]) and not (m.persp and m.fixed(x["group"]))]) if not m.fixed(x["group"])]
        if got is None or not free or len(got) <= free[0][0]:
            continue
        i, x = free[0]
        v0, cam0 = m.view.copy(), list(m.cam)
        m.view, m.cam = np.eye(4), [0, 0, 0]
        rest = m.mv(x["group"], x["xform"])
        m.view, m.cam = v0, cam0
        G = np.array(got[i]["mv"], float).reshape(4, 4).T @ np.linalg.inv(rest)      # T(-cam) view
        rigidity(G, what)
        if kind == "anim":
            continue
        _, b, sh, dx, dy, _ = relation
        V = M4(t=cam0) @ G
        D = G @ np.linalg.inv(M4(t=[-c for c in cam0]) @ v0)      # in camera space
        if sh or b != 1:
            # pans and zooms: the view keeps its direction
            if not same(D[:3, :3], np.eye(3), 10 * tol):
                raise Violation("%s: a drag with button %d turns the view" % (what, b))
            zoom = (sh and b == 1) or (not sh and b in (3, 4))
            if zoom and abs(D[:2, 3]).max() > 10 * tol or not zoom and abs(D[2, 3]) > 10 * tol:
                raise Violation("%s: a drag with button %d moves by %s" % (what, b, D[:3, 3].tolist()))
            if not sh and b in (2, 5) and (D[0, 3] * dx < -tol or D[1, 3] * dy > tol):
                raise Violation("%s: dragging by (%d,%d) moves the scene by %s" % (what, dx, dy, D[:3, 3].tolist()))
        elif dx == 0 or dy == 0:
            ax = np.array([1, 0, 0]) if dx == 0 else M4(t=(0, 0, 0))[:3, :3] @ v0[:3, :3] @ np.array([0, 0, 1])
            if not same(D[:3, :3] @ ax, ax, 10 * tol):
                raise Violation("%s: dragging by (%d,%d) does not turn around the expected axis" % (what, dx, dy))
    ctx.nt(drawn and n >= 2)
    ctx.label("remote" if case["remote"] else "local", "groups-%d" % len(case["groups"]), *sorted({"op-" + o[0] for o in acts}))


@st.composite
def badargs(draw):
    return dict(kind=draw(st.sampled_from(["none", "option", "missing", "empty", "help"])), name=draw(st.sampled_from(["-x", "--foo", "-", "--js", "--helper"])))


def run_bad(case, ctx):
    k = case["kind"]
    a = {"none": [], "option": [case["name"]], "missing": ["nix.js"], "empty": [""], "help": ["--help"]}[k]
    before = sorted(os.listdir(ctx.scratch))
    p = copyaux(ctx, a)
    if (p.returncode == 0) != (k == "help"):
        raise Violation("hob3l-js-copy-aux %s: status %d" % (a, p.returncode))
    if k != "help" and not p.stderr.strip():
        raise Violation("hob3l-js-copy-aux %s: no message" % a)
    if sorted(os.listdir(ctx.scratch)) != before:
        raise Violation("hob3l-js-copy-aux %s: writes files" % a)
    ctx.nt(True)
    ctx.label(k)


PARTS = [Part("history", cases, run, quick=1500), Part("refuse", badargs, run_bad, quick=40)]
