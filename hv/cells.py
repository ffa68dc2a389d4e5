"""Trees of boxes or rectangles on a lattice, with up to hundreds of operands: everything touches, coincides or overlaps.
The reference is the set of unit cells; each of them is judged.  A slice through a level face shows what is above it."""
import random
import hypothesis.strategies as st
import numpy as np
from . import geo, geom, scad
from .run import Violation


@st.composite
def cases(draw, dim):
    return dict(seed=draw(st.integers(0, 10**6)), depth=draw(st.integers(1, 6)), wide=draw(st.sampled_from([2, 3, 4, 8, 13, 30])), n=draw(st.integers(2, 9)),
                most=draw(st.sampled_from([6, 20, 60, 200])), k=draw(st.integers(0, 5)), sim=draw(st.sampled_from([None, None, None, 2, 3, 5, 7])), face=draw(st.booleans()),
                fmt=draw(st.sampled_from(["stl", "scad", "stlb"])))


class Tree:
    def __init__(self, case, dim):
        self.rng, self.N, self.left, self.leaves, self.dim = random.Random(case["seed"]), case["n"], case["most"], 0, dim
        self.wide = case["wide"]
        c = np.arange(-self.N, self.N) + .5
        self.C = np.stack(np.meshgrid(*[c if i < dim else np.array([.5]) for i in range(3)], indexing="ij"), axis=-1).reshape(-1, 3)

    def box(self, q, lo, sz):
        a = np.ones(len(q), bool)
        for i in range(len(lo)):
            a &= (q[:, i] > lo[i]) & (q[:, i] < lo[i] + sz[i])
        return a

    def extent(self):
        r, N = self.rng, self.N
        lo = [r.randint(-N, N - 1) for _ in range(self.dim)]
        sz = [r.randint(1, r.choice([2, max(2, N), 2 * N])) for _ in range(self.dim)]
        if self.dim == 3 and r.random() < .7:
            lo[2], sz[2] = -r.randint(0, N), 2 * N
        return lo, sz

    def leaf(self, M):
        r = self.rng
        q = (self.C - M[:, 3]) @ M[:, :3]          # orthogonal: the inverse is the transpose
        self.leaves += 1
        self.left -= 1
        if self.dim == 2 and r.random() < .3:
            # several rectangular paths, which are combined by XOR
            pts, paths, a = [], [], np.zeros(len(q), bool)
            for _ in range(r.randint(1, 4)):
                lo, sz = self.extent()
                c = [[lo[0], lo[1]], [lo[0] + sz[0], lo[1]], [lo[0] + sz[0], lo[1] + sz[1]], [lo[0], lo[1] + sz[1]]]
                if any(v in pts for v in c):
                    continue
                paths.append([len(pts) + i for i in r.choice([[0, 1, 2, 3], [3, 2, 1, 0], [1, 2, 3, 0]])])
                pts += c
                a ^= self.box(q, lo, sz)
            return ["polygon", {"points": pts, "paths": paths}], a
        lo, sz = self.extent()
        return ["translate", {"v": lo}, [["cube" if self.dim == 3 else "square", {"size": sz}]]], self.box(q, lo, sz)

    def node(self, d, M=np.eye(4)[:3]):
        r = self.rng
        if self.dim == 2 and r.random() < .12:
            self.dim = 3
            n, a = self.node(min(d, 2), M)
            self.dim = 2
            return ["projection", {"cut": True}, [n]], a
        if d <= 0 or self.left <= 1 or r.random() < .1:
            return self.leaf(M)
        k = r.choice(["union", "union", "union", "difference", "difference", "difference", "intersection", "rotate", "mirror", "translate", "group"])
        if k in ("rotate", "mirror", "translate"):
            v = [0, 0, 0]
            if k == "translate":
                for i in range(self.dim):
                    v[i] = r.randint(-2, 2)
                T, p = geom.m_translate(v), {"v": v}
            elif k == "mirror":
                v[r.randint(0, self.dim - 1)] = r.choice([1, -1])
                T, p = geom.m_mirror(v), {"v": v}
            else:
                for i in range(0 if self.dim == 3 else 2, 3):
                    v[i] = r.choice([0, 90, 180, 270, -90])
                T, p = geom.m_rot_xyz(v), {"a": v}
            T = np.vstack([np.array(T, float)[:3, :4], [0, 0, 0, 1]])
            n, a = self.node(d - 1, (np.vstack([M, [0, 0, 0, 1]]) @ T)[:3])
            return [k, p, [n]], a
        kids, res = [], None
        for i in range(r.randint(2, 3 if k == "intersection" else self.wide)):
            if i and self.left <= 0:
                break
            n, a = self.node(d - 1, M)
            kids.append(n)
            if res is None:
                res = a
            elif k in ("union", "group"):
                res = res | a
            elif k == "difference":
                res = res & ~a
            else:
                res = res & a
        return [k, {}, kids], res


def run(case, ctx, dim):
    b = Tree(case, dim)
    n, a = b.node(case["depth"])
    N = case["n"]
    z = cell = (case["k"] % (2 * N)) - N + .5 if dim == 3 else .5
    if dim == 3 and case.get("face"):
        z -= .5
    if dim == 2:
        n = ["linear_extrude", {"height": 1}, [n]]
    args = ["-q", "--z=%r" % z]
    if case["sim"]:
        args.append("--max-simultaneous=%d" % case["sim"])
    segs = geo.at(geo.run_layers(ctx, scad.program([n]), args, case["fmt"]), z)
    if len(segs) and np.abs(segs - np.rint(segs)).max() > 1e-6:
        raise Violation("rectangles with integer corners, but a corner of the layer is not an integer")
    m = np.abs(b.C[:, 2] - cell) < .1
    # off the middle: no line through two lattice points, as an inner edge of the triangulation may be, passes near such a point
    P = b.C[m][:, :2] + [1000 / 1000003, 1 / 1000003]
    got = geom.parity(segs, P) if len(segs) else np.zeros(len(P), bool)
    want = a[m]
    if (got != want).any():
        i = int(np.argmax(got != want))
        raise Violation("layer z=%g: the unit square around (%.1f,%.1f) is %s the model, but %s the printed layer (%d of %d squares differ)"
                        % (z, P[i][0], P[i][1], "inside" if want[i] else "outside", "inside" if got[i] else "outside", (got != want).sum(), len(P)))
    ctx.nt(b.leaves >= 2 and want.any())
    ctx.label("operands-%s" % ("2-9" if b.leaves < 10 else "10-49" if b.leaves < 50 else "50+"))
