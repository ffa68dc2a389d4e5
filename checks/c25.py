"""C25: the matrix and vector library obeys its algebra."""
import itertools, math, re, struct
import numpy as np
from hypothesis import strategies as st
from hv.run import Part, Violation, Discard
from hv.matfn import FN, SIZE

PROP = "C25"
TECHNIQUE = ("property-based testing: every function of the matrix library (340 of them, called in a shim) "
             "on generated operands against reference formulas computed with numpy, with error bounds taken from the "
             "absolute value of the terms; the same call with the result aliasing an operand must agree bit by bit")
NOTE = "operands of ordinary magnitude; results within 2^-15 of an epsilon comparison's threshold are not judged"
RULE = ("non-trivial = the operands include a non-singular matrix that is neither diagonal nor orthogonal, and a rotation "
        "about an axis that is not a coordinate axis")
ASSUMPTIONS = ["the documented epsilon (2^-15) defines 'equal' and 'length 0' in this library",
               "arguments documented as unit vectors are passed as unit vectors"]

EPS = 2.0**-15
SQR = EPS*EPS
U = 1e-13
DIM = lambda t: int(re.search(r"\d", t)[0])


def perm(a):
    """permanent of |a|"""
    n = len(a)
    return sum(math.prod(abs(a[i][p[i]]) for i in range(n)) for p in itertools.permutations(range(n)))


def det(a):
    n = len(a)
    s = []
    for p in itertools.permutations(range(n)):
        inv = sum(p[i] < p[j] for i in range(n) for j in range(i))
        s.append((-1 if inv & 1 else 1)*math.prod(float(a[i][p[i]]) for i in range(n)))
    return math.fsum(s)


def minor(a, i, j):
    return np.delete(np.delete(a, i, 0), j, 1)


def inverse(a):
    """→ (inverse, error bound matrix, determinant)"""
    n = len(a)
    d, pd = det(a), perm(a)
    if d == 0:
        return None, None, 0.0
    r = np.zeros((n, n))
    e = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            m = minor(a, i, j)
            r[j, i] = (-1)**(i+j)*det(m)/d
            e[j, i] = U*(perm(m)/abs(d) + abs(r[j, i])*pd/abs(d)) + 1e-300
    return r, e, d


def hom(t, v):
    """array of doubles → (n or homogeneous matrix)"""
    n = DIM(t)
    v = np.asarray(v, float)
    if t.endswith("w"):
        h = np.eye(n+1)
        h[:n, :n] = v[:n*n].reshape(n, n)
        h[:n, n] = v[n*n:]
        return h
    return v.reshape(n, n)


def flat(t, h):
    n = DIM(t)
    if t.endswith("w"):
        return np.concatenate([h[:n, :n].ravel(), h[:n, n]])
    return np.asarray(h, float).ravel()


def emb(t, h):
    """a matrix of dimension k put into the corner of type t's (homogeneous) matrix"""
    n = DIM(t) + (1 if t.endswith("w") else 0)
    r = np.eye(n)
    k = len(h)
    r[:k, :k] = h
    return r


def embw(t, v):
    """translation by v"""
    n = DIM(t) + (1 if t.endswith("w") else 0)
    r = np.eye(n)
    r[:len(v), n-1 if len(v) == n-1 else len(v)] = v
    return r


def rod(u, s, c):
    x, y, z = u
    d = 1-c
    return np.array([[x*x*d+c, x*y*d-z*s, x*z*d+y*s], [x*y*d+z*s, y*y*d+c, y*z*d-x*s], [x*z*d-y*s, y*z*d+x*s, z*z*d+c]])


def mir(u):
    u = np.asarray(u)
    return np.eye(len(u)) - 2*np.outer(u, u)


class Pool:
    def __init__(self, case):
        self.v = [np.array(x, float) for x in case["v"]]
        self.m = [np.array(x, float).reshape(4, 4) for x in case["m"]]
        self.s = case["s"]
        self.k = case["k"]
        self.i = case["i"]
        self.cache = {}

    def vec(self, n, j):
        return self.v[j % len(self.v)][:n].copy()

    def unit(self, n, j):
        v = self.vec(n, j)
        l = math.sqrt(math.fsum(x*x for x in v))
        if l < 1e-3:
            v = np.zeros(n)
            v[self.i[0] % n] = 1
            return v
        return v/l

    def mat(self, t, j):
        """an operand of matrix type t without inverse, as a homogeneous matrix"""
        n = DIM(t)
        m = self.m[j % len(self.m)]
        if t.endswith("w"):
            h = np.eye(n+1)
            h[:n, :n] = m[:n, :n]
            h[:n, n] = m[:n, 3] if n < 4 else 0
            return h
        return m[:n, :n].copy()

    def sc(self, j):
        a = self.k[j % len(self.k)]
        q = {0: (0., 1.), 90: (1., 0.), 180: (0., -1.), 270: (-1., 0.)}.get(a % 360)
        return np.array(q if q else (math.sin(math.radians(a)), math.cos(math.radians(a))))

    def inv(self, t, j):
        key = (t, j)
        if key not in self.cache:
            self.cache[key] = inverse(self.mat(t, j))
        return self.cache[key]


class Call:
    def __init__(self, name, args):
        self.name, self.args = name, args      # args: list of arrays / floats / ints / None


def far(x, y, lo=EPS/2, hi=EPS*2):
    """the comparison of x and y with the epsilon is not borderline"""
    return not (lo < abs(x-y) < hi)


class Ref:
    """Reference: builds the operands of function `name` from the pool, and then judges the result."""

    def __init__(self, pool):
        self.p = pool

    # -------- operands
    def args(self, name, kinds):
        p = self.p
        out, vi, mi, si = [], 0, 0, 0
        base = name[3:]
        for k, (t, o) in enumerate(kinds):
            if o:
                out.append(np.full(SIZE[t], 777.25))
                if t.endswith("minmax"):
                    n = DIM(t)
                    a, b = p.vec(n, 2), p.vec(n, 3)
                    out[-1] = np.concatenate([np.minimum(a, b), np.maximum(a, b)])
                continue
            if t == "d":
                out.append(float(p.s[si % len(p.s)])); si += 1
            elif t == "z":
                n = DIM(base)
                i = p.i[0] % n
                j = p.i[1] % (n-1)
                j += j >= i
                out.append((i, j)[si]); si += 1
            elif t.endswith("minmax"):
                n = DIM(t)
                a, b = p.vec(n, vi), p.vec(n, vi+1)
                if p.i[vi % 4] & 3:
                    a, b = np.minimum(a, b), np.maximum(a, b)
                out.append(np.concatenate([a, b])); vi += 2
            elif t.startswith("vec"):
                n = DIM(t)
                if t == "vec2" and re.search(r"rot(_|$)", base) and "into" not in base:
                    out.append(p.sc(0))
                elif ("unit" in base and base != f"vec{n}_unit" and not base.endswith("unit_x")) or (base == "vec2_nearest" and k == 2):
                    out.append(p.unit(n, vi)); vi += 1
                else:
                    out.append(p.vec(n, vi)); vi += 1
            else:
                bt = t.rstrip("i")
                h = p.mat(bt, mi)
                if re.search(r"_from_mat", base) and base.startswith("mat2w") and t.startswith("mat3w") or base.startswith(("mat3w_from_mat4", "mat2w_from_mat3", "mat3wi_from_mat4i", "mat2wi_from_mat3i")):
                    h = self.embeddable(base, bt, h)
                if t.endswith("i"):
                    r, e, d = p.inv(bt, mi) if not "_from_mat" in base else inverse(h)
                    if r is None or abs(d) < 1e-3 or np.max(e) > 1e-7 or np.max(abs(r)) > 1e4:
                        return None
                    out.append(np.concatenate([flat(bt, h), flat(bt, r), [d]]))
                else:
                    out.append(flat(bt, h))
                mi += 1
        return out

    def embeddable(self, base, bt, h):
        h = h.copy()
        f = self.p.i[2]
        if bt in ("mat4", "mat3"):
            n = DIM(bt)
            h[n-1, :] = 0
            h[n-1, n-1] = 1
            if f & 3 == 3:
                h[n-1, self.p.i[0] % n] += 1.5
        else:       # mat3w → mat2w
            h[2, :] = 0
            h[:, 2] = 0
            h[2, 2] = 1
            if f & 3 == 3:
                q = [(2, 0), (2, 1), (2, 2), (0, 2), (1, 2), (2, 3)][self.p.i[0] % 6]
                h[q] += 1.5
        return h

    # -------- judgement
    def near(self, got, exp, tol, what):
        got, exp, tol = np.atleast_1d(np.asarray(got, float)), np.atleast_1d(np.asarray(exp, float)), np.asarray(tol, float)
        bad = ~(np.abs(got-exp) <= tol)
        if np.any(bad):
            raise Violation(f"{self.name}: {what} is {got.tolist()}, expected {exp.tolist()} "
                            f"(operands {[a.tolist() if hasattr(a, 'tolist') else a for a in self.a]})")

    def same(self, got, exp, what="the result"):
        if got != exp:
            raise Violation(f"{self.name}: {what} is {got}, expected {exp} "
                            f"(operands {[a.tolist() if hasattr(a, 'tolist') else a for a in self.a]})")

    def judge(self, name, ret, kinds, args, r, outs):
        self.name, self.a = name, args
        b = name[3:]
        m = re.match(r"(vec|mat|dim)(\d)(wi|w|i)?_(.*)", b)
        if m and m[1] == "vec":
            return self.vec(int(m[2]), m[3] or "", m[4], ret, args, r, outs)
        if m and m[1] == "mat":
            return self.mat(f"mat{m[2]}{m[3] or ''}", m[4], ret, kinds, args, r, outs)
        if m:
            o = np.array(outs)
            if m[4] == "rot_unit":
                return self.near(o, rod(args[3], *args[4]), U, "the rotation")
            if m[4] == "mirror_unit":
                return self.near(o, mir(args[-1]), U, "the mirror matrix")
            return self.intoz(o, args[3])
        x = args
        if b == "e_cmp":
            return self.same(r, 0 if abs(x[1]-x[2]) < x[0] else -1 if x[1] < x[2] else 1)
        if b in ("cmp", "sqr_cmp"):
            e = EPS if b == "cmp" else SQR
            return self.same(r, 0 if abs(x[0]-x[1]) < e else -1 if x[0] < x[1] else 1)
        if b == "div0":
            return self.near(r, 0 if abs(x[1]) < EPS else x[0]/x[1], U*abs(x[0]/x[1]) if x[1] else 0, "the quotient")
        if b in ("t01", "t_pm"):
            d, n = x[2]-x[0], x[1]-x[0]
            t = 0 if abs(d) < EPS else n/d
            return self.near(r, t if b == "t01" else 2*t-1, U*(abs(t)+1), "the index")
        if b in ("sin_deg", "cos_deg", "tan_deg"):
            return self.trig(b, x[0], r)
        if b == "cross_z":
            return self.near(r, x[0]*x[3]-x[1]*x[2], U*(abs(x[0]*x[3])+abs(x[1]*x[2])), "the cross product")
        if b == "normal_z":
            p, q = x[0]*x[3], x[1]*x[2]
            if not far(p, q, SQR-U*(abs(p)+abs(q)), SQR+U*(abs(p)+abs(q))):
                return
            return self.same(r, 0 if abs(p-q) < SQR else -1 if p < q else 1)
        raise AssertionError(name)

    def trig(self, b, a, r):
        def s(a):
            q = {0: 0., 30: .5, 90: 1., 150: .5, 180: 0., 210: -.5, 270: -1., 330: -.5}
            m = math.fmod(a, 360)
            m = m+360 if m < 0 else m
            return (q[m], True) if m in q and a == int(a) else (math.sin(math.radians(math.fmod(a, 360))), False)
        if b == "tan_deg":
            (sn, e1), (cs, e2) = s(a), s(a+90)
            if abs(cs) < 1e-3:
                return
            return self.near(r, sn/cs, 1e-9, "the tangent")
        e, exact = s(a if b == "sin_deg" else a+90)
        if exact:
            return self.same(r, e, f"the exact value at {a!r} degrees")
        if b == "cos_deg":
            e = math.cos(math.radians(math.fmod(a, 360)))
        self.near(r, e, 1e-13, f"the value at {a!r} degrees")

    def vec(self, n, w, f, ret, x, r, outs):
        o = outs[0] if outs else None
        A = abs
        if w == "w":        # vec2w_xform / vec3w_xform
            M = hom(f"mat{n}w", x[1])
            e = M[:n, :n] @ x[2] + M[:n, n]
            return self.near(o, e, U*(abs(M[:n, :n]) @ abs(x[2]) + abs(M[:n, n])) + 1e-300, "the image")
        if f == "xform":
            M = hom(f"mat{n}", x[1])
            return self.near(o, M @ x[2], U*(abs(M) @ abs(x[2])) + 1e-300, "the image")
        if f == "rev":
            return self.near(o, x[1][::-1], 0, "the reversed vector")
        if f == "neg":
            return self.near(o, -x[1], 0, "the vector")
        if f in ("add", "sub", "mulc", "min", "max"):
            e = {"add": x[1]+x[2], "sub": x[1]-x[2], "mulc": x[1]*x[2], "min": np.minimum(x[1], x[2]), "max": np.maximum(x[1], x[2])}[f]
            return self.near(o, e, U*abs(e), "the vector")
        if f == "mul":
            return self.near(o, x[1]*x[2], U*abs(x[1]*x[2]), "the vector")
        if f in ("div", "divc"):
            d = np.full(n, x[2]) if f == "div" else x[2]
            e = np.array([0 if abs(q) < EPS else p/q for p, q in zip(x[1], d)])
            return self.near(o, e, U*abs(e), "the quotient")
        if f == "div_x":
            if x[2] == 0:
                return
            return self.near(o, x[1]/x[2], U*abs(x[1]/x[2]), "the quotient")
        if f == "minmax":
            lo, hi = x[0][:n], x[0][n:]
            return self.near(o, np.concatenate([np.minimum(lo, x[1]), np.maximum(hi, x[1])]), 0, "the box")
        if f == "minmax_valid":
            lo, hi = x[0][:n], x[0][n:]
            return self.same(r, int(all(not (p-q > EPS) for p, q in zip(lo, hi)))) if all(far(p, q) for p, q in zip(lo, hi)) else None
        if f in ("minmax_or", "minmax_and"):
            a, b = (x[1][:n], x[1][n:]), (x[2][:n], x[2][n:])
            if f == "minmax_and":
                return self.near(o, np.concatenate([np.maximum(a[0], b[0]), np.minimum(a[1], b[1])]), 0, "the intersection")
            if not all(far(p, q) for v in (a, b) for p, q in zip(*v)):
                return
            ok = [all(p <= q+EPS for p, q in zip(*v)) for v in (a, b)]
            e = x[2] if not ok[0] else x[1] if not ok[1] else np.concatenate([np.minimum(a[0], b[0]), np.maximum(a[1], b[1])])
            return self.near(o, e, 0, "the union")
        if f == "max_abs_coord":
            return self.near(r, max(abs(x[0])), 0, "the coordinate")
        if f == "has_len0":
            return self.same(r, int(all(abs(c) < EPS for c in x[0])))
        if f in ("has_len1", "has_len0_or_1"):
            l = math.fsum(c*c for c in x[0])
            if not far(l, 1, SQR/4, SQR*4):
                return
            e = abs(l-1) < SQR or (f != "has_len1" and all(abs(c) < EPS for c in x[0]))
            return self.same(r, int(e))
        if f in ("sqr_len", "dot", "len", "sqr_dist", "dist"):
            a = x[0] if f in ("sqr_len", "len", "dot") else x[0]-x[1]
            b = x[1] if f == "dot" else a
            e, t = math.fsum(a*b), U*math.fsum(abs(a*b))
            if f in ("len", "dist"):
                e = math.sqrt(e)
                t = U*e
            return self.near(r, e, t+1e-300, "the value")
        if f in ("unit", "dir", "unit_x"):
            a = x[1] if f != "dir" else x[1]-x[2]
            return self.unit(f, a, np.zeros(n) + 1e-15*(abs(x[1])+(abs(x[2]) if f == "dir" else 0)), ret, r, o)
        if f == "lerp":
            e = x[1] + (x[2]-x[1])*x[3]
            return self.near(o, e, U*(abs(x[1]) + (abs(x[2])+abs(x[1]))*abs(x[3])) + 1e-300, "the point")
        if f in ("lex_cmp", "eq"):
            return self.lex(x[0], x[1], f, r)
        if f in ("cross", "right_cross3", "left_cross3", "normal", "right_normal3", "left_normal3", "normal_x", "right_normal3_x", "left_normal3_x") and n == 3:
            a, b = (x[1], x[2]) if len(x) == 3 else (x[1]-x[2], x[3]-x[2])
            if f.startswith("left"):
                a, b = b, a
            c = np.cross(a, b)
            er = np.array([abs(a[(i+1) % 3]*b[(i+2) % 3]) + abs(a[(i+2) % 3]*b[(i+1) % 3]) for i in range(3)])*U + 1e-300
            if "cross" in f:
                return self.near(o, c, er, "the cross product")
            return self.unit(f, c, er, ret, r, o, (a, b))
        if f == "normal" and n == 2:
            d = x[2]-x[1]
            return self.unit("normal2", np.array([d[1], -d[0]]), 1e-15*(abs(x[1])+abs(x[2]))[::-1], "v", None, o)
        if f == "port":
            d = x[2]-x[1]
            return self.near(o, [d[1], -d[0]], 0, "the vector")
        if f in ("cross_z", "normal_z", "right_cross3_z", "left_cross3_z", "right_normal3_z", "left_normal3_z"):
            a, b = (x[0], x[1]) if len(x) == 2 else (x[0]-x[1], x[2]-x[1])
            if f.startswith("left"):
                a, b = b, a
            p, q = a[0]*b[1], a[1]*b[0]
            t = 10*U*(abs(p)+abs(q))
            if "cross" in f:
                return self.near(r, p-q, t, "the cross product")
            if not far(p, q, SQR-t, SQR+t):
                return
            return self.same(r, 0 if abs(p-q) < SQR else -1 if p < q else 1)
        if f == "in_line":
            a, b = x[1]-x[0], x[2]-x[1]
            e = True
            for i, j in itertools.combinations(range(n), 2):
                p, q = a[i]*b[j], a[j]*b[i]
                t = 10*U*(abs(p)+abs(q))
                if not far(p, q, SQR-t, SQR+t):
                    return
                e = e and abs(p-q) < SQR
            return self.same(r, int(e))
        if f == "nearest":
            a, u, q = x[1:]
            d = math.fsum((q-a)*u)
            return self.near(o, a+u*d, 10*U*(abs(a)+math.fsum(abs(q)+abs(a))), "the nearest point")
        if f in ("angle", "angle3"):
            a, b = (x[0], x[1]) if f == "angle" else (x[0]-x[1], x[2]-x[1])
            if min(max(abs(a)), max(abs(b))) < 1e-6*(1+max(abs(x[0]))):
                return
            e = math.atan2(a[0]*b[1]-a[1]*b[0], a[0]*b[0]+a[1]*b[1])
            if not -math.pi < r <= math.pi:
                raise Violation(f"{self.name}: the angle {r} is out of range ({x})")
            d = abs(r-e)
            if min(d, 2*math.pi-d) > 1e-9:
                raise Violation(f"{self.name}: the angle is {r}, expected {e} ({x})")
            return
        raise AssertionError(self.name)

    def unit(self, f, a, er, ret, r, o, src=None):
        l = math.sqrt(math.fsum(a*a))
        e = math.sqrt(math.fsum(er*er))
        if f.endswith("_x"):
            if l < 1e-150 or e > 1e-4*l:
                return
            self.same(r, 1, "success")
            return self.near(o, a/l, 4*e/l + 1e-14, "the unit vector")
        if src is not None:
            # the normal of two vectors: judged by the angle between them, not by their lengths
            la, lb = (math.sqrt(math.fsum(v*v)) for v in src)
            if min(la, lb) < 2*EPS:
                if min(la, lb) == 0:
                    self.same(r, 0, "success")
                return
            s = l/(la*lb)
            if s < 1e-12 and l < SQR/2:
                self.same(r, 0, "success")
                return
            if s < 1e-3 or e > 1e-4*l:
                return
            self.same(r, 1, "success")
            return self.near(o, a/l, 4*e/l + 1e-14, "the unit normal")
        if abs(l-EPS) < EPS/8:
            return
        ok = l > EPS
        if ret == "b":
            self.same(r, int(ok), "success")
        if ok and e > 1e-4*l:
            return
        self.near(o, a/l if ok else a*0, 4*e/l + 1e-14 if ok else 0, "the unit vector")

    def lex(self, a, b, f, r):
        e = 0
        for p, q in zip(a, b):
            if not far(p, q):
                return
            if abs(p-q) >= EPS:
                e = -1 if p < q else 1
                break
        self.same(r, e if f == "lex_cmp" else int(e == 0))

    def intoz(self, o, v):
        """rows o must rotate the vector v into the positive z axis"""
        l = math.sqrt(math.fsum(np.asarray(v)**2))
        self.near(o @ v, [0, 0, l], max(1e-9, 2*EPS)*l if l else 0, "the image of the vector")
        self.near(o @ o.T, np.eye(3), 4*EPS, "R times its transpose")
        self.near(det(o), 1, 1e-3, "the determinant")

    # -------- matrices
    def full(self, t, got, exp, tol, d=None):
        """judge a matrix (with inverse and determinant) result"""
        bt = t.rstrip("i")
        exp = np.asarray(exp, float)
        tol = np.broadcast_to(np.asarray(tol, float), exp.shape)
        if not t.endswith("i"):
            return self.near(got, flat(bt, exp), flat(bt, tol), "the matrix")
        k = SIZE[bt]
        self.near(got[:k], flat(bt, exp), flat(bt, tol), "the matrix")
        n = DIM(bt)
        inv, er, dt = inverse(exp)
        if inv is None or np.max(er) > 1e-6:
            return
        worst = np.max(abs(inv))**2*np.max(tol)*n*n*4
        self.near(got[k:2*k], flat(bt, inv), flat(bt, er*20 + worst + 1e-12*np.max(abs(inv))), "the stored inverse")
        self.near(got[2*k], dt, 1e-11*perm(exp) + perm(abs(exp)+tol) - perm(exp), "the stored determinant")

    def mat(self, t, f, ret, kinds, x, r, outs):
        bt = t.rstrip("i")
        n = DIM(t)
        H = n + (1 if bt.endswith("w") else 0)
        o = outs[0] if outs else None
        sub = lambda a: hom(bt, a[:SIZE[bt]])
        if f in ("lex_cmp", "eq"):
            return self.lex(x[0][:SIZE[bt]], x[1][:SIZE[bt]], f, r)
        if f == "unit":
            return self.full(t, o, np.eye(H), 0)
        if f in ("scale", "scale1", "scale_v"):
            k = min(n, 3)
            v = [x[1]]*k if f == "scale1" else list(x[1]) if f == "scale_v" else list(x[1:])
            if t.endswith("i") and min(map(abs, v)) < 2*EPS:
                return
            return self.full(t, o, emb(bt, np.diag(v)), 0)
        if f in ("xlat", "xlat_v"):
            return self.full(t, o, embw(bt, list(x[1]) if f == "xlat_v" else x[1:]), 0)
        if f == "rot" and n == 2:
            s, c = x[1]
            return self.full(t, o, emb(bt, np.array([[c, -s], [s, c]])), U)
        if f == "rot_ij":
            i, j, (s, c) = x[1:]
            e = np.eye(H)
            e[i, i] = e[j, j] = c
            e[i, j], e[j, i] = -s, s
            return self.full(t, o, e, U)
        if f in ("rot_x", "rot_y", "rot_z"):
            u = np.eye(3)["xyz".index(f[-1])]
            return self.full(t, o, emb(bt, rod(u, *x[1])), U)
        if f in ("rot_unit", "rot_v"):
            v = x[1]
            l = math.sqrt(math.fsum(v*v))
            if l < 2*EPS:
                return
            return self.full(t, o, emb(bt, rod(v/l, *x[2])), U)
        if f in ("rot_into_z", "rot_unit_into_z"):
            v = x[1]
            l = math.sqrt(math.fsum(v*v))
            if abs(l-EPS) < EPS/8:
                return
            got = hom(bt, o[:SIZE[bt]])
            if ret == "b":
                self.same(r, int(l > EPS), "success")
                if l < EPS:
                    return self.full(t, o, np.eye(H), 0)
            self.intoz(got[:3, :3], v/l)
            z = got.copy()
            z[:3, :3] = np.eye(3)
            self.near(z, np.eye(H), 0, "the rest of the matrix")
            if t.endswith("i"):
                self.full(t, o, got, 4*EPS)
            return
        if f in ("mirror_unit", "mirror_v"):
            v = x[1]
            l = math.sqrt(math.fsum(v*v))
            if l < 2*EPS:
                return
            return self.full(t, o, emb(bt, mir(v/l)), U)
        if f == "mul":
            a, b = sub(x[1]), sub(x[2])
            self.full(t, o, a @ b, U*(abs(a) @ abs(b)) + 1e-300)
            return
        if f == "trans":
            a = sub(x[1])
            e = a.copy()
            if bt.endswith("w"):
                e[:n, n] = 0
            e = e.T
            if ret == "b":
                w = a[:n, n]
                if all(far(c, 0) for c in w):
                    self.same(r, int(all(abs(c) < EPS for c in w)), "the success")
                if any(c != 0 for c in w):
                    return
            return self.full(t, o, e, 0)
        if f == "det":
            a = sub(x[0])
            return self.near(r, det(a), 1e-10*perm(a), "the determinant")
        if f == "inv":
            a = sub(x[1])
            if t.endswith("i"):
                k = SIZE[bt]
                self.near(o[:k], x[1][k:2*k], 0, "the matrix")
                self.near(o[k:2*k], x[1][:k], 0, "the inverse")
                return self.near(o[2*k], 1/x[1][2*k], 1e-12/abs(x[1][2*k]), "the determinant")
            inv, er, d = inverse(a)
            pt = perm(a)*U*10
            if not far(d, 0, SQR-pt, SQR+pt):
                return
            if abs(d) < SQR:
                self.near(o, np.zeros(SIZE[bt]), 0, "the inverse of a singular matrix")
                return self.near(r, 0, 0, "the determinant")
            self.near(r, d, pt, "the determinant")
            if np.max(er) > 1e-3*max(1, np.max(abs(inv))):
                return
            return self.near(o, flat(bt, inv), flat(bt, er*20), "the inverse")
        m = re.match(r"from_(mat\d\w*)", f)
        if m:
            return self.conv(t, m[1], x, r, o)
        if f == "is_rect_rot":

            a = np.abs(sub(x[0]))
            if np.any((a > EPS/2) & (a < EPS*2)):
                return
            z = a > EPS
            if abs(det(a)) < 1e-3:       # a singular matrix is not asked about
                return
            return self.same(r, int(all(z.sum(0) == 1) and all(z.sum(1) == 1)))
        if f in ("xform_into_zx_2", "xform_into_zx"):
            return self.intozx(t, x, r, outs)
        raise AssertionError(self.name)

    def conv(self, t, s, x, r, o):
        bs, bt = s.rstrip("i"), t.rstrip("i")
        a = hom(bs, x[1][:SIZE[bs]])
        if bs == bt:                 # with inverse from without
            inv, er, d = inverse(a)
            pt = perm(a)*U*10
            if not far(d, 0, SQR-pt, SQR+pt):
                return
            self.same(r, int(abs(d) >= SQR), "success")
            if abs(d) >= SQR:
                self.full(t, o, a, 0)
            return
        if DIM(bt) < DIM(bs) or bs == "mat4" or (bs == "mat3" and bt == "mat2w"):
            if (bs, bt) in (("mat4", "mat3w"), ("mat3", "mat2w")):
                e = a
                ok = np.array_equal(a[-1], np.eye(len(a))[-1])
            else:                    # mat3w → mat2w
                e = np.delete(np.delete(a, 2, 0), 2, 1)
                ok = np.array_equal(a[2], [0, 0, 1, 0]) and np.array_equal(a[:, 2], [0, 0, 1, 0])
            self.same(r, int(ok), "success")
            if ok:
                self.full(t, o, e, 1e-12)
            return
        if (bs, bt) in (("mat3w", "mat4"), ("mat2w", "mat3")):
            return self.full(t, o, a, 0)
        e = np.eye(4)                # mat2w → mat3w
        e[:2, :2], e[:2, 3] = a[:2, :2], a[:2, 2]
        self.full(t, o, e, 0)

    def intozx(self, t, x, r, outs):
        if t == "mat3w":
            i, fr = hom("mat3w", outs[0]), hom("mat3w", outs[1])
            org, a, b = x[2:]
        else:
            i, fr = hom("mat3w", outs[0][:12]), hom("mat3w", outs[0][12:24])
            org, a, b = x[1:]
        za, zb = a-org, b-org
        la, lb = (math.sqrt(math.fsum(v*v)) for v in (za, zb))
        sc = 1 + max(map(abs, list(org)+list(a)+list(b)))
        if la < 1e-3 or lb < 1e-3 or max(abs(zb[:2])) < max(1e-4, 1e-3*lb):
            return
        ap = lambda m, p: m[:3, :3] @ p + m[:3, 3]
        self.same(r, 1, "success")
        self.near(i[:3, :3] @ i[:3, :3].T, np.eye(3), 8*EPS, "R times its transpose")
        self.near(det(i[:3, :3]), 1, 1e-3, "the determinant")
        self.near(ap(i, org), [0, 0, 0], 1e-9*sc, "the image of the origin")
        self.near(ap(i, a), [0, 0, la], 4*EPS*la + 1e-9*sc, "the image of a")
        self.near(ap(i, b)[1], 0, 4*EPS*lb + 2*EPS, "the y of the image of b")
        self.near(fr @ i, np.eye(4), 8*EPS*sc, "the product with the inverse")


def build(case):
    p = Pool(case)
    ref = Ref(p)
    calls = []
    for name, (op, ret, kinds) in FN.items():
        a = ref.args(name, kinds)
        if a is not None:
            calls.append((name, a, None))
            # the same call with the result stored over an operand
            if kinds and kinds[0][1] and sum(o for _, o in kinds) == 1:
                for k in range(1, len(kinds)):
                    if kinds[k][0] == kinds[0][0]:
                        calls.append((name, a, k))
    return p, ref, calls


def encode(name, a, alias):
    op, ret, kinds = FN[name]
    f = struct.pack("<I", op)
    for k, (t, o) in enumerate(kinds):
        if t == "d":
            f += struct.pack("<d", a[k])
        elif t == "z":
            f += struct.pack("<I", a[k])
        elif k == 0 and alias is not None:
            f += struct.pack("<B", 2+alias)
        else:
            f += struct.pack("<B", 0) + np.asarray(a[k], "<f8").tobytes()
    return f


def decode(name, d, pos):
    op, ret, kinds = FN[name]
    r = None
    if ret == "d":
        r, = struct.unpack_from("<d", d, pos); pos += 8
    elif ret in "bi":
        r, = struct.unpack_from("<i", d, pos); pos += 4
    outs = []
    for t, o in kinds:
        if o:
            outs.append(np.frombuffer(d, "<f8", SIZE[t], pos)); pos += 8*SIZE[t]
    return r, outs, pos


def run(case, ctx, server="mat"):
    p, ref, calls = build(case)
    sv = ctx.server(server)
    d = sv.call(b"".join(encode(*c) for c in calls))
    pos = 0
    plain = {}
    for name, a, alias in calls:
        r, outs, pos = decode(name, d, pos)
        op, ret, kinds = FN[name]
        if alias is None:
            if ret == "b":
                r = int(r != 0)
            plain[name] = (r, outs)
            ref.judge(name, ret, kinds, a, r, outs)
        else:
            r0, o0 = plain[name]
            if ret == "b":
                r = int(r != 0)
            if kinds[0][0].endswith("minmax") and FN[name][2][1][0] != kinds[0][0]:
                continue
            if not (r == r0 or (r != r and r0 != r0)) or any(not np.array_equal(x, y, equal_nan=True) for x, y in zip(outs, o0)):
                raise Violation(f"{name}: with the result stored over operand {alias} the result is {r} {[o.tolist() for o in outs]}, "
                                f"otherwise {r0} {[o.tolist() for o in o0]} (operands {[v.tolist() if hasattr(v, 'tolist') else v for v in a]})")
    assert pos == len(d)
    nt = False
    m = p.mat("mat3", 0)
    iv, er, dt = inverse(m)
    if iv is not None and abs(dt) > 1e-3 and not np.allclose(m, np.diag(np.diag(m))) and not np.allclose(m @ m.T, np.eye(3)):
        u = p.unit(3, 0)
        nt = sum(abs(u) > 1e-3) >= 2
    ctx.nt(nt)
    ctx.label("ran")


def number(lim=1000):
    return st.one_of(
        st.integers(-8, 8).map(float),
        st.integers(-64, 64).map(lambda x: x/8),
        st.integers(-10**6, 10**6).map(lambda x: x*lim/1e6),
        st.floats(-lim, lim, allow_nan=False).map(lambda x: 0.0 if abs(x) < 1e-6 else x),
        st.sampled_from([0.0, 0.0, 1.0, -1.0, EPS/2, EPS*2, -EPS/2, 1e-3, 1/3, 0.001, lim*1.0]))


ANGLE = st.one_of(st.integers(-24, 48).map(lambda x: 15.0*x), st.integers(-800, 800).map(float),
                  st.floats(-720, 720, allow_nan=False).map(lambda x: 0.0 if abs(x) < 1e-9 else x),
                  st.sampled_from([1e9+30, 2.0**31*30, -2.0**40*90, 360.0*10**9+150, 1e15+210.0]))


@st.composite
def matrix(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return [draw(number(50)) for _ in range(16)]
    if k == 1:
        return [float(draw(st.integers(-3, 3))) for _ in range(16)]
    if k == 2:     # scaled permutation
        pr = draw(st.permutations(range(3)))
        m = np.eye(4)
        m[:3, :3] = 0
        for i in range(3):
            m[i, pr[i]] = draw(st.sampled_from([1., -1., 2., .5, -3.]))
        if draw(st.booleans()):
            m[draw(st.integers(0, 2)), draw(st.integers(0, 2))] = draw(st.sampled_from([0., 0., 1.]))
        m[:3, 3] = [draw(number(50)) for _ in range(3)]
        return m.ravel().tolist()
    if k == 3:     # rank deficient
        m = np.array([float(draw(st.integers(-4, 4))) for _ in range(16)]).reshape(4, 4)
        i, j = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        if i != j:
            m[i] = m[j]*draw(st.sampled_from([1., -1., 2.]))
        return m.ravel().tolist()
    m = np.array([draw(number(8)) for _ in range(16)]).reshape(4, 4) + np.diag([draw(st.sampled_from([5., -7., 10.])) for _ in range(4)])
    return m.ravel().tolist()


@st.composite
def pool(draw):
    vs = [[draw(number()) for _ in range(4)] for _ in range(4)]
    # some vectors are related: equal, parallel, nearly equal, on one line
    rel = draw(st.integers(0, 6))
    if rel == 1:
        vs[1] = list(vs[0])
    elif rel == 2:
        f = draw(st.sampled_from([2.0, -1.0, .5]))
        vs[1] = [f*x for x in vs[0]]
    elif rel == 3:
        f = draw(st.sampled_from([2.0, -1.0, .5, 3.0]))
        vs[2] = [a+f*(b-a) for a, b in zip(vs[0], vs[1])]
    elif rel == 4:
        e = draw(st.sampled_from([EPS/4, EPS*4]))
        vs[1] = [a + e*draw(st.sampled_from([0, 0, 1, -1])) for a in vs[0]]
    elif rel == 5:
        f = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 3e-5, 1e2, 1e3]))
        vs = [[f*x for x in v] for v in vs]
    k = draw(st.integers(0, 5))
    if k == 0:
        vs[0] = [0., 0., draw(st.sampled_from([1., -1., 5., -2.])), vs[0][3]]
    elif k == 1:
        vs[0] = [0.]*4
        vs[0][draw(st.integers(0, 3))] = draw(st.sampled_from([1., -1., 3.]))
    return {"v": vs, "m": [draw(matrix()) for _ in range(2)], "s": [draw(number(20)) for _ in range(3)] + [draw(ANGLE)],
            "k": [draw(ANGLE)], "i": [draw(st.integers(0, 11)) for _ in range(4)]}


@st.composite
def trig(draw):
    return {"a": draw(st.lists(ANGLE, min_size=5, max_size=40)), "n": [draw(st.integers(1, 90)) for _ in range(3)]}


def run_trig(case, ctx):
    sv = ctx.server("mat")
    ref = Ref(None)
    for a in case["a"]:
        for f in ("cp_sin_deg", "cp_cos_deg", "cp_tan_deg"):
            d = sv.call(encode(f, [a], None))
            r, _, _ = decode(f, d, 0)
            ref.name, ref.a = f, [a]
            ref.trig(f[3:], a, r)
        d = sv.call(struct.pack("<Id", 1001, a))
        ok, v = struct.unpack("<iq", d)
        isint = a == int(a) and 1 <= abs(a) < 2.0**53
        if a == 0:
            pass
        elif isint and (not ok or v != int(a)):
            raise Violation(f"cp_f_get_int({a!r}) says {ok}, {v}")
        elif not isint and ok and v != a:
            raise Violation(f"cp_f_get_int({a!r}) says it is the integer {v}")
    for n in case["n"]:
        d = sv.call(struct.pack("<II", 1000, n))
        got = {}
        for k in range(n):
            idx, c, s = struct.unpack_from("<Idd", d, 20*k)
            if idx in got or idx >= n:
                raise Violation(f"circle of {n}: index {idx} visited twice or out of range")
            got[idx] = (c, s)
        if len(d) != 20*n:
            raise Violation(f"circle of {n}: {len(d)//20} steps")
        for i, (c, s) in got.items():
            if abs(c-math.cos(2*math.pi*i/n)) > 1e-12 or abs(s-math.sin(2*math.pi*i/n)) > 1e-12:
                raise Violation(f"circle of {n}: point {i} is ({c}, {s})")
            if i and got[n-i] != (c, -s):
                raise Violation(f"circle of {n}: points {i} and {n-i} are not mirror images: {got[i]} {got[n-i]}")
    ctx.nt(any(a == int(a) and a % 30 == 0 for a in case["a"]) and max(case["n"]) > 5)


PARTS = [
    Part("functions", pool(), run, quick=500, thorough=20000, need=("mat",)),
    Part("functions-san", pool(), lambda c, x: run(c, x, "mat:san"), quick=60, thorough=2000, need=("mat:san",)),
    Part("degrees", trig(), run_trig, quick=300, thorough=8000, need=("mat",)),
]
