"""Helper for demonstrations: runs hob3l.x of the current directory in a scratch directory and reads text STL."""
import os, subprocess, sys, tempfile, shutil, atexit
X = os.path.abspath("out/bin/hob3l.x")
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)


def run(args, files=None, out=None):
    for k, v in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(D, k)), exist_ok=True)
        with open(os.path.join(D, k), "wb" if isinstance(v, bytes) else "w") as f:
            f.write(v)
    p = subprocess.run([X] + args, cwd=D, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    data = p.stdout
    if out:
        o = os.path.join(D, out)
        data = open(o, "rb").read() if os.path.exists(o) else None
    return p.returncode, data, p.stderr.decode("latin1")


def tris(data):
    """text STL -> list of (normal, [v0,v1,v2])"""
    r, n, vs = [], None, []
    for l in data.decode().split("\n"):
        w = l.split()
        if w[:2] == ["facet", "normal"]:
            n, vs = tuple(map(float, w[2:5])), []
        elif w[:1] == ["vertex"]:
            vs.append(tuple(map(float, w[1:4])))
        elif w[:1] == ["endfacet"]:
            r.append((n, vs))
    return r


def layers(model, args=(), files=None, name="m.scad"):
    """{z: bottom triangles [(x,y)]*3} of the model's layers"""
    f = dict(files or {})
    f[name] = model
    rc, d, e = run(["-q", name, "--dump-stl"] + list(args), f)
    if rc:
        print("status", rc, e)
        sys.exit(2)
    r = {}
    for n, v in tris(d):
        if n[2] < -.5:
            r.setdefault(round(v[0][2], 5), []).append([p[:2] for p in v])
    return r


def area(ts):
    return sum(abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) / 2 for a, b, c in ts)


def area_at(model, z, args=(), files=None):
    return area(layers(model, ["--z=%r" % z] + list(args), files).get(round(z, 5), []))


def inside(ts, x, y):
    n = 0
    for t in ts:
        s = [(t[i - 1][0] - t[i][0]) * (y - t[i][1]) - (t[i - 1][1] - t[i][1]) * (x - t[i][0]) for i in range(3)]
        n += all(k > 0 for k in s) or all(k < 0 for k in s)
    return n


def expect(name, got, want, tol=1e-3):
    if isinstance(want, (int, float)) and not isinstance(want, bool):
        ok = got is not None and abs(got - want) <= tol
    else:
        ok = got == want
    print(name, "got", got, "want", want, "ok" if ok else "WRONG")
    if not ok:
        sys.exit(1)


def cprog(src, timeout=120):
    """Compiles src against the built libraries, runs it, returns (status, stdout)."""
    with open(os.path.join(D, "p.c"), "w") as f:
        f.write(src)
    b = os.path.abspath("out/bin")
    c = ["gcc", "-O1", "-D_GNU_SOURCE", "-I", os.path.abspath("include"), "-I", os.path.abspath("."), os.path.join(D, "p.c"), "-o", os.path.join(D, "p.x")] \
        + [os.path.join(b, "lib%s.a" % l) for l in ("hob3l", "hob3lop", "hob3lmat", "hob3lbase") if os.path.exists(os.path.join(b, "lib%s.a" % l))] + ["-lm"]
    subprocess.check_call(c)
    p = subprocess.run([os.path.join(D, "p.x")], cwd=D, stdout=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("latin1")
