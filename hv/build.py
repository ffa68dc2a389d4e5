"""Builds the code under test from /repo's current working tree, into /verif/build.

Every build is keyed by a hash of all sources and of the harness sources, so a
change in /repo always leads to a new build, and nothing is written to /repo.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
BUILD = os.environ.get("HV_BUILD", os.path.join(ROOT, "build"))

CPP = ["-std=c11", "-D_FILE_OFFSET_BITS=64", "-D_LARGEFILE_SOURCE", "-w"]
VARIANTS = {
    # like the repository's normal mode: optimised, assertions on
    "rel": dict(cc="gcc", cflags=["-O2", "-g1", "-fwrapv", "-fno-strict-overflow",
                                  "-fno-delete-null-pointer-checks", "-D_FORTIFY_SOURCE=2"],
                ldflags=[]),
    # sanitizers
    "san": dict(cc="clang", cflags=["-O1", "-g", "-fwrapv", "-fno-omit-frame-pointer",
                                    "-fsanitize=address,undefined",
                                    "-fno-sanitize=shift,alignment,function,float-cast-overflow,float-divide-by-zero,nonnull-attribute,signed-integer-overflow,pointer-overflow",
                                    "-fno-sanitize-recover=undefined"],
                ldflags=["-fsanitize=address,undefined"]),
}
LIBS = ["hob3lbase", "hob3lmat", "hob3lop", "hob3l"]


class BuildError(Exception):
    pass


def _sources():
    """The C files the repository's own makefiles put into the libraries."""
    out = []
    for lib in LIBS:
        mk = open(os.path.join(REPO, lib + ".mk")).read().replace("\\\n", " ")
        m = re.search(r"^MOD_C\.lib%s\.a\s*:?=\s*(.*)$" % lib, mk, re.M)
        for w in m.group(1).split():
            out.append((lib, os.path.join(REPO, "src", w)))
    return out


def _hash_tree():
    h = hashlib.sha256()
    for top in ("src", "include", "script"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("latin1")[-4000:]))
    return r.stdout


def _shims():
    return sorted(glob.glob(os.path.join(ROOT, "shim", "*.c")))


def build(variant="rel"):
    """Returns a directory containing hob3l.x and one <name>.x per /verif/shim/<name>.c."""
    v = VARIANTS[variant]
    h = _hash_tree()
    h.update(repr((variant, sorted(v.items()), CPP)).encode())
    for s in _shims() + sorted(glob.glob(os.path.join(ROOT, "shim", "*.h"))):
        h.update(open(s, "rb").read())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    key = variant + "-" + h.hexdigest()[:16]
    dst = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, ".ok")):
            os.utime(dst)
            return dst
        # keep the disk small: drop the oldest builds of this variant
        old = sorted((d for d in glob.glob(os.path.join(BUILD, variant + "-*")) if os.path.isdir(d)),
                     key=os.path.getmtime)
        for d in old[:-3] + glob.glob(os.path.join(BUILD, variant + "-*.tmp")):
            shutil.rmtree(d, ignore_errors=True)
        tmp = dst + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        _build_into(tmp, v)
        open(os.path.join(tmp, ".ok"), "w").close()
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)
    return dst


def exe(name, variant="rel"):
    """Path of an executable of the current build."""
    d = build(variant)
    p = os.path.join(d, name + ".x")
    if not os.path.exists(p):
        e = os.path.join(d, name + ".err")
        raise BuildError(open(e).read() if os.path.exists(e) else "no such executable: " + p)
    return p


def _build_into(tmp, v):
    inc = os.path.join(tmp, "inc")
    os.makedirs(inc)
    for s in sorted(glob.glob(os.path.join(REPO, "src/hob3l/*.sieve"))):
        o = _run_out([os.path.join(REPO, "script/mksieve"), s])
        open(os.path.join(inc, os.path.basename(s)[:-6] + ".inc"), "wb").write(o)
    for s in sorted(glob.glob(os.path.join(REPO, "src/hob3l/*.switch"))):
        o = _run_out([os.path.join(REPO, "script/mkswitch"), s])
        open(os.path.join(inc, os.path.basename(s)[:-7] + ".inc"), "wb").write(o)
    base = [v["cc"]] + CPP + v["cflags"] + ["-I" + os.path.join(REPO, "include"), "-I" + inc]
    jobs, objs, sjobs = [], [], []
    for lib, c in _sources():
        o = os.path.join(tmp, lib + "-" + os.path.basename(c)[:-2] + ".o")
        objs.append(o)
        jobs.append(base + ["-c", "-o", o, c])
    mo = os.path.join(tmp, "main.o")
    jobs.append(base + ["-c", "-o", mo, os.path.join(REPO, "src/hob3l/main.c")])
    sh = []
    for s in _shims():
        n = os.path.basename(s)[:-2]
        o = os.path.join(tmp, "shim-" + n + ".o")
        sh.append((n, o))
        sjobs.append((n, base + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(ROOT, "shim"), "-c", "-o", o, s]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(_run, jobs))
    lib = os.path.join(tmp, "libhv.a")
    _run(["ar", "rcs", lib] + objs)
    _run([v["cc"]] + v["ldflags"] + ["-o", os.path.join(tmp, "hob3l.x"), mo, lib, "-lm"])

    def shim(nj):
        # a harness that cannot be built only fails the checks that need it
        n, j = nj
        try:
            _run(j)
            _run([v["cc"]] + v["ldflags"] + ["-o", os.path.join(tmp, n + ".x"), j[-2], lib, "-lm"])
        except BuildError as e:
            open(os.path.join(tmp, n + ".err"), "w").write(str(e))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(shim, sjobs))
    for f in objs + [mo] + [o for _, o in sh]:
        if os.path.exists(f):
            os.unlink(f)


def _run_out(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO)
    if r.returncode != 0:
        raise BuildError("%s: %s" % (cmd, r.stderr.decode("latin1")))
    return r.stdout


if __name__ == "__main__":
    for x in (sys.argv[1:] or list(VARIANTS)):
        t = time.time()
        print(x, build(x), "%.1fs" % (time.time() - t))
