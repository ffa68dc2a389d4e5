"""C35: failing writes."""
import fcntl
import os
import resource
import select
import signal
import subprocess
import time
import hypothesis.strategies as st
from hv import gen, scad
from hv.run import Part, Violation, Discard

PROP = "C35"
TECHNIQUE = ("fault injection by property-based testing (Hypothesis): random models are converted to random formats with writes failing from a random byte on "
             "(file size limit, full device, closed descriptor, non-blocking pipe); the status must tell whether the file is complete")
NOTE = "Random search over models, formats, ways of writing and byte positions; only write faults at the system call level, no out-of-memory faults."
RULE = ("A case is a random model, a format, a way of writing (-o, redirected standard output, a full device, a closed standard output, a directory that does "
        "not exist) and the number of bytes after which writes fail; or standard output is a small non-blocking pipe whose reader starts late.  The reference is the same run without fault.  Non-trivial: the fault takes away part of the output.")
ASSUMPTIONS = ["ending by a panic (abort with a message) counts as a failure with a message"]

FMTS = ["stl", "stlb", "js", "csg2", "ps", "csg3", "scad", "syn"]
SUFF = {"stl": "stl", "stlb": "stlb", "js": "js", "ps": "ps", "csg2": "scad"}


@st.composite
def cases(draw):
    f = draw(st.sampled_from(FMTS))
    return dict(nodes=draw(gen.full(draw(st.integers(0, 2)), draw(st.integers(1, 4)))), fmt=f, step=draw(st.sampled_from(["0.2", "0.05", "1", "3"])),
                way=draw(st.sampled_from(["file", "file", "stdout", "stdout", "full", "fullout", "closed", "nodir", "isdir"])),
                at=draw(st.one_of(st.integers(0, 1000).map(lambda i: i / 1000), st.sampled_from([0, 1, "-1", "+1", "4096", "8192"]))),
                quiet=draw(st.booleans()))


def run(case, ctx):
    ctx.write("m.scad", scad.program(case["nodes"]))
    exe = ctx.exes["hob3l"]
    base = [exe, "m.scad", "--step=" + case["step"], "--dump-" + case["fmt"]] + (["-q"] if case["quiet"] else [])
    ref = ctx.hob3l(base[1:] + ["-o", "ref.x"], outs=["ref.x"])
    if ref.rc:
        raise Discard("rejected")
    ref = ref.files["ref.x"]
    at = case["at"]
    n = len(ref)
    lim = {"-1": n - 1, "+1": n + 1, "4096": 4096, "8192": 8192}.get(at) if isinstance(at, str) else int(round(at * n))
    lim = max(0, lim)
    way = case["way"]
    o = ctx.path("out.x")
    if os.path.exists(o):
        os.unlink(o)

    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def nocore():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx.runs += 1
    kw = dict(cwd=ctx.scratch, stdin=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
    expect = None      # None: judged by the file
    if way == "file":
        p = subprocess.run(base + ["-o", "out.x"], stdout=subprocess.DEVNULL, preexec_fn=limit, **kw)
    elif way == "stdout":
        with open(o, "wb") as f:
            p = subprocess.run(base, stdout=f, preexec_fn=limit, **kw)
    elif way == "full":
        p = subprocess.run(base + ["-o", "/dev/full"], stdout=subprocess.DEVNULL, preexec_fn=nocore, **kw)
        expect = n == 0
    elif way == "fullout":
        with open("/dev/full", "wb") as f:
            p = subprocess.run(base, stdout=f, preexec_fn=nocore, **kw)
        expect = n == 0
    elif way == "closed":
        p = subprocess.run(["/bin/sh", "-c", 'exec "$@" >&-', "sh"] + base, preexec_fn=nocore, **kw)
        expect = n == 0
    elif way == "nodir":
        p = subprocess.run(base + ["-o", "no/such/dir/out.x"], stdout=subprocess.DEVNULL, preexec_fn=nocore, **kw)
        expect = False
    else:
        os.makedirs(ctx.path("adir"), exist_ok=True)
        p = subprocess.run(base + ["-o", "adir"], stdout=subprocess.DEVNULL, preexec_fn=nocore, **kw)
        expect = False
    what = "%s to %s, %d bytes, fault after %d" % (case["fmt"], way, n, lim)
    if way in ("file", "stdout"):
        got = open(o, "rb").read()
        if not ref.startswith(got):
            raise Violation("%s: what is written is not a beginning of the output" % what)
        expect = got == ref
        if lim > n and not expect:
            raise Violation("%s: incomplete although no write failed" % what)
        if lim < n and expect:
            raise Discard("no fault")
    if p.returncode == 0 and not expect:
        raise Violation("%s: status 0, but the output is not complete; message %r" % (what, p.stderr[-300:]))
    if p.returncode != 0 and expect and (way not in ("file", "stdout") or lim > n):
        raise Violation("%s: status %d without fault; message %r" % (what, p.returncode, p.stderr[-300:]))
    if p.returncode not in (0, 1, -signal.SIGABRT):
        raise Violation("%s: status %d, message %r" % (what, p.returncode, p.stderr[-300:]))
    if p.returncode and b"rror" not in p.stderr:
        raise Violation("%s: status %d without a message: %r" % (what, p.returncode, p.stderr[-300:]))
    ctx.nt(not expect)
    ctx.label(way, case["fmt"], "small" if n < 4096 else "large")


@st.composite
def slow_cases(draw):
    # enough output for several buffers: a model with many layers or many objects
    n = draw(st.integers(3, 12))
    return dict(nodes=draw(gen.full(1, n)), fmt=draw(st.sampled_from(FMTS)), step=draw(st.sampled_from(["0.2", "0.1", "0.05"])),
                big=draw(st.integers(0, 3)), first=draw(st.integers(0, 12)), pauses=draw(st.lists(st.integers(0, 20), min_size=1, max_size=8)),
                chunk=draw(st.sampled_from([1, 100, 1000, 4096, 5000, 65536])))


def run_slow(case, ctx):
    """Standard output is a small non-blocking pipe with a reader that comes late now and then, so that some writes fail and later ones succeed."""
    big = "".join("translate([%d,0,0]) sphere(3,$fn=40);" % (7 * i) for i in range(case["big"]))
    ctx.write("m.scad", scad.program(case["nodes"]) + big)
    exe = ctx.exes["hob3l"]
    cmd = [exe, "m.scad", "--step=" + case["step"], "--dump-" + case["fmt"]]
    ref = ctx.hob3l(cmd[1:] + ["-o", "ref.x"], outs=["ref.x"])
    if ref.rc:
        raise Discard("rejected")
    ref = ref.files["ref.x"]
    lost = False
    for attempt in range(3):
        r, w = os.pipe()
        fcntl.fcntl(w, 1031, 4096)                      # F_SETPIPE_SZ
        fcntl.fcntl(w, fcntl.F_SETFL, os.O_WRONLY | os.O_NONBLOCK)
        ctx.runs += 1
        with open(ctx.path("err.x"), "wb") as e:
            p = subprocess.Popen(cmd, cwd=ctx.scratch, stdin=subprocess.DEVNULL, stdout=w, stderr=e,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        os.close(w)
        try:
            got, i, t = [], 0, case["pauses"]
            select.select([r], [], [], 30)
            time.sleep(case["first"] / 2000)
            while True:
                b = os.read(r, case["chunk"])
                if not b:
                    break
                got.append(b)
                if i < 40:
                    time.sleep(t[i % len(t)] / 10000)
                i += 1
            rc = p.wait(60)
        finally:
            os.close(r)
            if p.poll() is None:
                p.kill()
                p.wait()
        got = b"".join(got)
        msg = open(ctx.path("err.x"), "rb").read()
        what = "%s to a slow pipe, %d of %d bytes arrived" % (case["fmt"], len(got), len(ref))
        if rc == 0 and got != ref:
            raise Violation("%s: status 0, but the output is not complete; message %r" % (what, msg[-300:]))
        if rc not in (0, 1, -signal.SIGABRT):
            raise Violation("%s: status %d, message %r" % (what, rc, msg[-300:]))
        if rc and b"rror" not in msg:
            raise Violation("%s: status %d without a message: %r" % (what, rc, msg[-300:]))
        lost = lost or got != ref
    ctx.nt(lost)
    ctx.label("slow pipe", "some lost" if lost else "all arrived")


PARTS = [Part("faults", cases(), run, 1500, 30000), Part("slow", slow_cases(), run_slow, 160, 6000)]
