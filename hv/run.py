"""Runs one check: `python3-vt -m hv.run C01 [--replay FILE]`.

A check is a module /verif/checks/cNN.py with PROP, RULE, PARTS and optional
ASSUMPTIONS.  A part couples a Hypothesis strategy producing JSON-able cases
with an oracle fn(case, ctx) that raises Violation.  The runner splits the
case budget over worker processes, lets Hypothesis shrink failures, replays the
shrunk case three times from its JSON form, and writes the evidence.
"""
import os
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["LC_ALL"] = "C"
import collections, glob, hashlib, importlib, json, multiprocessing as mp
import resource, signal, shutil, subprocess, sys, tempfile, time, traceback

import warnings
warnings.simplefilter("ignore")
import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, settings

from . import build as hvbuild

ROOT = hvbuild.ROOT
QUICK_CAP = float(os.environ.get("HV_CAP", 360))       # seconds of search, then stop generating
THOROUGH_CAP = float(os.environ.get("HV_CAP_T", 3600))
SHRINK_CAP = 60
SHRINK_HANG = 10        # a run that may hang, while a hang is being shrunk
RUN_TIMEOUT = 60
TOTAL_CAP = 800         # quick tier: no further replay is begun after this


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Discard(Exception):
    """The case is outside of the domain (counted, never an alarm)."""


class Stop(BaseException):
    pass


class Part:
    def __init__(self, name, strategy, fn, quick, thorough=None, need=("hob3l",)):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 20
        self.need = need


Result = collections.namedtuple("Result", "rc out err files")


class Ctx:
    """What an oracle may use: executables, a scratch directory, counters."""

    def __init__(self, exes, scratch):
        self.exes, self.scratch = exes, scratch
        self.labels = collections.Counter()
        self.servers = {}
        self.timeout = RUN_TIMEOUT
        self.abandon = lambda: False
        self.reset()

    def reset(self):
        self._nt = False
        self._case_labels = []
        self.runs = 0
        self.hung = False

    def nt(self, cond=True):
        if cond:
            self._nt = True

    def label(self, *ls):
        self._case_labels.extend(ls)

    # --- running the tool -------------------------------------------------
    def path(self, name):
        return os.path.join(self.scratch, name)

    def write(self, name, data):
        p = self.path(name)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
        return p

    def hob3l(self, args, outs=(), exe="hob3l", timeout=None, cwd=None, env=None, crash_ok=False, pre=None):
        """Runs the tool, returns Result.  A signal or a timeout is a rc < 0."""
        self.runs += 1
        for o in outs:
            try:
                os.unlink(self.path(o))
            except FileNotFoundError:
                pass
        p = subprocess.Popen([self.exes[exe]] + list(args), stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             close_fds=False, cwd=cwd or self.scratch, env=env, preexec_fn=pre)
        end = time.monotonic() + min(timeout or self.timeout, self.timeout)
        while True:
            try:
                out, err = p.communicate(timeout=max(.1, min(3, end - time.monotonic())))
                rc = p.returncode
                break
            except subprocess.TimeoutExpired:
                if time.monotonic() < end and not self.abandon():
                    continue
                p.kill()
                out, err = p.communicate()
                if self.abandon():
                    raise Stop()
                rc = -1000
                self.hung = True
                break
        files = {}
        for o in outs:
            try:
                with open(self.path(o), "rb") as f:
                    files[o] = f.read()
            except FileNotFoundError:
                files[o] = None
        if rc < 0 and rc != -1000 and not crash_ok:
            raise Violation("the tool crashed with signal %d: %s" % (-rc, err.decode("latin1")[-600:]))
        return Result(rc, out, err, files)

    def server(self, name, variant_key=None):
        """A persistent harness process speaking length-prefixed frames."""
        key = variant_key or name
        s = self.servers.get(key)
        if s is None or s.dead():
            s = self.servers[key] = Server(self.exes[key])
        return s

    def close(self):
        for s in self.servers.values():
            s.kill()


class Server:
    def __init__(self, exe):
        self.errf = tempfile.TemporaryFile()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=0")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, close_fds=False, env=env, bufsize=0)
        self._dead = False

    def dead(self):
        return self._dead or self.p.poll() is not None

    def kill(self):
        self._dead = True
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
        err = ""
        try:
            self.errf.seek(0)
            err = self.errf.read().decode("latin1")[-1500:]
        except ValueError:
            pass
        for f in (self.p.stdin, self.p.stdout, self.errf):
            try:
                f.close()
            except OSError:
                pass
        return err

    def call(self, data, timeout=RUN_TIMEOUT):
        """Sends one frame, returns the answer frame; raises Violation if the process dies."""
        import select, struct
        msg = struct.pack("<I", len(data)) + data
        try:
            self.p.stdin.write(msg)
            self.p.stdin.flush()
            hdr = self._read(4, timeout)
            (n,) = struct.unpack("<I", hdr)
            return self._read(n, timeout)
        except (EOFError, BrokenPipeError, TimeoutError) as e:
            to = isinstance(e, TimeoutError)
            err = self.kill()
            raise Violation(("harness call does not return in %ds" % timeout if to else
                             "harness process died, status %s" % self.p.returncode) + ": " + err)

    def _read(self, n, timeout):
        import select
        buf = b""
        fd = self.p.stdout.fileno()
        end = time.monotonic() + timeout
        while len(buf) < n:
            left = end - time.monotonic()
            po = select.poll()
            po.register(fd, select.POLLIN | select.POLLHUP)
            if left <= 0 or not po.poll(left * 1000):
                raise TimeoutError()
            b = os.read(fd, n - len(buf))
            if not b:
                raise EOFError()
            buf += b
        return buf


# --------------------------------------------------------------------------

def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def exes_for(mod):
    need = set()
    for p in mod.PARTS:
        need |= set(p.need)
    out = {}
    for n in sorted(need):
        name, _, var = n.partition(":")
        out[n] = hvbuild.exe(name, var or "rel")
    return out


def evaluate(part, case, ctx):
    """None if the case is fine (or discarded), else a message."""
    ctx.reset()
    try:
        part.fn(case, ctx)
    except Discard:
        return None
    except Violation as e:
        return str(e) or "violation"
    except Exception:
        return "oracle could not process the result:\n" + traceback.format_exc()[-3000:]
    return None


def mk_scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="hv-", dir=base)


def worker(mod, parts, seed, widx, nworkers, exes, q, stop, t_end, top_scratch, scale, tier):
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not any(":san" in k for k in exes):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    scratch = os.path.join(top_scratch, "w%d" % widx)
    os.makedirs(scratch)
    ctx = Ctx(exes, scratch)
    res = dict(evals=0, nt=set(), labels=collections.Counter(), samples={}, fails=[], runs=0,
               discarded=0, capped=0, err=None)
    try:
        for pi, part in enumerate(parts):
            total = int((part.quick if tier == "quick" else part.thorough) * scale)
            n = total // nworkers + (1 if widx < total % nworkers else 0)
            if n <= 0:
                continue
            _hyp(mod, part, hash_seed(seed, mod.PROP, part.name, widx), n, ctx, res, stop, t_end)
            if res["fails"] or stop.is_set():
                break
    except Exception:
        res["err"] = traceback.format_exc()
    ctx.close()
    res["nt"] = list(res["nt"])
    q.put((widx, res))


def hash_seed(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big")


def _hyp(mod, part, seed, n, ctx, res, stop, t_end):
    first_fail = [None]
    first = [None]
    best = [None]

    ctx.abandon = lambda: first_fail[0] is None and stop.is_set()

    def body(case):
        now = time.monotonic()
        if first_fail[0] is None:
            if stop.is_set():
                raise Stop()
            if now > t_end:
                res["capped"] = 1
                raise Stop()
        elif now - first_fail[0] > SHRINK_CAP:
            raise Stop()
        c = canon(case)
        ctx.reset()
        try:
            try:
                part.fn(json.loads(c), ctx)
            except Discard:
                res["discarded"] += 1
                return
            except Violation:
                raise
            except Exception:
                raise Violation("oracle could not process the result:\n" + traceback.format_exc()[-3000:])
        except Violation as e:
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
                first[0] = (c, str(e))
                stop.set()
                if ctx.hung:
                    ctx.timeout = SHRINK_HANG
            if best[0] is None or len(c) < len(best[0][0]):
                best[0] = (c, str(e))
            raise
        finally:
            res["runs"] += ctx.runs
        if first_fail[0] is None:
            res["evals"] += 1
            res["labels"][part.name + ":cases"] += 1
            for l in ctx._case_labels:
                res["labels"][part.name + ":" + l] += 1
            if ctx._nt:
                h = hashlib.sha256((part.name + c).encode()).digest()[:12]
                res["nt"].add(h)
                s = res["samples"].setdefault(part.name, [])
                if len(s) < 2 or (len(s) < 4 and len(res["nt"]) % 97 == 0):
                    s.append(case if len(c) < 1500 else c[:1500] + "...")

    st = part.strategy() if callable(part.strategy) else part.strategy
    t = given(st)(body)
    t = hypothesis.seed(seed)(t)
    t = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                 suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                 verbosity=Verbosity.quiet, phases=(Phase.generate, Phase.shrink))(t)
    try:
        t()
    except Stop:
        pass
    except BaseException as e:
        if best[0] is None:
            raise
    if best[0] is not None:
        res["fails"].append((part.name, best[0][0], best[0][1]))
        if first[0][0] != best[0][0]:
            res["fails"].append((part.name, first[0][0], first[0][1]))


def replay_once(prop, part_name, case, exes, q):
    os.setpgrp()
    scratch = mk_scratch()
    try:
        mod = load(prop)
        part = [p for p in mod.PARTS if p.name == part_name][0]
        ctx = Ctx(exes, scratch)
        m = evaluate(part, case, ctx)
        ctx.close()
        q.put(m)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, part_name, case, exes, times=1):
    """Evaluates one case in fresh processes; returns the message if it fails in each, or None."""
    mpc = mp.get_context("fork")
    runs = []
    for _ in range(times):
        q = mpc.SimpleQueue()
        p = mpc.Process(target=replay_once, args=(prop, part_name, case, exes, q))
        p.start()
        runs.append((p, q))
    end = time.monotonic() + 300
    ms = []
    for p, q in runs:
        p.join(max(1, end - time.monotonic()))
        if p.is_alive():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                p.kill()
            ms.append(None)
        else:
            ms.append(q.get() if not q.empty() else None)
    return ms[-1] if all(m is not None for m in ms) else None


def known_lines():
    f = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                kv = dict(w.split("=", 1) for w in l[9:].split(" ")[:2])
                out.append((kv["property"], kv["replay"], " ".join(l[9:].split(" ")[2:])))
    return out


def main(argv):
    t0 = time.monotonic()
    if argv[0] == "--setup":
        for v in ("rel", "san"):
            print(hvbuild.build(v))
        return 0
    prop = argv[0]
    mod = load(prop)
    if len(argv) > 2 and argv[1] == "--replay":
        r = json.load(open(argv[2]))
        m = replay(prop, r["part"], r["case"], exes_for(mod))
        if m is None:
            print("replay of %s: the property holds" % argv[2])
            return 0
        print(m)
        print("VIOLATION property=%s replay=%s" % (prop, argv[2]))
        return 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    if "--thorough" in argv:
        tier = "thorough"
    scale = float(os.environ.get("HV_SCALE", "1"))
    only = os.environ.get("HV_PARTS")
    parts = [p for p in mod.PARTS if not only or p.name in only.split(",")]
    exes = exes_for(mod)
    fails = []
    regress = 0
    # 1. regression cases: fixed defects and earlier failures
    for f in sorted(glob.glob(os.path.join(ROOT, "regress", prop, "*.json"))):
        r = json.load(open(f))
        regress += 1
        m = replay(prop, r["part"], r["case"], exes)
        if m is not None:
            fails.append((r["part"], canon(r["case"]), m))
            break
    # 2. known findings
    kf_seen = 0
    for kp, kr, what in known_lines():
        if kp == prop:
            r = json.load(open(os.path.join(ROOT, kr)))
            if replay(prop, r["part"], r["case"], exes) is not None:
                kf_seen += 1
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
    # 3. search
    nworkers = int(os.environ.get("HV_WORKERS", min(8, os.cpu_count() or 1)))
    mpc = mp.get_context("fork")
    q, stop = mpc.SimpleQueue(), mpc.Event()
    top = mk_scratch()
    t_end = time.monotonic() + (QUICK_CAP if tier == "quick" else THOROUGH_CAP)
    results, errs = [], []
    try:
        if not fails:
            ps = [mpc.Process(target=worker, args=(mod, parts, seed, i, nworkers, exes, q, stop, t_end, top, scale, tier))
                  for i in range(nworkers)]
            for p in ps:
                p.start()
            import threading
            def drain():
                for _ in ps:
                    results.append(q.get()[1])
            th = threading.Thread(target=drain, daemon=True)
            th.start()
            for p in ps:
                p.join()
            th.join(20)
            if len(results) < len(ps):
                errs.append("%d worker(s) ended without a result" % (len(ps) - len(results)))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    nt, labels, samples = set(), collections.Counter(), []
    evals = runs = disc = capped = 0
    for r in results:
        if r["err"]:
            errs.append(r["err"])
        evals += r["evals"]; runs += r["runs"]; disc += r["discarded"]; capped += r["capped"]
        nt |= set(r["nt"])
        labels.update(r["labels"])
        for pn, s in r["samples"].items():
            if sum(1 for x in samples if x["part"] == pn) < 2:
                samples += [dict(part=pn, case=x) for x in s[:1]]
        fails += r["fails"]
    # 4. replay failures three times before reporting any
    viol, flaky = None, 0
    for pn, c, msg in sorted(fails, key=lambda f: len(f[1]))[:8]:
        if tier == "quick" and time.monotonic() - t0 > TOTAL_CAP:
            break
        case = json.loads(c)
        m = replay(prop, pn, case, exes, 3)
        if m is not None:
            viol = (pn, case, m)
            break
        flaky += 1
    cov = dict(evaluations=evals, distinct_nontrivial=len(nt), rule=mod.RULE,
               samples=samples or [dict(note="search stopped before a non-trivial case")],
               classes={k: labels[k] for k in sorted(labels)}, tool_runs=runs, discarded=disc,
               regression_cases=regress, known_findings=kf_seen, workers_stopped_by_time_budget=capped,
               failures_not_reproduced=flaky)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.monotonic() - t0, 2),
              violations=1 if viol else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d tool runs, %d discarded, %.1fs%s"
          % (prop, evals, len(nt), runs, disc, time.monotonic() - t0, " (time budget hit)" if capped else ""))
    if viol:
        pn, case, msg = viol
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", "%s-%s.json" % (prop, hashlib.sha256(canon(case).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, part=pn, case=case, message=msg), f, indent=1)
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        sys.stderr.write("\n".join(errs[:3]) + "\n")
        return 2
    for pn, c, msg in fails[:3]:
        sys.stderr.write("not reproduced: %s %s\n%s\n" % (pn, c[:2000], msg[:1000]))
    return 0


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    from hv import run as me
    try:
        rc = me.main(sys.argv[1:])
    except me.hvbuild.BuildError as e:
        sys.stderr.write("build failed: %s\n" % e)
        rc = 2
    sys.exit(rc)
