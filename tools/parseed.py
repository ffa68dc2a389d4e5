#!/usr/bin/env python3
"""parseed.py [-jN] SPEC.py... | ID...: like newseed.py/mkseed.sh, but in scratch copies of /repo, several at once.
A spec defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]."""
import glob, json, os, re, shutil, subprocess, sys, threading, queue
V = "/verif"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def setup(n):
    R, S = "/tmp/seedrepo%d" % n, "/tmp/seedvp%d" % n
    sh("rm -rf %s %s; cp -a /repo %s; cp -a /opt/vp %s" % (R, S, R, S))
    for f in glob.glob(S + "/*.sh") + glob.glob(S + "/*.py"):
        t = open(f).read()
        open(f, "w").write(re.sub(r"/repo\b", R, t).replace("/opt/vp", S))
    return R, S


def one(n, job, lock):
    R, S = "/tmp/seedrepo%d" % n, "/tmp/seedvp%d" % n
    sid, spec = job
    d = V + "/seeded/" + sid
    msg = []
    sh("git -C %s checkout -q -- ." % R)
    if spec:
        os.makedirs(d, exist_ok=True)
        for f, a, b in spec["edits"]:
            t = open(R + "/" + f).read()
            if t.count(a) != 1:
                return "%s: %s matches %d" % (sid, f, t.count(a))
            open(R + "/" + f, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        shutil.copy(V + "/tools/seedlib/h.py", d + "/h.py")
        for f in spec.get("files", []):
            shutil.copy(f, d)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport h\n" + spec["demo"])
        open(d + "/demo.sh", "w").write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        prop = spec["prop"]
    else:
        prop = json.load(open(d + "/meta.json"))["property"]
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode:
            return sid + ": DOES NOT APPLY"
    r = sh("bash %s/build.sh" % S)
    if r.returncode:
        return sid + ": BUILD FAILS " + "\n".join(re.findall(r".*error.*", r.stdout)[:5])
    t = sh("bash %s/test.sh /tmp/seedt%d.json" % (S, n)).stdout.strip().split("\n")[-1]
    if t != "311 passed, 0 failed":
        msg.append("TESTS: " + t)
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
    if r.returncode == 0:
        msg.append("DEMO PASSES WITH THE CHANGE " + r.stdout[-300:])
    r = sh("HV_REPO=%s HV_BUILD=/tmp/seedb%d HV_WORKERS=%s timeout 900 ./check %s" % (R, n, os.environ.get("W", "3"), prop), cwd=V)
    m = re.search(r"VIOLATION.*", r.stdout)
    msg.append("check %s exit %d %s" % (prop, r.returncode, r.stdout.strip().split("\n")[1][:150] if m and "\n" in r.stdout else r.stdout[-100:] if r.returncode else "MISSED"))
    sh("git -C %s checkout -q -- ." % R)
    sh("bash %s/build.sh" % S)
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
    if r.returncode:
        msg.append("DEMO FAILS ON THE CLEAN TREE " + r.stdout[-300:])
    return sid + ": " + "; ".join(msg)


jn, q, lock = 3, queue.Queue(), threading.Lock()
for a in sys.argv[1:]:
    if a.startswith("-j"):
        jn = int(a[2:])
    elif a.endswith(".py"):
        g = {}
        exec(open(a).read(), g)
        for s in g["SEEDS"]:
            q.put((s["id"], s))
    else:
        q.put((a, None))
jn = min(jn, q.qsize())


def work(n):
    setup(n)
    while True:
        try:
            j = q.get_nowait()
        except queue.Empty:
            break
        r = one(n, j, lock)
        with lock:
            print(r, flush=True)
    sh("rm -rf /tmp/seedrepo%d /tmp/seedvp%d /tmp/seedb%d" % (n, n, n))


ts = [threading.Thread(target=work, args=(i,)) for i in range(jn)]
[t.start() for t in ts]
[t.join() for t in ts]
sh("git -C /verif clean -fdq replay")
