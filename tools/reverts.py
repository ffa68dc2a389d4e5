#!/usr/bin/env python3
"""reverts.py [-jN] [COMMIT...]: takes every repair listed in known-findings.txt back, one at a time, in a scratch copy of /repo,
and runs the property's check on it.  Prints whether it is reported again; with --keep, a failing case that passes on the current
tree is kept as /verif/regress/<PROP>/fix-<commit>.json."""
import glob, json, os, re, subprocess, sys, threading, queue, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def one(n, prop, commit, keep, nw):
    R, B = "/tmp/revrepo%d" % n, "/tmp/revb%d" % n
    sh("git -C %s checkout -q -f HEAD; git -C %s reset -q --hard %s" % (R, R, HEAD))
    r = sh("git -C %s revert --no-commit %s" % (R, commit))
    if r.returncode:
        sh("git -C %s revert --abort; git -C %s reset -q --hard %s" % (R, R, HEAD))
        r = sh("git -C %s show %s | git -C %s apply -R -3" % (R, commit, R))
        if r.returncode or sh("git -C %s ls-files -u" % R).stdout:
            sh("git -C %s reset -q --hard %s" % (R, HEAD))
            return "CONFLICT"
    # the working copy counts, not the index
    env = dict(os.environ, HV_REPO=R, HV_BUILD=B, HV_WORKERS=str(nw))
    r = sh("cd %s && timeout 900 nice -n 3 ./check %s" % (V, prop), env=env)
    sh("rm -rf %s" % B)
    m = re.search(r"^VIOLATION property=(\S+) replay=(\S+)", r.stdout, re.M)
    if not m:
        return "MISSED rc=%d %s" % (r.returncode, r.stdout.strip()[-200:])
    if keep and os.path.exists(m.group(2)):
        c = json.load(open(m.group(2)))
        t = sh("cd %s && ./check %s --replay %s" % (V, prop, m.group(2)))
        if t.returncode == 0 and len(json.dumps(c["case"])) < 6000:
            os.makedirs("%s/regress/%s" % (V, prop), exist_ok=True)
            json.dump(dict(part=c["part"], case=c["case"]), open("%s/regress/%s/fix-%s.json" % (V, prop, commit[:7]), "w"))
    return "caught " + r.stdout.strip().split("\n")[-2][:120]


def main():
    a = sys.argv[1:]
    keep = "--keep" in a
    j = next((int(x[2:]) for x in a if x.startswith("-j")), 2)
    want = [x for x in a if not x.startswith("-")]
    jobs = queue.Queue()
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"fixed: property=(\S+) ([0-9a-f]+)", l)
        if m and (not want or m.group(2) in want):
            jobs.put(m.groups())
    lock = threading.Lock()

    def work(n):
        R = "/tmp/revrepo%d" % n
        sh("rm -rf %s; git clone -q /repo %s" % (R, R))
        while True:
            try:
                p, c = jobs.get_nowait()
            except queue.Empty:
                break
            m = one(n, p, c, keep, max(1, 8 // j))
            with lock:
                print(p, c, m, flush=True)
        sh("rm -rf %s" % R)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(j)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


HEAD = sh("git -C /repo rev-parse HEAD").stdout.strip()
main()
