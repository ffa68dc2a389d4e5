#!/usr/bin/env python3
"""newseed.py: reads a spec on stdin:
 id PROP
 file OLD>>>NEW  (via python dict)  -- spec is a python file defining ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO (python body using h)"""
import sys, json, os, subprocess, shutil
for fn in sys.argv[1:]:
    g = {}
    exec(open(fn).read(), g)
    for s in g["SEEDS"]:
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout
        for f, a, b in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(a) != 1:
                print(s["id"], f, "matches", t.count(a)); sys.exit(1)
            open(p, "w").write(t.replace(a, b))
        shutil.copy("/verif/tools/seedlib/h.py", d + "/h.py")
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport h\n" + s["demo"])
        open(d + "/demo.sh", "w").write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sys.stdout.flush()
        subprocess.run(["/verif/tools/mkseed.sh", s["id"]] + ([s["prop"]] if True else []))
