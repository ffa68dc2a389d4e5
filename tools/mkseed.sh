#!/bin/bash
# mkseed.sh ID PROP: turns /repo's uncommitted change into seeded/ID/patch.diff, validates it with seeded/ID/demo.sh and the check of PROP.
# mkseed.sh ID: revalidates an existing one.
id=$1; d=/verif/seeded/$id; mkdir -p $d
if [ -n "$(git -C /repo status --porcelain)" ]; then git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .; fi
prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/seed.build 2>&1 || { echo "$id: BUILD FAILS"; grep -m5 "error" /tmp/seed.build; git -C /repo checkout -q -- .; exit 1; }
t=$(bash /opt/vp/test.sh /tmp/seed.json 2>&1 | tail -1)
case "$t" in "311 passed, 0 failed") ;; *) echo "$id: TESTS: $t";; esac
cd /repo
if [ -f $d/demo.sh ]; then bash $d/demo.sh >/tmp/seed.demo 2>&1 && echo "$id: DEMO PASSES WITH THE CHANGE"; fi
for p in $prop; do
(cd /verif && timeout 900 ./check $p > /tmp/seed.out 2>&1); rc=$?
echo "$id: check $p exit $rc: $(grep -m1 VIOLATION /tmp/seed.out) $(tail -3 /tmp/seed.out | head -1 | cut -c1-160)"
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed.build 2>&1
if [ -f $d/demo.sh ]; then bash $d/demo.sh >/tmp/seed.demo 2>&1 || echo "$id: DEMO FAILS ON THE CLEAN TREE: $(tail -3 /tmp/seed.demo)"; fi
git -C /verif clean -fdq replay 2>/dev/null; true
