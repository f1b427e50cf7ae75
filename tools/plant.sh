#!/bin/bash
# tools/plant.sh ID [CHECK...] : confirms seeded/ID in a scratch copy of /repo: the demonstration
# passes without the change and fails with it, the changed tree builds and passes the 925 tests.
# The scratch copy is /tmp/plant/repo (a clone) with /tmp/plant/vp (copies of the test scripts).
exec 9>/tmp/plant/lock; flock 9
id=$1; shift
s=/verif/seeded/$id; r=/tmp/plant/repo
cd $r && git checkout -q -- . && git fetch -q origin && git reset -q --hard FETCH_HEAD || exit 3
bash /tmp/plant/vp/build.sh >/tmp/plant/b0.log 2>&1 || { echo "$id base build failed"; exit 3; }
(cd $r && timeout 300 bash $s/demo.sh >/tmp/plant/d0.log 2>&1); echo "$id demo on unchanged tree: $?"
git apply $s/patch.diff || { echo "$id does not apply"; exit 3; }
bash /tmp/plant/vp/build.sh >/tmp/plant/b1.log 2>&1 || { echo "$id build failed"; tail -5 /tmp/plant/b1.log; }
(cd $r && timeout 300 bash $s/demo.sh >/tmp/plant/d1.log 2>&1); echo "$id demo on changed tree: $?"
bash /tmp/plant/vp/test.sh /tmp/plant/$id.json 2>&1 | tail -1
git checkout -q -- .
