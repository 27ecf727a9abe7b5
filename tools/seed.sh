#!/bin/bash
# tools/seed.sh demo ID      : run ID's demo on a clean copy and on a patched copy of /repo
# tools/seed.sh full ID...   : apply each patch to /repo, run the stable tests and the property's quick check, revert
V=$(cd "$(dirname "$0")/.." && pwd); m=$1; shift
for id in "$@"; do S=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ $m = demo ]; then T=$(mktemp -d); git -C /repo archive HEAD | tar -x -C $T; (cd $T && timeout 300 bash $S/demo.sh >$T.log 2>&1; echo "$id clean rc $?"; tail -2 $T.log; git init -q . ; git apply $S/patch.diff || echo NOAPPLY; timeout 300 bash $S/demo.sh >$T.log 2>&1; echo "$id patched rc $?"; tail -2 $T.log); rm -rf "$T" "$T.log"
elif [ $m = check ]; then T=$(mktemp -d); git -C /repo archive HEAD | tar -x -C $T; (cd $T; git init -q .; git apply $S/patch.diff || echo NOAPPLY); (cd $V; VX_REPO=$T python3 check.py $prop --tier quick | grep -v "^KNOWN" | tail -4; echo "$id $prop"); rm -rf "$T"
else git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }; bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; echo "$id tests: $(python3 $V/tools/cmp.py /tmp/seed.json | tail -1)"; git -C /repo checkout -- .; fi; done
