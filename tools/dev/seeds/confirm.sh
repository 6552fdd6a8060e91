#!/bin/bash
# confirm seeds: demo 0 without, nonzero with; build+18 tests with patch
for id in "$@"; do
 s=/verif/seeded/$id; cd /repo
 git diff --quiet || { echo "repo dirty"; exit 1; }
 bash $s/demo.sh > /tmp/sd/$id.clean 2>&1; a=$?
 git apply $s/patch.diff || { echo "$id does not apply"; continue; }
 bash $s/demo.sh > /tmp/sd/$id.bug 2>&1; b=$?
 t=-; if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh > /tmp/sd/$id.build 2>&1; t=build$?; bash /opt/vp/test.sh /tmp/sd/t.json >/dev/null 2>&1; t="$t $(python3 - <<'P'
import json
d=json.load(open('/tmp/sd/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('failed:',d.get('failed') or [k for k in d if False], len(d.get('passed',[])))
P
)"; fi
 git checkout -q -- .
 echo "$id clean=$a bug=$b $t"
 [ $a != 0 ] && tail -5 /tmp/sd/$id.clean; [ $b = 0 -o $b = 2 ] && tail -5 /tmp/sd/$id.bug
done
