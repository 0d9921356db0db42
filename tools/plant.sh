#!/bin/bash
# plant.sh ID PROPERTY [CHECK...] : the change made in the scratch copy /tmp/sw/repo becomes seeded/ID/patch.diff;
# builds it, runs the stable tests, the demo on both trees, and the named checks (default: the property's own).
# Needs /tmp/sw/{repo,build.sh,test.sh} (copies of /repo and of the build scripts with /repo replaced).
id=$1; prop=$2; shift 2; checks=${@:-$prop}
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id; W=/tmp/sw/repo
mkdir -p $S
[ -z "$REUSE" ] && git -C $W diff -- . > $S/patch.diff
[ -n "$REUSE" ] && { git -C $W checkout -q -- . && git -C $W apply $S/patch.diff || exit 1; }
[ -s $S/patch.diff ] || { echo "empty patch"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /tmp/sw/test.sh /tmp/sw/out.json > /tmp/sw/test.log 2>&1
python3 - <<P
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sw/out.json'))['passed'])
print('tests missing:', sorted(st-p)[:8], len(st-p))
P
fi
if [ -f $S/demo.sh ]; then
(cd $W && bash $S/demo.sh > /tmp/sw/demo_p.log 2>&1); echo "demo patched: $?"
(cd /repo && bash $S/demo.sh > /tmp/sw/demo_c.log 2>&1); echo "demo clean: $?"
fi
for c in $checks; do
VERIF_REPO=$W VERIF_BUILD=/tmp/sw/vb VERIF_EVIDENCE=/tmp/sw/ev VERIF_REPLAYS=/tmp/sw/rp timeout 900 python3 $V/run.py check $c > /tmp/sw/chk_$c.log 2>&1; echo "check $c: $? $(grep -m1 VIOLATION /tmp/sw/chk_$c.log)"
grep -m3 -A6 -i "violation\|detail" /tmp/sw/chk_$c.log | head -12
done
