#!/bin/bash
# tryseed.sh ID [check...]: on the built unchanged tree run the demo; apply, build, demo, tests, checks; undo. NOTEST=1 skips tests
ID=$1; shift; D=/verif/seeded/$ID
cd /repo; [ -z "$(git status --short)" ] || { echo dirty; exit 1; }
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/try.$ID.build 2>&1 || { echo "$ID: build fails"; tail -20 /tmp/try.$ID.build; exit 1; }
bash $D/demo.sh > /tmp/try.$ID.demo 2>&1; echo "$ID: demo with the patch: $? ($(tail -1 /tmp/try.$ID.demo))"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/try.$ID.json > /tmp/try.$ID.test 2>&1; echo "$ID: tests: $(tail -1 /tmp/try.$ID.test)"; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/try.$ID.json'))
st=set(b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b)
print('   broken stable tests:', sorted(st-set(r['passed']))[:5])
P
}
for c in "$@"; do
  /verif/checks/run.sh ${c,,} > /tmp/try.$ID.$c 2>&1; rc=$?
  echo "$ID: $c exits $rc: $(grep -m1 -A1 VIOLATION /tmp/try.$ID.$c | tr '\n' ' ' | cut -c1-220)"
done
